package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() { tools["faultos"] = toolFaultOS }

// toolFaultOS GOROOT OUT writes OUT/overlay.json for "go build -overlay": the
// standard library's system call wrappers with a hook in front that numbers
// and logs every file operation below a directory and, at chosen numbers,
// makes it fail, perform only partly, or kills the process. The program's own
// source is untouched.
func toolFaultOS(a []string) {
	goroot, out := a[0], a[1]
	os.MkdirAll(out, 0755)
	die := func(f string, x ...interface{}) {
		fmt.Fprintf(os.Stderr, "faultos: "+f+"\n", x...)
		os.Exit(2)
	}
	repl := map[string]string{}
	edit := func(file string, ins [][2]string) {
		p := filepath.Join(goroot, "src", file)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, i := range ins {
			k := strings.Index(s, i[0])
			if k < 0 || strings.Count(s, i[0]) != 1 {
				die("%s: anchor %q not found once", file, i[0])
			}
			s = s[:k+len(i[0])] + i[1] + s[k+len(i[0]):]
		}
		o := filepath.Join(out, strings.ReplaceAll(file, "/", "_"))
		if err := os.WriteFile(o, []byte(s), 0644); err != nil {
			die("%v", err)
		}
		repl[p] = o
	}
	simple := func(kind, fd, path, n, ret string) string {
		return fmt.Sprintf("\n\tif vh := VhFS('%s', %s, %s, int(%s)); vh > 0 {\n\t\treturn %sErrno(vh)\n\t}\n", kind, fd, path, n, ret)
	}
	edit("syscall/zsyscall_linux_amd64.go", [][2]string{
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {",
			simple("O", "-1", "path", "flags", "-1, ") + "\tdefer func() {\n\t\tif err == nil {\n\t\t\tvhOpened(fd, path)\n\t\t}\n\t}()\n"},
		{"func unlinkat(dirfd int, path string, flags int) (err error) {", simple("U", "-1", "path", "flags", "")},
		{"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {", simple("N", "-1", "newpath", "0", "")},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {", simple("A", "-1", "path", "flags", "")},
		{"func Truncate(path string, length int64) (err error) {", simple("T", "-1", "path", "length", "")},
		{"func Ftruncate(fd int, length int64) (err error) {", simple("T", "fd", `""`, "length", "")},
		{"func Fsync(fd int) (err error) {", simple("Y", "fd", `""`, "0", "")},
		{"func Seek(fd int, offset int64, whence int) (off int64, err error) {", simple("K", "fd", `""`, "offset", "-1, ")},
		{"func Close(fd int) (err error) {", "\n\tif vh := VhFS('C', fd, \"\", 0); vh > 0 {\n\t\tdefer func() { err = Errno(vh) }()\n\t}\n\tvhClosed(fd)\n"},
		{"func read(fd int, p []byte) (n int, err error) {", simple("R", "fd", `""`, "len(p)", "-1, ") + "\tp = p[:vhShort(fd, len(p), 'R')]\n"},
		{"func pread(fd int, p []byte, offset int64) (n int, err error) {", simple("R", "fd", `""`, "len(p)", "-1, ") + "\tp = p[:vhShort(fd, len(p), 'R')]\n"},
		{"func write(fd int, p []byte) (n int, err error) {", simple("W", "fd", `""`, "len(p)", "-1, ") + "\tp = p[:vhShort(fd, len(p), 'W')]\n\tif vhDieAfter(fd) {\n\t\tRawSyscall(SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(unsafe.SliceData(p))), uintptr(len(p)))\n\t\tvhKill()\n\t}\n"},
		{"func pwrite(fd int, p []byte, offset int64) (n int, err error) {", simple("W", "fd", `""`, "len(p)", "-1, ") + "\tp = p[:vhShort(fd, len(p), 'W')]\n\tif vhDieAfter(fd) {\n\t\tRawSyscall6(SYS_PWRITE64, uintptr(fd), uintptr(unsafe.Pointer(unsafe.SliceData(p))), uintptr(len(p)), uintptr(offset), 0, 0)\n\t\tvhKill()\n\t}\n"},
	})
	edit("internal/syscall/unix/copy_file_range_unix.go", [][2]string{
		{"func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {",
			"\n\tif syscall.VhNoCopyRange() {\n\t\treturn 0, syscall.ENOSYS\n\t}\n\tif vh := syscall.VhFS('X', wfd, \"\", len); vh > 0 {\n\t\treturn 0, syscall.Errno(vh)\n\t}\n\tlen = syscall.VhShortRange(wfd, len)\n\tdefer syscall.VhAfterRange(wfd)\n"},
	})
	hook := `package syscall

import "sync"

var vh struct {
	once          sync.Once
	mu            sync.Mutex
	on, nocfr     bool
	dir           string
	log           uintptr
	op            int
	names         [512]string
	at            [8]int
	act           [8]byte
	arg           [8]int
	cnt           int
	sticky        int  // all writes and creations fail with this
	shortFD       int  // next transfer on it is cut
	dieFD         int
}

func vhInit() {
	d, ok := Getenv("VH_FS_DIR")
	if !ok || d == "" {
		return
	}
	vh.dir = d
	vh.shortFD, vh.dieFD = -1, -1
	if s, _ := Getenv("VH_FS_NOCFR"); s != "" {
		vh.nocfr = true
	}
	l, _ := Getenv("VH_FS_LOG")
	b, _ := BytePtrFromString(l)
	fd, _, e := RawSyscall6(SYS_OPENAT, ^uintptr(99), uintptr(vhPtr(b)), uintptr(O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC), 0644, 0, 0)
	if e != 0 {
		return
	}
	vh.log = fd
	// plan: N ACT ARG; e.g. "12e28;30k0;"
	p, _ := Getenv("VH_FS_PLAN")
	num := 0
	stage := 0
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c >= '0' && c <= '9':
			num = num*10 + int(c-'0')
		case c == ';':
			vh.arg[vh.cnt] = num
			vh.cnt++
			num, stage = 0, 0
		default:
			vh.at[vh.cnt] = num
			vh.act[vh.cnt] = c
			num, stage = 0, 1
		}
	}
	_ = stage
	vh.on = true
}

func vhNum(b []byte, n int) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	var t [20]byte
	i := len(t)
	for {
		i--
		t[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	return append(b, t[i:]...)
}

func vhKill() {
	for {
		RawSyscall(SYS_KILL, uintptr(Getpid()), 9, 0)
	}
}

func vhIn(path string) bool {
	if len(path) == 0 || path[0] != '/' {
		return len(path) > 0
	}
	return len(path) > len(vh.dir) && path[:len(vh.dir)] == vh.dir
}

func VhNoCopyRange() bool { vh.once.Do(vhInit); return vh.on && vh.nocfr }

// VhFS is told of an operation that is about to happen; a positive answer is
// the error it has to fail with.
func VhFS(kind byte, fd int, path string, n int) int {
	vh.once.Do(vhInit)
	if !vh.on {
		return 0
	}
	vh.mu.Lock()
	defer vh.mu.Unlock()
	if fd >= 0 {
		if fd >= len(vh.names) || vh.names[fd] == "" {
			return 0
		}
		path = vh.names[fd]
	} else if !vhIn(path) {
		return 0
	}
	vh.op++
	act, arg := byte('-'), 0
	for i := 0; i < vh.cnt; i++ {
		if vh.at[i] == vh.op {
			act, arg = vh.act[i], vh.arg[i]
		}
	}
	if act == '-' && vh.sticky != 0 && (kind == 'W' || kind == 'X' || kind == 'O' && n&O_CREAT != 0) {
		act, arg = 'e', vh.sticky
	}
	xfer := kind == 'W' || kind == 'X' || kind == 'R'
	if act == 's' && !xfer || (act == 'h' || act == 'H' || act == 'S') && !(kind == 'W' || kind == 'X' || kind == 'O') {
		act, arg = '-', 0 // does not apply
	}
	b := make([]byte, 0, 256)
	b = vhNum(b, vh.op)
	b = append(b, ' ', kind, ' ')
	b = vhNum(b, n)
	b = append(b, ' ', act)
	b = vhNum(b, arg)
	b = append(b, ' ')
	b = append(b, path...)
	b = append(b, '\n')
	RawSyscall(SYS_WRITE, vh.log, uintptr(vhPtr(&b[0])), uintptr(len(b)))
	switch act {
	case 'e':
		return arg
	case 'S':
		vh.sticky = arg
		return arg
	case 'k':
		vhKill()
	case 's':
		vh.shortFD = fd
	case 'h':
		if kind == 'O' {
			return arg
		}
		vh.shortFD = fd
		vh.sticky = arg
	case 'H':
		if kind == 'O' {
			vhKill()
		}
		vh.shortFD = fd
		vh.dieFD = fd
	}
	return 0
}

func vhShort(fd, n int, kind byte) int {
	if !vh.on {
		return n
	}
	vh.mu.Lock()
	defer vh.mu.Unlock()
	if vh.shortFD == fd && fd >= 0 {
		vh.shortFD = -1
		return (n + 1) / 2
	}
	return n
}

func vhDieAfter(fd int) bool {
	return vh.on && vh.dieFD == fd
}

// the length asked of copy_file_range is no measure of the file's
func VhShortRange(fd, n int) int {
	if !vh.on {
		return n
	}
	vh.mu.Lock()
	defer vh.mu.Unlock()
	if vh.shortFD == fd && fd >= 0 {
		vh.shortFD = -1
		if n > 300 {
			return 300
		}
	}
	return n
}

func VhAfterRange(fd int) {
	if vh.on && vh.dieFD == fd {
		vhKill()
	}
}

func vhOpened(fd int, path string) {
	if !vh.on || !vhIn(path) || fd < 0 || fd >= len(vh.names) {
		return
	}
	vh.mu.Lock()
	vh.names[fd] = path
	vh.mu.Unlock()
}

func vhClosed(fd int) {
	if !vh.on || fd < 0 || fd >= len(vh.names) {
		return
	}
	vh.mu.Lock()
	vh.names[fd] = ""
	vh.mu.Unlock()
}
`
	ptr := "package syscall\n\nimport \"unsafe\"\n\nfunc vhPtr(b *byte) unsafe.Pointer { return unsafe.Pointer(b) }\n"
	for n, s := range map[string]string{"vh_hook.go": hook, "vh_ptr.go": ptr} {
		o := filepath.Join(out, n)
		if err := os.WriteFile(o, []byte(s), 0644); err != nil {
			die("%v", err)
		}
		repl[filepath.Join(goroot, "src", "syscall", n)] = o
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
}
