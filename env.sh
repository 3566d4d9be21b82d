# sourced: toolchain environment for the checks; writes nothing in /opt/vp
REPO=${VH_REPO_DIR:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
_vroot=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOCACHE=$_vroot/.cache/go
if [ ! -d "$GOCACHE" ]; then
	mkdir -p "$_vroot/.cache"
	if [ -d /opt/vp/gocache ]; then cp -a /opt/vp/gocache "$GOCACHE.tmp.$$" && mv -T "$GOCACHE.tmp.$$" "$GOCACHE"; fi
	mkdir -p "$GOCACHE"
fi

# build_extra ID WORK: instrumented builds of the target that some checks need
build_extra() {
	export VH_INSTRBIN= VH_RACEBIN= VH_FAULTBIN=
	if [ "$1" = C03 ]; then
		rm -rf "$2/fs"
		"$2/bin/vh" faultos "$(go env GOROOT)" "$2/fs" || return 2
		export VH_FAULTBIN=$2/bin/vigilantbsp-fault
		(cd "$REPO" && go build -buildvcs=false -overlay "$2/fs/overlay.json" -o "$VH_FAULTBIN" .) || { echo "fault build failed" >&2; return 2; }
	fi
	case $1 in C04 | C05) ;; *) return 0 ;; esac
	rm -rf "$2/ov"
	"$2/bin/vh" instrument "$REPO" "$2/ov" || return 2
	if [ "$1" = C04 ]; then
		export VH_INSTRBIN=$2/bin/vigilantbsp-instr
		(cd "$REPO" && go build -buildvcs=false -overlay "$2/ov/overlay.json" -o "$VH_INSTRBIN" .) || { echo "instrumented build failed" >&2; return 2; }
	else
		export VH_RACEBIN=$2/bin/vigilantbsp-race
		(cd "$REPO" && CGO_ENABLED=1 go build -race -buildvcs=false -overlay "$2/ov/overlay.json" -o "$VH_RACEBIN" .) || { echo "race build failed" >&2; return 2; }
	fi
}
