# Small self-contained WAD helper for demonstrations.
import struct, random, subprocess, os, sys, tempfile, shutil
VB = os.environ.get("VB_BIN") or "/opt/vp/bin/vigilantbsp"

class Level:
    def __init__(s, name="MAP01", hexen=False):
        s.name=name; s.hexen=hexen; s.things=[(0,0,90,1,7)]; s.verts=[]; s.lines=[]; s.sides=[]; s.sects=[]
        s.behavior=b"ACS\0\x08\0\0\0\0\0\0\0\0\0\0\0"; s.vmap={}
    def v(s,x,y):
        if (x,y) not in s.vmap:
            s.vmap[(x,y)]=len(s.verts); s.verts.append((x,y))
        return s.vmap[(x,y)]
    def sector(s,floor=0,ceil=128,special=0,tag=0):
        s.sects.append([floor,ceil,160,special,tag]); return len(s.sects)-1
    def side(s,sec,up=b"-",low=b"-",mid=b"-",xo=0,yo=0):
        s.sides.append((xo,yo,up,low,mid,sec)); return len(s.sides)-1
    def line(s,p,q,right,left=-1,flags=None,action=0,tag=0,args=(0,0,0,0,0),mid=b"-"):
        a=s.v(*p); b=s.v(*q)
        r=s.side(right,mid=(b"STARTAN2" if left<0 else mid)); l=-1 if left<0 else s.side(left,mid=mid)
        if flags is None: flags = 1 if left<0 else 4
        s.lines.append((a,b,flags,action,tag,args,r,l)); return len(s.lines)-1
    def room(s,x0,y0,x1,y1,sec=None):
        if sec is None: sec=s.sector()
        s.poly([(x0,y0),(x0,y1),(x1,y1),(x1,y0)],sec); return sec
    def poly(s,pts,right,left=-1,**k):   # clockwise: interior on the right
        return [s.line(pts[i],pts[(i+1)%len(pts)],right,left,**k) for i in range(len(pts))]
    def lumps(s):
        T=b"".join((struct.pack("<hhhhhhhBBBBBB",0,x,y,0,a,t,f,0,0,0,0,0,0) if s.hexen else struct.pack("<hhHHH",x,y,a,t,f)) for x,y,a,t,f in s.things)
        L=b""
        for a,b,f,ac,tg,ar,r,l in s.lines:
            if s.hexen: L+=struct.pack("<HHHB5BHH",a,b,f,ac,*ar,r&0xffff,l&0xffff)
            else: L+=struct.pack("<HHHHHHH",a,b,f,ac,tg,r&0xffff,l&0xffff)
        S=b"".join(struct.pack("<hh8s8s8sH",*x) for x in s.sides)
        V=b"".join(struct.pack("<hh",*x) for x in s.verts)
        E=b"".join(struct.pack("<hh8s8shHH",f,c,b"FLOOR0_1",b"CEIL1_1",l,sp,t) for f,c,l,sp,t in s.sects)
        r=[(s.name,b""),("THINGS",T),("LINEDEFS",L),("SIDEDEFS",S),("VERTEXES",V),("SEGS",b""),("SSECTORS",b""),("NODES",b""),("SECTORS",E),("REJECT",b""),("BLOCKMAP",b"")]
        if s.hexen: r.append(("BEHAVIOR",s.behavior))
        return r

def wad(lumps):
    d=b""; di=b""; pos=12
    for n,b in lumps:
        di+=struct.pack("<II8s",pos,len(b),n.encode()); d+=b; pos+=len(b)
    return b"PWAD"+struct.pack("<II",len(lumps),pos)+d+di
def parse(b):
    m,n,d=struct.unpack("<4sII",b[:12]); r=[]
    assert m in(b"PWAD",b"IWAD"),m
    assert d+16*n<=len(b),"directory outside file"
    for i in range(n):
        p,s,nm=struct.unpack("<II8s",b[d+16*i:d+16*i+16]); assert s==0 or p+s<=len(b),"lump outside file"
        r.append((nm.split(b"\0")[0].decode("latin1"),b[p:p+s] if s else b""))
    return r
LV={"THINGS","LINEDEFS","SIDEDEFS","VERTEXES","SEGS","SSECTORS","NODES","SECTORS","REJECT","BLOCKMAP","BEHAVIOR","SCRIPTS"}
def level(lumps,name):
    r={}; on=False
    for n,b in lumps:
        if n==name: on=True; continue
        if on:
            if n not in LV: break
            r[n]=b
    return r
def verts(b): return [struct.unpack("<hh",b[i:i+4]) for i in range(0,len(b),4)]
def u16(b): return list(struct.unpack("<%dH"%(len(b)//2),b))
class Dir:
    def __enter__(s): s.d=tempfile.mkdtemp(prefix="demo."); return s.d
    def __exit__(s,*a): shutil.rmtree(s.d,ignore_errors=True)
def run(args,cwd,env=None,timeout=60):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run([VB]+args,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    return p.returncode,p.stdout.decode("latin1")
def build(lumps,args,env=None,name="in.wad"):
    with Dir() as d:
        open(d+"/in.wad","wb").write(wad(lumps))
        rc,out=run(args+["in.wad","-o","out.wad"],d,env)
        if rc!=0: print("exit",rc,out[-600:]); sys.exit(3)
        return parse(open(d+"/out.wad","rb").read()),out
def fail(*a): print("FAIL:",*a); sys.exit(1)
def blockmap(b,header=True):
    x,y=struct.unpack("<hh",b[:4]); w,h=struct.unpack("<HH",b[4:8]); W=u16(b); L=[]
    for k in range(w*h):
        p=W[4+k]+(1 if header else 0); l=[]
        while W[p]!=0xffff: l.append(W[p]); p+=1
        L.append(l)
    return x,y,w,h,L
def segs(L):   # vanilla segs: v1,v2,angle,line,dir,offset
    return [struct.unpack("<HHhHHh",L["SEGS"][i:i+12]) for i in range(0,len(L["SEGS"]),12)]
def ssec(L): return [struct.unpack("<HH",L["SSECTORS"][i:i+4]) for i in range(0,len(L["SSECTORS"]),4)]
def nodes(L): return [struct.unpack("<4h8h2H",L["NODES"][i:i+28]) for i in range(0,len(L["NODES"]),28)]
def rej(b,n,i,j): k=i*n+j; return b[k>>3]>>(k&7)&1
def grid(name,w,h,cell,rnd=None,hexen=False,voids=(),nsec=None,jit=0):
    """w x h cells, one sector each (or nsec random ones); voids: set of cells left solid"""
    lv=Level(name,hexen); r=rnd or random.Random(1)
    P={}
    for j in range(h+1):
        for i in range(w+1):
            P[i,j]=(i*cell+r.randint(-jit,jit),j*cell+r.randint(-jit,jit))
    S={}
    for j in range(h):
        for i in range(w):
            if (i,j) in voids: S[i,j]=-1
            elif nsec is None or len(lv.sects)<nsec: S[i,j]=lv.sector(8*r.randrange(6),128+8*r.randrange(6))
            else: S[i,j]=r.randrange(nsec)
    g=lambda i,j:S.get((i,j),-1)
    def add(p,q,rs,ls):   # rs right of p->q
        if rs<0 and ls<0: return
        if rs==ls: return
        if rs<0: p,q,rs,ls=q,p,ls,rs
        lv.line(p,q,rs,ls)
    for j in range(h+1):
        for i in range(w): add(P[i,j],P[i+1,j],g(i,j-1),g(i,j))
    for j in range(h):
        for i in range(w+1): add(P[i,j],P[i,j+1],g(i,j),g(i-1,j))
    for (i,j),s in S.items():
        if s>=0: lv.things=[(i*cell+cell//2,j*cell+cell//2,90,1,7)]; break
    return lv
