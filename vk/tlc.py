"""Runs TLC with the word-level overrides."""
import os,subprocess,re,tempfile,shutil,fcntl,hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC=os.path.join(VERIF,"spec"); CLS=os.path.join(VERIF,"build","classes")
JAR="/opt/veriftools/tla/tla2tools.jar"; CM="/opt/veriftools/tla/CommunityModules-deps.jar"
def classes():
    os.makedirs(CLS,exist_ok=True)
    src=os.path.join(SPEC,"java"); srcs=sorted(os.path.join(src,f) for f in os.listdir(src) if f.endswith(".java"))
    h=hashlib.sha256(b"".join(open(f,'rb').read() for f in srcs)).hexdigest()
    st=os.path.join(CLS,"stamp")
    with open(CLS+".lock","w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        if os.path.exists(st) and open(st).read()==h: return CLS
        r=subprocess.run(["javac","-nowarn","-cp",JAR+":"+CM,"-d",CLS]+srcs,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: raise RuntimeError("javac: "+r.stdout)
        open(st,"w").write(h)
    return CLS
class Res: pass
def run(module,cfg=None,workers=1,args=(),env=None,timeout=800,heap="2g",cwd=None,extra_java=()):
    """module: path without .tla (or name in spec/); cfg: path or text."""
    c=classes()
    work=tempfile.mkdtemp(prefix="tlc",dir=os.path.join(VERIF,"build"))
    try:
        if not os.path.isabs(module): module=os.path.join(SPEC,module)
        if cfg is None: cfgp=module+".cfg"
        elif "\n" in cfg:
            cfgp=os.path.join(work,"m.cfg"); open(cfgp,"w").write(cfg)
        else: cfgp=cfg
        e=dict(os.environ); e.update(env or {})
        cmd=["java","-XX:+UseParallelGC","-Xss16m","-Xmx"+heap,"-DTLA-Library="+SPEC,"-Djava.io.tmpdir="+work,
             "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:WordsOv",*extra_java,
             "-cp",c+":"+JAR+":"+CM,"tlc2.TLC","-config",cfgp,"-workers",str(workers),
             "-metadir",os.path.join(work,"meta"),"-noGenerateSpecTE",*args,module+".tla"]
        r=Res()
        try:
            p=subprocess.run(cmd,cwd=cwd or work,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
            r.out=p.stdout; r.rc=p.returncode
        except subprocess.TimeoutExpired as x:
            r.out=(x.stdout or b"").decode(errors="replace") if isinstance(x.stdout,bytes) else (x.stdout or ""); r.rc=-1
        m=re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found",r.out)
        r.generated,r.distinct=(int(m.group(1).replace(",","")),int(m.group(2).replace(",",""))) if m else (0,0)
        r.ok=(r.rc==0 and "No error has been found" in r.out) or (r.rc==0 and "-simulate" in args)
        return r
    finally: shutil.rmtree(work,ignore_errors=True)
if __name__=="__main__":
    import sys,time
    t=time.time(); r=run(sys.argv[1],workers=8); print(r.out[-6000:]); print(r.rc,r.generated,r.distinct,time.time()-t)
