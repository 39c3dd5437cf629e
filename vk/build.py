"""Builds the conformance driver against /repo's current working tree, in scratch
directories under /verif/build (git-ignored); /repo itself is never written."""
import os, shutil, subprocess, hashlib, fcntl, re, sys
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
BUILD=os.path.join(VERIF,"build")
class BuildError(Exception): pass

def env():
    D="/opt/cryptokit-deps"
    e=dict(os.environ)
    e.update(HOME=e.get("HOME","/root"),LANG="C.UTF-8",LC_ALL="C.UTF-8",
      PATH=f"{D}/usr/bin:/usr/local/bin:/usr/bin:/bin",
      OCAMLPATH=f"{D}/usr/lib/ocaml",CAML_LD_LIBRARY_PATH=f"{D}/usr/lib/ocaml/stublibs",
      CC="gcc",DUNE_CACHE="disabled")
    for k in("DUNE_WORKSPACE","DUNE_PROFILE","DUNE_BUILD_DIR","OCAMLPARAM","OCAMLRUNPARAM"): e.pop(k,None)
    return e

# name -> (config_vars override or None, extra C flags, bytecode?)
CFG='''type 'a value =
    | This of 'a
    | Auto

let enable_zlib = %s

let enable_hardware_support = %s
'''
VARIANTS={
 "hw":    (None,[],False),
 "sw":    (("Auto","This false"),["-U__SIZEOF_INT128__"],False),
 "byte":  (("Auto","This false"),["-DFULL_UNROLL"],True),
 "nozlib":(("This false","Auto"),[],False),
 "noaes": (None,["-include","{d}/harness/vk_cpu.h","-DVK_NOAES"],False),
 "noclmul":(None,["-include","{d}/harness/vk_cpu.h"],False),
 "asan":  (None,["-fsanitize=address","-fno-omit-frame-pointer"],False),
}

def tree_hash():
    h=hashlib.sha256()
    for base in (os.path.join(REPO,"src"),os.path.join(VERIF,"harness")):
        for d,ds,fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p=os.path.join(d,f)
                h.update(p.encode()); h.update(open(p,'rb').read())
    h.update(repr(VARIANTS).encode())
    h.update(open(os.path.join(REPO,"dune-project"),'rb').read())
    return h.hexdigest()

def build(variant="hw"):
    """returns the path of the driver executable"""
    os.makedirs(BUILD,exist_ok=True)
    cfg,cflags,byte=VARIANTS[variant]
    d=os.path.join(BUILD,variant)
    with open(os.path.join(BUILD,variant+".lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        stamp=os.path.join(d,"stamp"); th=tree_hash()
        exe=os.path.join(d,"_build","default","harness","drv.bc.exe" if byte else "drv.exe")
        if os.path.exists(stamp) and open(stamp).read()==th and os.path.exists(exe): return exe
        shutil.rmtree(d,ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO,"src"),os.path.join(d,"src"),
                        ignore=shutil.ignore_patterns("_build"))
        shutil.copy(os.path.join(REPO,"dune-project"),d)
        if os.path.exists(os.path.join(REPO,"cryptokit.opam")): shutil.copy(os.path.join(REPO,"cryptokit.opam"),d)
        h=os.path.join(d,"harness"); os.makedirs(h)
        for f in os.listdir(os.path.join(VERIF,"harness")):
            if not f.startswith("dune."): shutil.copy(os.path.join(VERIF,"harness",f),h)
        shutil.copy(os.path.join(VERIF,"harness","dune.byte" if byte else "dune.asan" if variant=="asan" else "dune.native"),os.path.join(h,"dune"))
        if byte:   # (modes byte_complete) needs a newer dune language
            p=os.path.join(d,"dune-project"); s=open(p).read()
            open(p,"w").write(re.sub(r"\(lang dune [0-9.]+\)","(lang dune 3.6)\n(use_standard_c_and_cxx_flags false)",s,count=1))
        if cfg:
            open(os.path.join(d,"src","config","config_vars.ml"),"w").write(CFG%cfg)
        if cflags:
            p=os.path.join(d,"src","dune"); s=open(p).read()
            s2=s.replace("-DCAML_NAME_SPACE","-DCAML_NAME_SPACE "+" ".join(cflags).replace("{d}",d),1)
            if s2==s: raise BuildError("cannot add C flags for variant "+variant)
            open(p,"w").write(s2)
        tgt="harness/drv.bc.exe" if byte else "harness/drv.exe"
        r=subprocess.run(["dune","build","--root",d,"--profile","release","./"+tgt],env=env(),
                         stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode or not os.path.exists(exe):
            raise BuildError("building variant %s failed:\n%s"%(variant,r.stdout[-4000:]))
        open(stamp,"w").write(th)
        return exe
if __name__=="__main__":
    for v in sys.argv[1:] or ["hw"]: print(build(v))
