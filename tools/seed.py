#!/usr/bin/env python3
"""Maintains /verif/seeded.  tools/bugs/<id>.py defines PROP, NEEDS, BREAKS, EDITS=[(file,old,new),..]
and DEMO (an OCaml program that exits 0 iff the behaviour is right).
  seed.py make ID..     writes seeded/ID
  seed.py confirm ID..  patch applies, builds, passes the stable tests, demo 0 without / !=0 with
  seed.py check ID..    runs the property's quick check (and any named with --also=C04,C09) against it
Works in scratch copies under /tmp/seed, removed afterwards."""
import os,sys,json,subprocess,shutil,runpy
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH='''#!/bin/bash
# exits 0 iff the library built in the current directory behaves as the property demands
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
B=$R/_build/default/src
cp "$D/demo.ml" "$W/demo.ml" && cd "$W" || exit 2
ocamlfind ocamlopt -w -a -package zarith,unix -linkpkg -I $B -I $B/.cryptokit.objs/byte -I $B/.cryptokit.objs/native \\
  cryptokit.cmxa demo.ml -o demo >log 2>&1 || { cat log; exit 2; }
timeout 250 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def home(i):
    """Patches in files vcheck does not count (.ml) live beside seeded/, in seeded_ml/."""
    ml=any(not f.endswith((".c",".h")) for f,_,_ in bug(i)["EDITS"])
    return os.path.join(V,"seeded_ml" if ml else "seeded",i)
def bug(i): return runpy.run_path(os.path.join(V,"tools","bugs",i+".py"))
def copy(i,name):
    d="/tmp/seed/%s-%s"%(i,name); shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/seed",exist_ok=True)
    sh(["cp","-a","/repo",d]); return d
def make(i):
    b=bug(i); d=copy(i,"mk")
    for f,o,n in b["EDITS"]:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(o)==1,(i,f,s.count(o),o)
        open(p,"w").write(s.replace(o,n))
    diff=sh(["git","diff"],cwd=d).stdout; shutil.rmtree(d)
    o=home(i); shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+"/patch.diff","w").write(diff)
    open(o+"/demo.sh","w").write(b.get("DEMO_SH",DEMO_SH)); os.chmod(o+"/demo.sh",0o755)
    if "DEMO" in b: open(o+"/demo.ml","w").write(b["DEMO"])
    json.dump({"property":b["PROP"],"needs":b["NEEDS"],"what_it_breaks":b["BREAKS"]},open(o+"/meta.json","w"),indent=1)
def tests(d):
    r=sh("unset DUNE_WORKSPACE; . /opt/vp/env.sh; cd %s && dune build --root . --profile release @@default 2>&1 && cd _build/default/test && timeout 600 ./test.exe > /tmp/seed/log.%s 2>&1 </dev/null; st=$?; python3 /opt/vp/parse.py /tmp/seed/log.%s $st > /tmp/seed/lines.%s; python3 /opt/vp/results.py /tmp/seed/out.%s lines:/tmp/seed/lines.%s"%((d,)+(os.path.basename(d),)*5),executable="/bin/bash")
    try: js=json.load(open("/tmp/seed/out."+os.path.basename(d)))
    except Exception: return r.stdout[-2000:]
    for k in("log","lines","out"):
        try: os.remove("/tmp/seed/%s.%s"%(k,os.path.basename(d)))
        except OSError: pass
    base=json.load(open("/opt/vp/BASELINE.json"))
    want=base.get("passed") or base.get("stable") or base
    miss=[t for t in want if t not in js["passed"]] if isinstance(want,list) else []
    if js["failed"] or miss or len(js["passed"])<556: return "tests fail: %s %s"%(js["failed"][:5],miss[:5])+r.stdout[-1000:]
    return None
def confirm(i):
    o=home(i)
    c=copy(i,"ok"); e0=tests(c); r0=sh(["bash",o+"/demo.sh"],cwd=c)
    d=copy(i,"bad"); a=sh(["git","apply",o+"/patch.diff"],cwd=d)
    e1=tests(d); r1=sh(["bash",o+"/demo.sh"],cwd=d)
    shutil.rmtree(c); shutil.rmtree(d)
    ok=not e0 and not e1 and a.returncode==0 and r0.returncode==0 and r1.returncode not in(0,2)
    return "%s %s clean:%s/%d patched:%s/%d %s %s"%(i,"CONFIRMED" if ok else "*** NOT CONFIRMED",e0,r0.returncode,e1,r1.returncode,a.stdout,"" if ok else r0.stdout[-500:]+"|"+r1.stdout[-500:])
def check(i,also=(),seed="1"):
    o=home(i); d=copy(i,"chk"); v=d+"-verif"
    shutil.rmtree(v,ignore_errors=True)
    shutil.copytree(V,v,ignore=shutil.ignore_patterns("build","seeded","seeded_ml","replays","evidence",".git"))
    a=sh(["git","apply",o+"/patch.diff"],cwd=d)
    if a.returncode: return i+" patch does not apply"
    out=[]
    for p in [json.load(open(o+"/meta.json"))["property"]]+list(also):
        r=sh(["python3","check.py",p,"quick"],cwd=v,env=dict(os.environ,VERIF_REPO=d,VERIF_SEED=seed,VERIF_TIER="quick"))
        viol=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s "%p)]
        tr=[l for l in r.stdout.splitlines() if l.startswith("trace ")]
        out.append("%s: rc %d %s"%(p,r.returncode,"caught by "+tr[-1][:160] if r.returncode==1 and viol and tr else "caught" if r.returncode==1 and viol else "MISSED" if r.returncode==0 else "ERROR "+r.stdout[-1500:]))
    shutil.rmtree(d); shutil.rmtree(v)
    return i+"  "+"; ".join(out)
if __name__=="__main__":
    cmd=sys.argv[1]; also=(); ids=[]; seed="1"
    for x in sys.argv[2:]:
        if x.startswith("--also="): also=x[7:].split(",")
        elif x.startswith("--seed="): seed=x[7:]
        else: ids.append(x)
    if not ids: ids=sorted(f[:-3] for f in os.listdir(os.path.join(V,"tools","bugs")) if f.endswith(".py"))
    with ThreadPoolExecutor(3 if cmd!="make" else 1) as ex:
        for r in ex.map({"make":make,"confirm":confirm,"check":lambda i:check(i,also,seed)}[cmd],ids):
            if r: print(r,flush=True)
