"""python3 -m vk.replay FILE: re-runs a recorded violation against /repo's current tree"""
import sys,json
from . import core,build,trace
def main(p):
    js=json.load(open(p)); ts=core.load_traces(js["traces"]); t=[t for t in ts if t.id==js["target"]]
    if not t: print(js["info"]); return 2
    t=t[0]
    res=trace.exec_traces(build.build(t.variant),ts)
    for (o,k),r in zip(t.ops,res[t.id]): print(trace.line(o,k)[:200],"->",r[0],r[1],r[2].hex()[:100])
    rej=core.judge([t],res)
    if t.id in rej:
        print(core.show(t,rej[t.id][0],res[t.id],rej[t.id][1])); print("VIOLATION property=%s replay=%s"%(js["property"],p)); return 1
    print("accepted"); return 0
if __name__=="__main__": sys.exit(main(sys.argv[1]))
