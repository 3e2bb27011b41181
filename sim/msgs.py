import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
from sweep import *
scen,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); cls=sys.argv[4] if len(sys.argv)>4 else None
kn="".join("knob %s %s\n"%tuple(x.split("=",1)) for x in sys.argv[5:])
w=Worker()
for i in range(a,b):
    d=parse(w.run("scenario %s\nseed %d\n%s"%(scen,i,kn),20000))
    if d["outcome"]!="ok" and (not cls or d.get("class")==cls): print(i,d.get("class"),d.get("msg","")[:400].replace("replies differ from the sequential specification",""))
