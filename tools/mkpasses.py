import sys,json; sys.path.insert(0,'/verif')
from pl.ctx import Ctx
from pl.guards import Guards
c=Ctx(); g=Guards(c.prog,c.eff)
col=g.collect()
out={}
J=lambda t: sorted([list(x) for x in t],key=repr)
for fn,cs in sorted(col.items()):
    for k,kinds in cs.items():
        for w,(t,q,b) in kinds.items():
            if b is None: print("GAVE UP",fn,k,w,file=sys.stderr)
            out.setdefault(fn,{}).setdefault(k,{})[w]={"on":J(t),"when":None if b is None or getattr(q,"imprecise",False) else sorted([J(x) for x in b],key=repr)}
s="{\n"+",\n".join('"%s": {\n%s}'%(fn,",\n".join('  "%s": {\n%s}'%(k,",\n".join('    "%s": {"on": %s,\n      "when": %s}'%(w,json.dumps(t["on"]),json.dumps(t["when"])) for w,t in sorted(ks.items()))) for k,ks in sorted(cs.items()))) for fn,cs in sorted(out.items()))+"\n}\n"
if len(sys.argv)>1: open(sys.argv[1],'w').write(s)
print(s)
