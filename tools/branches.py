import sys,collections,traceback
sys.path.insert(0,'/verif')
chk,sub=sys.argv[1:3]
from symts import runner
runner._init(chk,"/repo")
from symts import engine
C=collections.Counter()
o=engine.Engine.branch
def br(self,f):
    n=len(self.stack)
    r=o(self,f)
    if len(self.stack)>n:
        tb=traceback.extract_stack()
        if len(sys.argv)>3 and sys.argv[3] in repr(f): traceback.print_stack(); sys.exit()
        tb=[x for x in tb[:-1] if '/symts/' not in x.filename][-1]
        C[(repr(f)[:150],tb.name,tb.lineno)]+=1
    return r
engine.Engine.branch=br
m=runner._G["m"]
import time
for i,c in enumerate(m.CASES):
    if sub in c.name:
        r=runner._run_case((i,time.time()+30,"quick"))
        print(c.name,r["st"]["paths"],r["err"],r["complete"], r["unsupported"][:2])
        break
for k,v in C.most_common(25): print(v,k)
