"""Differential self-test of the matcher: every compiled pattern of the project on random
strings (all positions concrete) against CPython's re."""
import os, sys, random, re, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512*1024*1024)
from sx import runner, instrument
from sx.regex import SymPattern
def main():
    plain, inst = instrument.load(runner.MODULES)
    pats=set()
    def walk(x, d=0):
        if isinstance(x, re.Pattern): pats.add(x)
        elif isinstance(x,(list,tuple)) and d<4:
            for y in x: walk(y,d+1)
        elif isinstance(x,dict) and d<4:
            for y in x.values(): walk(y,d+1)
    for n,m in plain.items():
        for k,v in list(vars(m).items()):
            if isinstance(v,(re.Pattern,list,tuple,dict)): walk(v)
    for f in ('get_references_regexs',):
        pass
    extra=[r"(a|ab)(c|bcd)(d*)", r"(?:(a)|b)*", r"(a*)*b", r"(?:a?)*?b", r"\b", r"x*", r"(?=(a+))a*b\1", r"(a)?(?(1)b|c)", r"(?<!a)b", r"(?i)straSSe|ſ", r"((a)|(b))+", r"(?>a+)b", r"a++b",r"(?s:.)+?c"]
    pats |= {re.compile(e) for e in extra}
    pats=sorted(pats,key=lambda p:(p.pattern,p.flags))
    print(len(pats),'patterns')
    frag=["Phys. Rev. ","D ","53 ","(1996) ","6565","[1] ","1. ","arXiv:","hep-th/9901001"," ","et al.,","A. Smith"," and ","ed. ","doi:10.1016/j.foo ","http://a.b/c?d=1","<cds.VOL>","</cds.VOL>","JHEP","vol. ","no. ","pp. 1-2","ISBN 978-3-16-148410-0","-",",",";",":",".","(",")","[","]","“T”","ß","é","I","iv","Ph.D. Thesis","IBID ","ibid. ","a","b","ab","c","abcd","\n","CERN-","2001-012","References","P. 12","\"x y\"","#1","hdl:10.1/2","{","}"," , "]
    rnd=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
    strs=["".join(rnd.choice(frag) for _ in range(rnd.randint(0,7))) for _ in range(int(sys.argv[2]) if len(sys.argv)>2 else 40)]
    bad=0; t0=time.time(); slow=[]
    for p in pats:
        if isinstance(p.pattern,bytes): continue
        t=time.time()
        try: sp=SymPattern(p)
        except BaseException as e:
            print("COMPILE",repr(e),p.pattern[:100]); bad+=1; continue
        for s in strs:
            a=[(m.span(),m.groups(),m.groupdict(),m.lastindex if hasattr(m,'lastindex') else None) for m in p.finditer(s)]
            b=[(m.span(),m.groups(),m.groupdict()) for m in sp.finditer(s)]
            a3=[x[:3] for x in a]
            m1=p.match(s); m2=sp.match(s)
            ok = a3==b and (m1.span(),m1.groups())==(m2.span(),m2.groups()) if m1 and m2 else a3==b and bool(m1)==bool(m2)
            if ok and p.split(s)!=sp.split(s): ok=False
            if ok and p.sub('<>',s)!=sp.sub('<>',s): ok=False
            if not ok:
                bad+=1
                if bad<6: print("DIFF",p.pattern[:200],repr(s),a3,b)
                break
        slow.append((time.time()-t,p.pattern[:80]))
    print('bad',bad,'time',time.time()-t0)
    for x in sorted(slow)[-5:]: print(x)
    os._exit(1 if bad else 0)
t=threading.Thread(target=main); t.start(); t.join()
