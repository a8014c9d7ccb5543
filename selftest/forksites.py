"""Which source lines / patterns fork: python selftest/forksites.py PROP HARNESS [npaths]"""
import os, sys, collections, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000); threading.stack_size(512*1024*1024)
from sx import runner, core, regex
import random
def main():
    L=runner.Loaded(sys.argv[1]); h=L.find(sys.argv[2]); hp=L.find(sys.argv[2],plain=True)
    N=int(sys.argv[3]) if len(sys.argv)>3 else 50
    sites=collections.Counter()
    oc=core.choose
    cur=[None]
    orun=regex.Comp.run
    def run(self,*a):
        old=cur[0]; cur[0]=self
        try: return orun(self,*a)
        finally: cur[0]=old
    regex.Comp.run=run
    oinit=regex.Comp.__init__
    def init(self,p,f,x):
        self.pattext=p; oinit(self,p,f,x)
    regex.Comp.__init__=init
    def choose(n):
        if n>1 and core.S.pos>=len(core.S.prefix):
            st=[f for f in traceback.extract_stack() if '/refextract/' in f.filename or '/harness/' in f.filename]
            w="%s:%d %s"%(os.path.basename(st[-1].filename),st[-1].lineno,st[-1].name) if st else '?'
            if cur[0] is not None: w+=" /%s/"%cur[0].pattext[:110].replace("\n"," ")
            sites[w]+=1
        return oc(n)
    core.choose=choose
    core.fork_mask.__globals__['choose']=choose
    stack=[[]]; k=0; import time; t=time.time()
    rnd=random.Random(1)
    while stack and k<N:
        r=runner.run_path(h,hp,stack.pop(rnd.randrange(len(stack))),None); k+=1
        stack.extend(r['pending'])
        if r['status'] not in('ok','assume') or r['diverge'] or r['cex']: print(r['status'],r.get('why'),r['diverge'],r['cex'][:1])
    print(k,'paths',round((time.time()-t)/k,4),'s/path, left',len(stack))
    for w,c in sites.most_common(25): print(c,w)
    os._exit(0)
t=threading.Thread(target=main); t.start(); t.join()
