"""prof.py PROP HARNESS [npaths]: profile symbolic paths."""
import cProfile, pstats, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import runner
import threading
threading.stack_size(512*1024*1024)
def go():
    L = runner.Loaded(sys.argv[1]); n = int(sys.argv[3]) if len(sys.argv) > 3 else 10
    hs, hp = L.find(sys.argv[2]), L.find(sys.argv[2], plain=True)
    stack = [[]]; pr = cProfile.Profile(); t=time.time(); k=0
    pr.enable()
    while stack and k < n:
        r = runner.run_path(hs, hp, stack.pop(), time.time()+60); stack.extend(r["pending"]); k+=1
    pr.disable()
    print(k, "paths", time.time()-t)
    pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
t = threading.Thread(target=go); t.start(); t.join()
