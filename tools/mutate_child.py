"""Run the dumped models of every harness on the plain code of VERIF_REPO; first failure = KILLED."""
import json
import os
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sx import instrument, runner  # noqa: E402

target = sys.argv[1]
LIMIT = int(os.environ.get("MUT_PER", "40"))
t0 = time.time()
props = []
for i in range(1, 40):
    p = "/tmp/models/C%02d.json" % i
    if not os.path.exists(p):
        continue
    d = json.load(open(p))
    rel = target in d["funcs"] or target.endswith(":None")
    props.append((not rel, "C%02d" % i, d))
props.sort(key=lambda x: x[:2])
n = 0
for norel, prop, d in props:
    if norel:
        continue
    try:
        L = runner.Loaded(prop, instrumented=False)
    except Exception as e:
        print("KILLED load", repr(e)[:200])
        sys.stdout.flush()
        os._exit(0)
    if not instrument._snap:
        instrument._snapshot()
        instrument.warm_up(sys.modules["hx_common"].kbs())
    for h, models in d["models"].items():
        hp = L.find(h, plain=True)
        if runner.available(hp):
            continue
        step = max(1, len(models) // LIMIT)
        for m in models[::step]:
            n += 1
            failed, obs, err = runner.run_concrete(hp, m)
            if failed:
                print("KILLED %s %s %s" % (prop, h, failed[0][0]))
                sys.stdout.flush()
                os._exit(0)
print("alive after %d points, %d properties, %.0f s" % (n, sum(1 for x in props if not x[0]), time.time() - t0))
sys.stdout.flush()
os._exit(0)
