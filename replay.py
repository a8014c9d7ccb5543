#!/usr/bin/env python3
"""Replay a counterexample on the plain, un-instrumented code of /repo.
Exit 1: the property is violated by this input; exit 0: it is not."""
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import runner  # noqa: E402

LIMIT = 60


def run(path):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    spec = json.load(open(path))
    L = runner.Loaded(spec["property"], instrumented=False)
    h = L.find(spec["harness"], plain=True)
    failed, obs, err = runner.run_concrete(h, spec["model"])
    if failed:
        print("property %s, harness %s" % (spec["property"], spec["harness"]))
        for k, v in obs.items():
            print("  %s: %r" % (k, v))
        for label, detail in failed:
            print("  FAILED: %s%s" % (label, "" if detail is None else " -- %s" % (detail,)))
        return 1
    print("not violated", {k: repr(v)[:300] for k, v in obs.items()})
    return 0


pid = os.fork()
if pid == 0:
    rc = 2
    try:
        rc = run(sys.argv[1])
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        os._exit(rc)
t0 = time.time()
while time.time() < t0 + LIMIT:
    p, st = os.waitpid(pid, os.WNOHANG)
    if p:
        sys.exit(os.waitstatus_to_exitcode(st) if os.WIFEXITED(st) else 2)
    time.sleep(0.05)
os.kill(pid, signal.SIGKILL)
os.waitpid(pid, 0)
spec = json.load(open(sys.argv[1]))
print("property %s, harness %s" % (spec["property"], spec["harness"]))
print("  input: %s" % json.dumps(spec["model"]))
print("  FAILED: the code terminates -- not after %d s" % LIMIT)
sys.exit(1)
