"""Exploration driver, evidence, replay."""
import logging
import mmap
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time
import traceback
import types

logging.disable(logging.CRITICAL)   # the code under test logs failures it handles
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
DUMP = os.environ.get("SX_DUMP")   # development: write one model per path to this directory

MODULES = [
    "inspire_utils.record", "inspire_utils.dedupers",
    "refextract", "refextract.extract", "refextract.references.api",
    "refextract.references.engine", "refextract.references.tag",
    "refextract.references.text", "refextract.references.find",
    "refextract.references.kbs", "refextract.references.record",
    "refextract.references.pdf", "refextract.references.regexs",
    "refextract.references.errors", "refextract.references.config",
    "refextract.documents.text", "refextract.documents.pdf",
    "refextract.authors.regexs",
]


def load_harness(prop, instrumented):
    from . import instrument
    path = os.path.join(VERIF, "harness", prop.lower() + ".py")
    name = "harness." + prop.lower() + ("_sx" if instrumented else "_plain")
    if instrumented:
        instrument.PREFIXES = instrument.PREFIXES
        spec = importlib.util.spec_from_file_location(name, path, loader=instrument.Loader(path))
    else:
        spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    m.__dict__["INSTRUMENTED"] = instrumented
    sys.modules[name] = m
    if instrumented:
        # helper modules of the harness, instrumented too
        for helper in ("common",):
            hp = os.path.join(VERIF, "harness", helper + ".py")
            hs = importlib.util.spec_from_file_location("hx_" + helper, hp, loader=instrument.Loader(hp))
            hm = importlib.util.module_from_spec(hs)
            sys.modules["hx_" + helper] = hm
            hs.loader.exec_module(hm)
    else:
        for helper in ("common",):
            hp = os.path.join(VERIF, "harness", helper + ".py")
            hs = importlib.util.spec_from_file_location("hx_" + helper, hp)
            hm = importlib.util.module_from_spec(hs)
            sys.modules["hx_" + helper] = hm
            hs.loader.exec_module(hm)
    spec.loader.exec_module(m)
    return m


class Loaded:
    def __init__(self, prop, instrumented=True):
        from . import instrument
        self.prop = prop
        if instrumented:
            instrument.load(MODULES)
            self.sx = load_harness(prop, True)
        else:
            if instrument.REPO not in sys.path:
                sys.path.insert(0, instrument.REPO)
            import warnings
            warnings.simplefilter("ignore")
            for n in MODULES:
                try:
                    instrument._plain[n] = importlib.import_module(n)
                except ModuleNotFoundError:
                    pass
        self.plain = load_harness(prop, False)
        if instrumented:
            instrument.warm_up(sys.modules["hx_common"].kbs())

    def find(self, name, plain=False):
        for h in (self.plain if plain else self.sx).HARNESSES:
            if h.name == name:
                return h
        raise KeyError(name)


def available(h):
    """Are the entry points the harness drives present in this tree?"""
    from . import instrument
    miss = []
    for n in h.needs:
        m, _, a = n.partition(":")
        mod = instrument._plain.get(m)
        if mod is None or (a and not hasattr(mod, a)):
            miss.append(n)
    return miss


ENDS = "the code terminates"
CONCRETE_LIMIT = 30        # seconds for one concrete run (they take milliseconds)


class Watch:
    """Limits of a worker: its main thread interrupts the working thread when the time of the current run is up;
    the model of a concrete run is left in shared memory, for the case that it cannot be interrupted."""
    limit = None        # (time, exception class)
    box = None

    @classmethod
    def note(cls, hname=None, model=None):
        if cls.box is not None:
            d = json.dumps([hname, model]).encode() if hname else b""
            if len(d) < len(cls.box) - 8:
                cls.box[0:8] = len(d).to_bytes(8, "big")
                cls.box[8:8 + len(d)] = d

    @staticmethod
    def read(box):
        n = int.from_bytes(box[0:8], "big")
        return json.loads(box[8:8 + n].decode()) if n else None


class Endless(BaseException):
    pass


def run_concrete(h, model):
    """Run harness concretely on plain code. -> (failed list, obs, error)"""
    from .harness import ConCtx
    from .core import PathAbort
    from . import instrument
    ctx = ConCtx(model)
    if h.fresh:
        instrument.restore_state()
    Watch.note(h.name, model)
    Watch.limit = (time.time() + CONCRETE_LIMIT, Endless)
    try:
        try:
            h.fn(ctx)
        finally:
            Watch.limit = None
            Watch.note()
    except Endless:
        return [(ENDS, "not after %d s" % CONCRETE_LIMIT)], ctx.obs, "endless"
    except PathAbort:
        return [], {"__assume__": False}, None
    except Exception:
        return [("exception in harness", traceback.format_exc(limit=-6))], ctx.obs, "exc"
    finally:
        for c in ctx.cleanup:
            try:
                c()
            except Exception:
                pass
    return ctx.failed, ctx.obs, None


def norm(x):
    """JSON-able, comparable form of an observation."""
    if isinstance(x, dict):
        return sorted(([norm(k), norm(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(v) for v in x), key=repr)
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float)):
        return int(x) if x == int(x) else x
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, BaseException):
        return type(x).__name__
    return repr(type(x))


def run_path(hs, hp, prefix, deadline):
    """One symbolic path. Returns a result dict."""
    from . import core, instrument
    from .core import S, PathAbort, Unsupported, Deadline, conj, neg, to_z3, model
    from .harness import SymCtx
    from .values import evaluate
    import z3
    S.reset(prefix)
    S.deadline = deadline
    f0 = S.stats.forks
    ctx = SymCtx()
    res = {"status": "ok", "cex": [], "vc": 0, "folded": 0, "diverge": None}
    instrument.INTERCEPT.clear()
    if hs.fresh:
        instrument.restore_state()
    try:
        Watch.limit = (deadline + 1, Deadline)
        try:
            hs.fn(ctx)
        finally:
            Watch.limit = None
    except PathAbort:
        res["status"] = "assume"
    except Deadline:
        res["status"] = "timeout"
    except (Unsupported, RecursionError, MemoryError) as e:
        res["status"] = "unsupported"
        res["why"] = repr(e)[:300]
    except z3.Z3Exception as e:
        res["status"] = "unsupported"
        res["why"] = "z3 " + repr(e)[:300]
    except Exception:
        res["status"] = "error"
        res["why"] = traceback.format_exc(limit=-8)
    finally:
        for c in ctx.cleanup:
            try:
                c()
            except Exception:
                pass
    S.deadline = None
    res["pending"] = S.pending
    res["forks"] = len(S.trace)
    res["reached"] = ctx.reached
    if res["status"] == "timeout":
        # is it the engine that is slow, or does the code not come to an end?
        try:
            m = model()
            if m is not None:
                failed, _, _ = run_concrete(hp, m)
                if failed:
                    res["cex"].append((m, [l for l, _ in failed]))
        except Unsupported:
            pass
        return res
    # path condition
    pc = {n: m for n, m in S.doms.items() if m != S.vars[n].dom.full}
    res["pc"] = (pc, {n: (S.vars[n].dom.n) for n in S.vars},
                 _smt(S) if S.zcons else None,
                 {n: v[1:] for n, v in S.zvars.items()})
    if res["status"] == "assume":
        return res
    res["folded"] = ctx.folded
    try:
        m = model()
    except Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = repr(e)
        return res
    if m is None:
        res["status"] = "infeasible"
        return res
    res["model"] = m
    if res["status"] == "ok" and (ctx.conds or ctx.folded):
        try:
            res["vc"] = 1
            bad = model(z3.Not(z3.And(*[to_z3(c) for c, _, _ in ctx.conds])))
        except Unsupported as e:
            res["status"] = "unsupported"
            res["why"] = repr(e)
            bad = None
        if bad is not None:
            labels = []
            for c, l, d in ctx.conds:
                try:
                    if not evaluate(c, bad):
                        labels.append(l)
                except Exception:
                    labels.append(l)
            res["cex"].append((bad, labels))
    # validate against the plain code
    failed, obs, err = run_concrete(hp, m)
    res["validated"] = 1
    if failed:
        res["cex"].append((m, [l for l, _ in failed]))
    if res["status"] == "ok":
        try:
            sobs = {k: norm(evaluate(v, m)) for k, v in ctx.obs.items()}
            cobs = {k: norm(v) for k, v in obs.items()}
        except Exception as e:
            sobs, cobs = {"evaluation": repr(e)}, {}
        if sobs != cobs:
            ks = [k for k in set(sobs) | set(cobs) if sobs.get(k) != cobs.get(k)]
            res["diverge"] = {"keys": ks, "sym": {k: sobs.get(k) for k in ks},
                              "con": {k: cobs.get(k) for k in ks}, "model": m}
        else:
            res["sample"] = {"model": m, "obs": cobs}
    return res


def _smt(S):
    import z3
    s = z3.Solver()
    for c in S.zcons:
        s.add(c)
    return s.to_smt2()


def sweep_region(hp, pc, doms, limit, deadline):
    """Fallback for a path the engine could not encode: decide its region by running
    the plain code on every point (bounded)."""
    names = sorted(doms)
    sizes = []
    vals = []
    total = 1
    for n in names:
        m = pc.get(n)
        vs = [i for i in range(doms[n]) if m is None or m >> i & 1]
        vals.append(vs)
        total *= len(vs)
        if total > limit:
            return None, total, []
    import itertools
    cex = []
    k = 0
    for combo in itertools.product(*vals):
        k += 1
        mm = dict(zip(names, combo))
        failed, _, _ = run_concrete(hp, mm)
        if failed:
            cex.append((mm, [l for l, _ in failed]))
            break
        if time.time() > deadline:
            return None, k, cex
    return k, total, cex


_W = {}


def _worker_init(prop):
    pass


FUNCS = set()


def _monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "sx")
    except ValueError:
        return
    from . import instrument
    root = os.path.join(instrument.REPO, "refextract")

    def cb(code, off):
        if code.co_filename.startswith(root) and code.co_name != "<module>":
            FUNCS.add(os.path.relpath(code.co_filename, instrument.REPO) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, cb)
    mon.set_events(3, mon.events.PY_START)


def _task(args):
    hname, prefixes, slice_s, deadline, pathlimit = args
    from . import core
    L = _W["L"]
    hs = L.find(hname)
    hp = L.find(hname, plain=True)
    st = core.S.stats
    q0, s0 = st.queries, st.solver_s
    t0 = time.time()
    out = {"h": hname, "paths": 0, "forks": 0, "vc": 0, "folded": 0, "validated": 0,
           "status": {}, "pcs": [], "cex": [], "div": [], "why": [], "reached": set(),
           "samples": [], "swept": 0, "models": []}
    stack = list(prefixes)
    while stack and time.time() - t0 < slice_s and time.time() < deadline:
        pre = stack.pop()
        r = run_path(hs, hp, pre, min(deadline, time.time() + pathlimit))
        out["status"][r["status"]] = out["status"].get(r["status"], 0) + 1
        if r["status"] == "timeout":
            out["why"].append("path time limit")
            stack.extend(r["pending"])
            out["cex"].extend(r["cex"])
            continue
        stack.extend(r["pending"])
        out["paths"] += 1
        out["forks"] += r["forks"]
        out["vc"] += r["vc"]
        out["folded"] += r["folded"]
        out["reached"] |= r["reached"]
        out["validated"] += r.get("validated", 0)
        if r["status"] in ("unsupported", "error") or r["diverge"]:
            if r["status"] in ("unsupported", "error"):
                if len(out["why"]) < 3:
                    out["why"].append(r.get("why"))
            elif len(out["div"]) < 3:
                out["div"].append(r["diverge"])
            k, tot, cex = (None, 0, [])
            if r["pc"][2] is None:
                k, tot, cex = sweep_region(hp, r["pc"][0], r["pc"][1], 3000,
                                           min(deadline, time.time() + 20))
            out["cex"].extend(cex)
            if k is None:
                out["status"]["undecided"] = out["status"].get("undecided", 0) + 1
            else:
                out["swept"] += tot
                out["pcs"].append(r["pc"])
        else:
            out["pcs"].append(r["pc"])
        out["cex"].extend(r["cex"])
        if len(out["samples"]) < 2 and r.get("sample"):
            out["samples"].append(r["sample"])
        if DUMP and "model" in r:
            out["models"].append(r["model"])
    out["left"] = stack
    out["queries"] = st.queries - q0
    out["solver_s"] = st.solver_s - s0
    out["funcs"] = set(FUNCS)
    return out


WORKER_MEM = 4 << 30


def _child(conn, prop, box):
    """Worker process main loop (forked from the loaded master)."""
    import ctypes
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEM, WORKER_MEM))
    Watch.box = box
    threading.stack_size(512 * 1024 * 1024)

    def loop():
        _monitor()
        while True:
            try:
                t = conn.recv()
            except EOFError:
                return
            if t is None:
                return
            try:
                conn.send(("ok", _task(t)))
            except BaseException:
                conn.send(("err", traceback.format_exc()))
    th = threading.Thread(target=loop)
    th.start()
    while True:
        th.join(1)
        if not th.is_alive():
            break
        w = Watch.limit
        if w and time.time() > w[0]:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(w[1]))
    os._exit(0)


class Pool:
    def __init__(self, n, prop):
        self.ws = []
        ctx = mp.get_context("fork")
        for _ in range(n):
            a, b = ctx.Pipe()
            box = mmap.mmap(-1, 1 << 20)
            p = ctx.Process(target=_child, args=(b, prop, box), daemon=True)
            p.start()
            b.close()
            self.ws.append([p, a, box])

    def close(self):
        for p, c, _ in self.ws:
            try:
                c.send(None)
            except Exception:
                pass
        time.sleep(0.05)
        for p, c, _ in self.ws:
            if p.is_alive():
                p.kill()


def coverage_vc(pcs, timeout_ms):
    """Solver query: is there an input within the bounds outside every explored path?"""
    import z3
    from .core import Domain, mask_to_z3
    doms = {}
    anyz = any(p[2] for p in pcs)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    dd = {}

    def dom(n):
        if n not in dd:
            dd[n] = Domain.of(tuple(range(n)))
        return dd[n]
    decls = {}
    for pc, ds, zt, ints in pcs:
        for n, sz in ds.items():
            if n not in doms:
                doms[n] = sz
                s.add(mask_to_z3(n, dom(sz), dom(sz).full))
        for n, (lo, hi) in ints.items():
            if n not in doms:
                doms[n] = None
                if lo is not None:
                    s.add(z3.Int(n) >= lo)
                if hi is not None:
                    s.add(z3.Int(n) <= hi)
    for pc, ds, zt, ints in pcs:
        lits = []
        for n, m in pc.items():
            d = dom(ds[n])
            lits.append(mask_to_z3(n, d, d.full & ~m))
        if zt:
            e = z3.And(*z3.parse_smt2_string(zt))
            lits.append(z3.Not(e))
        s.add(z3.Or(*lits) if lits else z3.BoolVal(False))
    t = time.time()
    r = s.check()
    w = None
    if r == z3.sat:
        mod = s.model()
        w = {str(d): str(mod[d]) for d in mod.decls()}
    return str(r), time.time() - t, w


def explore(prop, tier, budget, nproc, only=None):
    t0 = time.time()
    deadline = t0 + budget
    L = Loaded(prop)
    _W["L"] = L
    hs = [h for h in L.sx.HARNESSES if (tier == "thorough" or h.tier == "quick")
          and (only is None or h.name in only)]
    R = {}
    queue = []
    skipped = {}
    for h in hs:
        miss = available(h)
        if miss:
            skipped[h.name] = miss
            continue
        R[h.name] = {"paths": 0, "forks": 0, "vc": 0, "folded": 0, "validated": 0, "swept": 0,
                     "status": {}, "pcs": [], "cex": [], "div": [], "why": [],
                     "reached": set(), "samples": [], "queries": 0, "solver_s": 0.0,
                     "busy": 0, "queue": [[]], "t_first": None, "t_done": None,
                     "share": h.share}
    funcs = set()
    load_s = time.time() - t0
    pool = Pool(nproc, prop)
    conns = {c: (p, box) for p, c, box in pool.ws}
    since = {}
    idle = [c for _, c, _ in pool.ws]
    busy = {}
    errors = []
    from multiprocessing.connection import wait
    stop_cex = 6
    pathlimit = 60 if tier == "quick" else 180
    while True:
        now = time.time()
        # assign
        while idle and now < deadline:
            cand = [(r["busy"] / r["share"], i, n) for i, (n, r) in enumerate(R.items())
                    if r["queue"] and len(r["cex"]) < stop_cex]
            if not cand:
                break
            _, _, n = min(cand)
            r = R[n]
            q = r["queue"]
            # take a share of the frontier
            nbusy = len(busy) + 1
            take = max(1, min(len(q) // max(1, len(idle)), 40))
            if len(q) < 2 * nproc:
                take = 1
            pre, r["queue"] = q[-take:], q[:-take]
            c = idle.pop()
            sl = 0.4 if len(q) < 3 * nproc else 3.0
            c.send((n, pre, sl, deadline, pathlimit))
            busy[c] = n
            since[c] = time.time()
            r["busy"] += 1
        if not busy:
            break
        for c in wait(list(busy), timeout=5):
            n = busy.pop(c)
            r = R[n]
            r["busy"] -= 1
            try:
                kind, o = c.recv()
            except EOFError:
                errors.append("worker died on " + n)
                r["status"]["undecided"] = r["status"].get("undecided", 0) + 1
                continue
            idle.append(c)
            if kind == "err":
                errors.append(o)
                r["status"]["undecided"] = r["status"].get("undecided", 0) + 1
                continue
            for k in ("paths", "forks", "vc", "folded", "validated", "queries", "solver_s", "swept"):
                r[k] += o[k]
            for k, v in o["status"].items():
                r["status"][k] = r["status"].get(k, 0) + v
            r["pcs"].extend(o["pcs"])
            r["cex"].extend(o["cex"])
            r["div"].extend(o["div"])
            r["why"].extend(o["why"])
            r["reached"] |= o["reached"]
            if len(r["samples"]) < 3:
                r["samples"].extend(o["samples"][:1])
            if DUMP:
                r.setdefault("models", []).extend(o["models"])
            r["queue"].extend(o["left"])
            funcs |= o["funcs"]
            if not r["queue"] and not r["busy"]:
                r["t_done"] = round(time.time() - t0, 1)
        # a worker that does not react: its concrete run hangs where it cannot be interrupted
        for c in list(busy):
            if time.time() > since[c] + pathlimit + 3 * CONCRETE_LIMIT or time.time() > deadline + 30:
                p, box = conns[c]
                p.kill()
                p.join(5)
                n = busy.pop(c)
                r = R[n]
                r["busy"] -= 1
                r["status"]["undecided"] = r["status"].get("undecided", 0) + 1
                m = Watch.read(box)
                if m:
                    r["cex"].append((m[1], [ENDS]))
        if time.time() > deadline + 30:
            break
    pool.close()
    for n, r in R.items():
        r["complete"] = (not r["queue"] and not r["busy"]
                         and not r["status"].get("timeout") and not r["status"].get("undecided"))
        r["coverage"] = None
        if r["complete"] and not r["cex"] and len(r["pcs"]) <= 6000:
            try:
                v, w, wit = coverage_vc(r["pcs"], 60000)
                r["coverage"] = v
                r["coverage_s"] = round(w, 2)
                if v == "sat":
                    r["complete"] = False
                    r["coverage_witness"] = wit
            except Exception as e:
                r["coverage"] = "error " + repr(e)[:200]
    return L, R, funcs, skipped, errors, load_s


def write_replay(prop, hname, model, labels):
    d = os.path.join(os.environ.get("VERIF_OUT", os.path.join(VERIF, "evidence")), "replay")
    os.makedirs(d, exist_ok=True)
    import hashlib
    key = hashlib.sha1(json.dumps([hname, sorted(model.items())]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (prop, hname, key))
    with open(p, "w") as fh:
        json.dump({"property": prop, "harness": hname, "model": model, "labels": labels}, fh, indent=1)
    return p


def replay_subprocess(path, timeout=180):
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "replay.py"), path],
                       capture_output=True, text=True, timeout=timeout, cwd=VERIF)
    return r.returncode, r.stdout + r.stderr


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as fh:
            return json.load(fh)
    return {"findings": [], "fixed": []}


def main(prop, tier, budget=None, nproc=None, only=None, verbose=True):
    t0 = time.time()
    if budget is None:
        budget = float(os.environ.get("VERIF_BUDGET", "0")) or (300 if tier == "quick" else 1500)
    nproc = nproc or int(os.environ.get("VERIF_NPROC", "0")) or os.cpu_count() or 4
    L, R, funcs, skipped, errors, load_s = explore(prop, tier, budget, nproc, only)
    if DUMP:
        with open(os.path.join(DUMP, prop + ".json"), "w") as fh:
            json.dump({"funcs": sorted(funcs), "models": {n: r.get("models", []) for n, r in R.items()}}, fh)
    kf = known_findings()
    violations = []
    nonrepro = []
    known_hit = {}
    rt0 = time.time()
    for n, r in R.items():
        seen = set()
        for model, labels in r["cex"]:
            if violations and time.time() > rt0 + 100:
                break
            key = tuple(sorted(labels))
            if key in seen and len(seen) >= 3:
                continue
            if len([1 for s in seen if s == key]) >= 1:
                continue
            p = write_replay(prop, n, model, labels)
            rc, out = replay_subprocess(p)
            if rc == 1:
                seen.add(key)
                kn = None
                for f in kf["findings"]:
                    if f["property"] == prop and f.get("harness") == n and \
                            set(labels) <= set(f.get("labels", [])):
                        kn = f
                if kn:
                    known_hit[kn["what"]] = kn
                else:
                    violations.append((p, n, labels, out))
            else:
                nonrepro.append((n, model, labels, out[-2000:]))
    for f in kf["findings"]:
        if f["property"] == prop and f["what"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in R.values())
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [{"harness": n, **s} for n, r in R.items() for s in r["samples"][:1]],
            "exhaustive": all(r["complete"] for r in R.values()) and not skipped,
            "method": "states = explored path conditions of the real code executed symbolically; "
                      "transitions = recorded symbolic decisions; each path's assertion is one "
                      "z3 query (PC and not property), and one z3 coverage query per harness "
                      "shows the explored path conditions cover every input within the bounds",
            "functions_encoded": sorted(funcs),
            "harnesses": {
                n: {"bounds": L.sx.BOUNDS.get(n) if hasattr(L.sx, "BOUNDS") else L.find(n).bounds,
                    "paths": r["paths"], "assertion_queries": r["vc"],
                    "assertions_folded_true": r["folded"],
                    "solver_queries": r["queries"], "solver_s": round(r["solver_s"], 2),
                    "status": r["status"], "complete_within_bounds": r["complete"],
                    "coverage_query": r["coverage"],
                    "points_decided_by_concretisation": r["swept"],
                    "unreached_witnesses": sorted(set(L.find(n).reach) - r["reached"]),
                    "divergences": len(r["div"])}
                for n, r in R.items()},
            "harnesses_skipped_entry_point_missing": skipped,
            "solver": "z3", "queries": tot("queries") + sum(1 for r in R.values() if r["coverage"]),
            "solver_s": round(tot("solver_s") + sum(r.get("coverage_s", 0) or 0 for r in R.values()), 2),
        },
        "assumptions": getattr(L.sx, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True, default=str)
    if verbose:
        for n, r in R.items():
            print("%s %-28s paths=%d vc=%d forks=%d status=%s complete=%s cover=%s q=%d/%.1fs done=%s%s" % (
                prop, n, r["paths"], r["vc"], r["forks"], r["status"], r["complete"], r["coverage"],
                r["queries"], r["solver_s"], r["t_done"],
                " UNREACHED %s" % sorted(set(L.find(n).reach) - r["reached"])
                if set(L.find(n).reach) - r["reached"] else ""))
            for dv in r["div"][:2]:
                print("   divergence:", json.dumps(dv, default=str)[:1500])
            for w in r["why"][:2]:
                print("   why:", w)
            if r.get("coverage_witness"):
                print("   coverage witness:", r["coverage_witness"])
        for n, m in skipped.items():
            print("skipped %s: missing %s" % (n, m))
        for e in errors[:3]:
            print("worker error:", e)
        print("%s wall %.1fs load %.1fs" % (prop, wall, load_s))
    for n, model, labels, out in nonrepro[:5]:
        print("NOT-REPRODUCED %s %s %s\n%s" % (n, labels, model, out))
    if violations:
        for p, n, labels, out in violations:
            print(out.rstrip())
        p, n, labels, out = violations[0]
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if nonrepro:
        print("inconclusive: %d counterexample(s) did not reproduce on the plain code" % len(nonrepro))
    return 0
