"""Runs a check: seeded cases over forked workers, monitors' verdicts, evidence, replay files, known findings.

A property module (props/<id>.py) defines
  ID, TITLE, LEVEL_NOTE, RULE, CASES = {"quick": n, "thorough": n}
  run_case(rng, rec, tier)      runs one case; raises Violation on a broken property
  FLOORS = {"counter": minimum per 1000 cases}   (monitors must have seen at least this much, else inconclusive)
optional: FIXED(tier) -> list of explicit cases, each passed as rng-less run_fixed(case, rec)
"""
import hashlib, json, os, random, signal, sys, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    pass


class Rec:
    """What the monitors observed (merged over workers)."""
    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.trace = []
        self.states = set()
        self.nontrivial = False

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def ev(self, *a):
        """Trace entry of the current case (kept for replay and samples)."""
        if len(self.trace) < 3000:
            self.trace.append(a)

    def sig(self, x):
        """Marks the current case as non-trivial, with this signature."""
        self.sigs.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def state(self, x):
        self.states.add(hash(x) if isinstance(x, (str, int, tuple)) else hash(repr(x)))


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def eq(got, want, what, key=None):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want), key)


def classify(exc, tb):
    """Exceptions raised by (or through) the code under test are violations; those of the harness are errors."""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(REPO + os.sep) or fr.filename.startswith("<case"):
            return "repo", "%s:%d in %s" % (fn, fr.lineno, fr.name)
        if fn.startswith(os.path.join(HERE, "vlib", "stubs")) or fn.endswith(os.path.join("vlib", "hw.py")):
            continue
        if fn.startswith(HERE):
            return "harness", "%s:%d" % (fn, fr.lineno)
    return "harness", "?"


def _alarm(sig, frame):
    raise Hang()


def run_one(mod, seed, idx, tier, rec, fixed=None):
    """Runs one case. Returns None or a dict describing the violation. Raises on harness errors."""
    rec.trace = []
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", 40))
    try:
        if fixed is not None:
            mod.run_fixed(fixed, rec, tier)
        else:
            mod.run_case(random.Random("%s:%d:%d" % (mod.ID, seed, idx)), rec, tier)
        return None
    except Violation as v:
        return {"message": str(v), "key": v.key}
    except Hang:
        tb = sys.exc_info()[2]
        kind, where = classify(None, tb)
        if kind == "repo":
            return {"message": "code does not terminate (at %s)" % where, "key": None}
        rec.n("cases cut off (machine too slow)")
        return None
    except (Inconclusive, KeyboardInterrupt):
        raise
    except BaseException as e:
        kind, where = classify(e, sys.exc_info()[2])
        if kind == "repo":
            return {"message": "%s: %s raised at %s" % (type(e).__name__, e, where), "key": None,
                    "traceback": traceback.format_exc()[-3000:]}
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in d.get("known", []) if e["property"] == pid}


def worker(mod, seed, tier, ids, fixed, q, stop, deadline):
    rec = Rec()
    known = load_known(mod.ID)
    done, viol, err, seen_known = 0, None, None, {}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    nsamp = 0
    try:
        if hasattr(mod, "setup"):
            mod.setup(tier)
        for idx in ids:
            if stop.is_set() or time.time() > deadline:
                break
            s0 = len(rec.sigs)
            v = run_one(mod, seed, idx, tier, rec, fixed[idx] if idx < len(fixed) else None)
            done += 1
            if v and v["key"] and v["key"] in known:
                seen_known[v["key"]] = v["message"]
                continue
            if v:
                v["idx"] = idx
                v["trace"] = [repr(t) for t in rec.trace[-400:]]
                viol = v
                stop.set()
                break
            if nsamp < 1 and len(rec.sigs) > s0 and rec.trace:
                rec.samples.append({"case": idx, "trace": [repr(t)[:160] for t in rec.trace[:25]]})
                nsamp += 1
    except BaseException as e:
        err = "case %s: %s\n%s" % (locals().get("idx"), e, traceback.format_exc()[-3500:])
        stop.set()
    finally:
        if hasattr(mod, "teardown"):
            try:
                mod.teardown()
            except Exception as e:
                err = err or ("teardown: %s" % e)
    q.put({"done": done, "viol": viol, "err": err, "counts": rec.counts, "sigs": rec.sigs, "samples": rec.samples,
           "states": rec.states, "known": seen_known})


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    seed, tier = a.seed, a.tier
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        seed, tier = r["seed"], r["tier"]
        rec = Rec()
        if hasattr(mod, "setup"):
            mod.setup(tier)
        fixed = list(mod.FIXED(tier)) if hasattr(mod, "FIXED") else []
        v = run_one(mod, seed, r["idx"], tier, rec, fixed[r["idx"]] if r["idx"] < len(fixed) else None)
        if hasattr(mod, "teardown"):
            mod.teardown()
        for t in rec.trace:
            print("  ", repr(t)[:400])
        if v:
            print("REPRODUCED: " + v["message"])
            if v.get("traceback"):
                print(v["traceback"])
            print("VIOLATION property=%s replay=%s" % (mod.ID, a.replay))
            return 1
        print("not reproduced on this tree")
        return 0

    t0 = time.time()
    fixed = list(mod.FIXED(tier)) if hasattr(mod, "FIXED") else []
    n = a.cases if a.cases is not None else mod.CASES[tier]
    total = len(fixed) + n
    jobs = max(1, min(a.jobs, getattr(mod, "MAX_JOBS", 64), total))
    deadline = t0 + (getattr(mod, "WALL", {"quick": 300, "thorough": 800})[tier])
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    if getattr(mod, "PRECOMPILE", True):
        from . import env
        env.precompile()
    ps = []
    for j in range(jobs):
        p = ctx.Process(target=worker, args=(mod, seed, tier, range(j, total, jobs), fixed, q, stop, deadline))
        p.start()
        ps.append(p)
    res, dead = [], 0
    import queue as _q
    while len(res) + dead < jobs:
        try:
            res.append(q.get(timeout=1))
        except _q.Empty:
            dead = sum(1 for p in ps if not p.is_alive() and p.exitcode != 0)
            if all(not p.is_alive() for p in ps) and q.empty():
                time.sleep(0.2)
                if q.empty():
                    break
    for p in ps:
        p.join(10)
    errs = [r["err"] for r in res if r["err"]]
    if len(res) < jobs:
        errs.append("%d worker process(es) died" % (jobs - len(res)))
    counts, sigs, samples, states, known = {}, set(), [], set(), {}
    done = 0
    for r in res:
        done += r["done"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= r["sigs"]
        states |= r["states"]
        samples += r["samples"]
        known.update(r["known"])
    viols = sorted((r["viol"] for r in res if r["viol"]), key=lambda v: v["idx"])
    wall = round(time.time() - t0, 2)
    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, load_known(mod.ID)[k]))
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                       "samples": samples[:3] or [{"note": "no non-trivial case completed"}],
                       "observed": dict(sorted(counts.items())), "distinct_states_observed": len(states)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(viols)}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d.tmp" % (mod.ID, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", mod.ID + ".json"))
    if viols:
        v = viols[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d-%d.json" % (mod.ID, tier, seed, v["idx"]))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, "idx": v["idx"], "message": v["message"],
                       "traceback": v.get("traceback"), "trace": v["trace"]}, f, indent=1)
        print("%s violated: %s" % (mod.ID, v["message"]))
        if v.get("traceback"):
            print(v["traceback"][-1200:])
        print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.relpath(path, HERE)))
        return 1
    if errs:
        print("ERROR in the check (no verdict):")
        for e in errs:
            print(e)
        return 3
    if a.cases is None:
        if done < total * 0.3:
            print("inconclusive: only %d of %d cases completed within the time limit" % (done, total))
            return 3
        for k, per1000 in getattr(mod, "FLOORS", {}).items():
            if counts.get(k, 0) < per1000 * done / 1000.0:
                print("inconclusive: monitor saw only %d x %s in %d cases" % (counts.get(k, 0), k, done))
                return 3
    print("%s held on %d cases (%d distinct non-trivial), %.1f s, observed: %s" % (
        mod.ID, done, len(sigs), wall, json.dumps(dict(sorted(counts.items())))))
    return 0
