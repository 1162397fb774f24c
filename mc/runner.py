"""Runs one check: enumerates its bounded space over worker processes, writes evidence,
replay files and the verdict line.

A check module defines
  ID, LEVEL, RULE, ASSUMPTIONS
  families(tier) -> [(family name, params dict)]     bounded spaces, each enumerated completely
  cases(family, params) -> iterator of case          (deterministic)
  run_case(case, ctx)                                executes one case; ctx.violation(...) on failure
Optional: case_source(case), SHARDS.
"""
import atexit
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TEALISH_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


# development aids (bug hunting on scratch copies): stop at the first violation, visit a fraction of the cases
FAST = bool(os.environ.get("VERIF_FAST"))
STRIDE = int(os.environ.get("VERIF_STRIDE", "1") or 1)
CASE_CPU_LIMIT = 200         # seconds of CPU one case may take: far beyond any case, reached only if the code never returns


class CaseHang(BaseException):
    pass


def _case_alarm(signum, frame):
    raise CaseHang()


class Ctx:
    """per-worker accumulator"""

    def __init__(self):
        self.n = 0               # cases executed
        self.states = 0
        self.transitions = 0
        self.traces = 0          # reference behaviours replayed on the implementation
        self.extra = {}
        self.hashes = set()
        self.samples = []
        self.violations = []
        self.rejected = 0

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k

    def distinct(self, text):
        self.hashes.add(hashlib.blake2b(text.encode("utf8", "surrogatepass"), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violation(self, key, what, **detail):
        """key identifies the specific failing input/history (for the known-findings file)"""
        self.violations.append({"key": key, "what": what, "detail": detail})


def _setup_imports():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(5000)


def _worker(arg):
    modname, tier, famidx, shard, nshards, deadline = arg
    mod = importlib.import_module(modname)
    fam, params = mod.families(tier)[famidx]
    ctx = Ctx()
    ctx.family = fam
    ctx.tier = tier
    capped = False
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    signal.signal(signal.SIGVTALRM, _case_alarm)
    try:
        for k, case in enumerate(mod.cases(fam, params)):
            if k % nshards != shard:
                continue
            if STRIDE > 1 and k >= 60 and (k * 2654435761 >> 9) % STRIDE:
                capped = True
                continue
            ctx.n += 1
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
                try:
                    mod.run_case(case, ctx)
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except CaseHang:
                ctx.violation("hang:" + fam, f"the code under test did not return within {CASE_CPU_LIMIT} s of CPU time",
                              case=repr(case)[:2000])
                break
            except Exception:
                ctx.violation("harness-exception:" + fam, "the check itself could not run this case",
                              case=repr(case)[:2000], trace=traceback.format_exc()[-3000:], harness=True)
            if len(ctx.violations) > 400 or (FAST and ctx.violations):
                break
            if time.time() > deadline:
                capped = True
                break
    except Exception:
        ctx.violation("harness-exception:" + fam, "enumeration failed", trace=traceback.format_exc()[-3000:], harness=True)
    return {"fam": fam, "n": ctx.n, "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
            "extra": ctx.extra, "hashes": ctx.hashes, "samples": ctx.samples, "violations": ctx.violations,
            "capped": capped, "rejected": ctx.rejected}


def _init_worker():
    atexit._clear()              # the scratch folder belongs to the parent


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("{"):
                continue            # comments and "fixed:" entries suppress nothing
            d = json.loads(line)
            if d.get("property") == prop and d.get("status", "finding") == "finding":
                for k in d["keys"]:
                    known[k] = d
    return known


def main(argv):
    if len(argv) < 2:
        print("usage: run.py <ID> [quick|thorough] | run.py replay <file>")
        return 2
    if argv[1] == "replay":
        return replay(argv[2])
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    _setup_imports()
    modname = f"mc.checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    limit = float(os.environ.get("VERIF_LIMIT", "500" if tier == "quick" else "36000"))
    deadline = t0 + limit
    nproc = int(os.environ.get("VERIF_PROCS", str(os.cpu_count() or 1)))
    shards = getattr(mod, "SHARDS", nproc * 4) if STRIDE == 1 else nproc
    tasks = []
    fams = mod.families(tier)
    only = os.environ.get("VERIF_FAMILY")
    for fi, (fam, params) in enumerate(fams):
        if only and fam != only:
            continue
        k = params.get("shards", shards) if STRIDE == 1 else shards
        for s in range(k):
            tasks.append((modname, tier, fi, s, k, deadline))
    ctxm = mp.get_context("fork")
    results = []
    scratch = tempfile.mkdtemp(prefix="tlcheck")
    os.environ["VERIF_SCRATCH"] = scratch
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    with ctxm.Pool(nproc, initializer=_init_worker, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None)) as pool:
        for r in pool.imap_unordered(_worker, tasks):
            results.append(r)
            if FAST and r["violations"]:
                pool.terminate()
                break
    return report(mod, prop, tier, results, time.time() - t0, len(fams))


def report(mod, prop, tier, results, wall, nfam):
    known = load_known(prop)
    n = sum(r["n"] for r in results)
    states = sum(r["states"] for r in results)
    trans = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    hashes = set()
    extra = {}
    fam = {}
    viol = []
    samples = {}
    for r in sorted(results, key=lambda r: r["fam"]):
        hashes |= r["hashes"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        fam[r["fam"]] = fam.get(r["fam"], 0) + r["n"]
        viol.extend(r["violations"])
        if r["samples"]:
            samples.setdefault(r["fam"], r["samples"][0])
    capped = any(r["capped"] for r in results)
    seen_known = {}
    fresh = {}
    for v in viol:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            fresh.setdefault(v["key"], v)
    cov = {"evaluations": n, "states": states, "transitions": trans,
           "traces_validated_against_impl": traces, "distinct_nontrivial": len(hashes) or n,
           "rule": getattr(mod, "RULE", ""), "exhaustive": not capped and not fresh,
           "families": fam, "samples": list(samples.values())[:6] or [{"family": f} for f in fam]}
    cov.update({k: v for k, v in extra.items()})
    level = mod.LEVEL
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{prop} {tier}: {n} cases in {nfam} families, {states} states, {trans} transitions, "
          f"{traces} traces, {wall:.1f}s" + (" (stopped at the time limit: NOT exhaustive)" if capped else ""))
    printed = set()
    for k in sorted(seen_known):
        d = known[k]
        if id(d) in printed:
            continue
        printed.add(id(d))
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    if not fresh:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    shown = 0
    for k in sorted(fresh, key=lambda k: (len(str(fresh[k]["detail"].get("source", ""))), k)):
        v = fresh[k]
        h = hashlib.blake2b(k.encode("utf8", "surrogatepass"), digest_size=6).hexdigest()
        path = os.path.join(rdir, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, **v}, f, indent=1, default=repr)
        if shown < 5:
            print(f"--- {v['what']}\n    key: {k[:300]}")
            for dk, dv in v["detail"].items():
                s = dv if isinstance(dv, str) else repr(dv)
                print(f"    {dk}: " + s[:1500].replace("\n", "\n        "))
            print(f"VIOLATION property={prop} replay={path}")
        shown += 1
    print(f"{len(fresh)} violations")
    return 1


def replay(path):
    """re-runs every case of the check whose violation key equals the recorded one"""
    d = json.load(open(path))
    _setup_imports()
    mod = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    print(json.dumps(d, indent=1)[:6000])
    fams = mod.families(d.get("tier", "quick"))
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    for fam, params in fams:
        ctx = Ctx()
        ctx.family = fam
        ctx.tier = d.get("tier", "quick")
        for case in mod.cases(fam, params):
            try:
                mod.run_case(case, ctx)
            except Exception:
                pass
            for v in ctx.violations:
                if v["key"] == d["key"]:
                    print(f"reproduced in family {fam}")
                    print(f"VIOLATION property={d['property']} replay={path}")
                    return 1
            ctx.violations.clear()
    print("not reproduced")
    return 0
