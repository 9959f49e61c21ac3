#!/usr/bin/env python3-vt
"""Decides one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

1. Every contract and lemma of the property is verified against the current source of /repo (pyvc).
2. The same contracts are evaluated at run time on enumerated and seeded random inputs against the real code
   (bounded, labelled so): it covers what is outside the verifier's reach and supplies failing inputs.
"""
from __future__ import annotations
import os, sys

if os.environ.get("PYTHONHASHSEED") != "0":  # runs are reproducible from VERIF_SEED alone
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyvc.boot as boot  # noqa: E402

import argparse, base64, hashlib, importlib, json, multiprocessing as mp, pickle, queue, random, signal, time, traceback

VERIF = boot.VERIF
CTX = mp.get_context("fork")


# ------------------------------------------------------------------ deductive part
def _verify_worker(idx, kind, excluded_names, bounded, budget, q):
    from pyvc.contract import REGISTRY, verify

    c = REGISTRY[idx]
    table = {}
    excl = set()
    for x in REGISTRY:
        if not x.is_lemma:
            f = x.find()
            if f is not None:
                if x.use or f not in table:
                    table[f] = x
                if x.name in excluded_names:
                    excl.add(f)
    try:
        r = verify(c, table, excluded=excl, bounded=bounded, budget=budget, keep_going=False)
        wit = None
        if r.status == "failed" and r.witness is not None:
            try:
                from pyvc.concretize import concretize

                wit = concretize(r)
            except Exception as e:  # noqa: BLE001
                wit = ("error", f"{type(e).__name__}: {e}")
        q.put((idx, kind, dict(status=r.status, reason=r.reason, obligations=r.obligations, paths=r.paths, time=r.time,
                               solver_s=r.solver_s, queries=r.queries, cvc5=r.cvc5, models=r.models, inlined=r.inlined,
                               used=r.used_contracts, mode=r.mode, witness=wit)))
    except BaseException as e:  # noqa: BLE001
        q.put((idx, kind, dict(status="unsupported", reason=f"engine: {type(e).__name__}: {e}", obligations=[], paths=0, time=0,
                               solver_s=0, queries=0, cvc5=0, models=[], inlined=[], used=[], mode="?", witness=None)))


class Pool:
    """forked workers with a wall-clock limit each"""

    def __init__(self, width):
        self.width = width

    def run(self, jobs, limit):
        """jobs: [(fn, args)]; every fn puts exactly one result tuple in the queue it gets last"""
        out = []
        pending = list(jobs)
        running = []
        q = CTX.Queue()
        while pending or running:
            while pending and len(running) < self.width:
                fn, args, tag = pending.pop(0)
                p = CTX.Process(target=fn, args=(*args, q))
                p.start()
                running.append((p, time.time(), tag))
            try:
                out.append(q.get(timeout=0.05))
            except queue.Empty:
                pass
            now = time.time()
            nr = []
            for p, t0, tag in running:
                if not p.is_alive():
                    p.join()
                    continue
                if now - t0 > limit:
                    p.kill()
                    p.join()
                    continue
                nr.append((p, t0, tag))
            running = nr
        t_end = time.time() + 1.0
        while time.time() < t_end:
            try:
                out.append(q.get(timeout=0.1))
            except queue.Empty:
                break
        return out


LOST = dict(status="unsupported", reason="verification did not finish within its time limit", obligations=[], paths=0, time=0.0, solver_s=0.0,
            queries=0, cvc5=0, models=[], inlined=[], used=[], mode="unbounded", witness=None)


def deductive(prop, tier, width):
    from pyvc.contract import REGISTRY

    idxs = [i for i, c in enumerate(REGISTRY) if c.prop == prop or (isinstance(c.prop, (tuple, list)) and prop in c.prop)]
    if not idxs:
        return {}
    scale = 4 if tier == "thorough" else 1
    pool = Pool(width)

    def go(sel, kind, excluded=frozenset(), bounded=None):
        if not sel:
            return {}
        jobs = [(_verify_worker, (i, kind, excluded, bounded and REGISTRY[i].bound + bounded - 1, REGISTRY[i].budget * scale), i) for i in sel]
        limit = max([REGISTRY[i].budget for i in sel]) * scale + 30
        res = {i: dict(LOST) for i in sel}
        for i, k, r in pool.run(jobs, limit):
            res[i] = r
        return res

    res = go([i for i in idxs if not REGISTRY[i].small], "u")
    for i in idxs:
        if REGISTRY[i].small:
            res[i] = dict(LOST, reason=REGISTRY[i].small)
    for r in res.values():
        r["phase"] = "contract"
    bad_private = {REGISTRY[i].name for i in idxs if not REGISTRY[i].public and res[i]["status"] != "proved"}
    if bad_private:
        again = go([i for i in idxs if REGISTRY[i].public], "i", frozenset(bad_private))
        for i, r in again.items():
            r["phase"] = "inlined " + ", ".join(sorted(bad_private))
            if res[i]["status"] != "proved" or r["status"] != "proved":
                pass
            res[i] = r
    # outside the verifier's reach: bounded symbolic stand-in
    weak = [i for i in idxs if REGISTRY[i].public and res[i]["status"] in ("unsupported", "missing", "vacuous")]
    if weak:
        sel = [i for i in weak if res[i]["status"] != "missing"]
        b = go(sel, "b", frozenset(bad_private), 1) if sel else {}
        for i, r in b.items():
            r["bound"] = REGISTRY[i].bound
        more = go(sel, "b", frozenset(bad_private), 2) if tier == "thorough" and sel else {}
        for i, r in more.items():
            if r["status"] in ("proved", "failed") and b[i]["status"] != "failed":
                b[i] = dict(r, bound=REGISTRY[i].bound + 1)
        for i, r in b.items():
            r["phase"] = f"bounded symbolic, sequences of at most {r['bound']} elements"
            r["unbounded"] = res[i]["reason"]
            r["mode"] = "bounded"
            res[i] = r
    return {REGISTRY[i].name: dict(r, public=REGISTRY[i].public, lemma=REGISTRY[i].is_lemma) for i, r in res.items()}


def small_counterexamples(names):
    """counterexamples with small sequences, which hold up on the real code"""
    from pyvc.contract import REGISTRY

    idxs = [i for i, c in enumerate(REGISTRY) if c.name in names]
    jobs = [(_verify_worker, (i, "b", frozenset(), REGISTRY[i].bound, REGISTRY[i].budget), i) for i in idxs]
    for i, k, r in Pool(8).run(jobs, max(REGISTRY[i].budget for i in idxs) + 30):
        w = r.get("witness")
        if r["status"] == "failed" and w and w[0] == "ok":
            msg = replay_contract(REGISTRY[i].name, w[1])
            if msg is not None:
                yield REGISTRY[i].name, msg, w[1]


def replay_contract(name, values):
    """the contract, evaluated on the real code at these values: what fails, or None"""
    from pyvc.concretize import replay
    from pyvc.contract import REGISTRY

    c = next(c for c in REGISTRY if c.name == name)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        return replay(c, values)
    except (Exception, CaseTimeout):  # not decided
        return None
    finally:
        signal.alarm(0)


def repr_of(x):
    """repr, with the attributes of objects of the specifications' own classes"""
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k!r}: {repr_of(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(repr_of(v) for v in x) + "]"
    return f"{type(x).__name__}({repr_of(vars(x))})" if type(x).__module__.startswith("contracts.") else repr(x)[:3000]


# ------------------------------------------------------------------ run-time part
class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, case, limit=20):
    """-> None or a message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except CaseTimeout:
        return f"did not finish within {limit} s"
    finally:
        signal.alarm(0)


def _bounded_worker(modname, seed, shard, shards, tier, budget, q):
    import logging

    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(modname)
    from bounded.common import Swarm

    n = nontriv = 0
    seen = set()
    samples = []
    kinds = {}
    t0 = time.time()
    found = []
    err = None
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    try:
        rng = Swarm(seed * 1000 + shard)
        for case in mod.cases(rng, tier, shard, shards):
            n += 1
            kind = case[0]
            kinds[kind] = kinds.get(kind, 0) + 1
            r = repr(case)
            h = hash(r)
            if h not in seen:
                seen.add(h)
                if getattr(mod, "nontrivial", lambda c: True)(case):
                    nontriv += 1
                if len(samples) < 3 and n % 50 == 1:
                    samples.append(r[:600])
            msg = run_case(mod, case)
            if msg is not None:
                found.append((case, str(msg)[:2000]))
                if len(found) >= 12:
                    break
            if time.time() - t0 > budget:
                break
            rng.new_case()
    except BaseException as e:  # noqa: BLE001
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    fp = []
    for case, msg in found:
        try:
            fp.append((base64.b64encode(pickle.dumps(case)).decode(), repr(case)[:4000], msg))
        except Exception:  # noqa: BLE001
            fp.append((None, repr(case)[:4000], msg))
    q.put((shard, "bounded", dict(n=n, nontriv=nontriv, samples=samples, kinds=kinds, found=fp, err=err, time=time.time() - t0)))


def bounded(modname, seed, tier, width, budget):
    pool = Pool(width)
    jobs = [(_bounded_worker, (modname, seed, s, width, tier, budget), s) for s in range(width)]
    return [r for _, _, r in pool.run(jobs, budget * 2 + 60)]


# ------------------------------------------------------------------ verdict
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-deductive", action="store_true")
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.prop
    try:
        modname = f"bounded.{prop.lower()}"
        mod = importlib.import_module(modname)
    except Exception:
        # the code under test cannot even be imported: no input is needed to show that
        traceback.print_exc()
        rp = write_replay(prop, dict(kind="import", message=traceback.format_exc()))
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("case"):
            case = pickle.loads(base64.b64decode(d["case"]))
            if d.get("contract"):
                for m in getattr(mod, "CONTRACTS", []):
                    importlib.import_module("contracts." + m)
                msg = replay_contract(d["contract"], case)
            else:
                msg = run_case(mod, case)
            print("case:", repr(case)[:3000])
            print("result:", msg or "holds")
            sys.exit(1 if msg else 0)
        print(d.get("message"))
        sys.exit(1)
    contract_err = None
    try:
        for m in getattr(mod, "CONTRACTS", []):
            importlib.import_module("contracts." + m)
    except Exception:
        contract_err = traceback.format_exc()
    thorough = a.tier == "thorough"
    budget = getattr(mod, "BUDGET", 20) * (10 if thorough else 1)
    ded = {}
    if not a.no_deductive and contract_err is None:
        ded = deductive(prop, a.tier, 8)
    bres = [] if a.no_bounded else bounded(modname, seed, a.tier, 8, budget)

    violations = []  # (replay dict, suffix)
    known_seen = {}
    kf = known_findings(prop)
    errs = [r["err"] for r in bres if r["err"]]
    for r in bres:
        for case64, rep, msg in r["found"]:
            k = None
            if case64 and kf:
                case = pickle.loads(base64.b64decode(case64))
                k = next((d for d in kf if mod.known(d["id"], case)), None)
            if k is not None:
                known_seen[k["id"]] = k
                continue
            violations.append((dict(kind="input", case=case64, input=rep, message=msg), ""))
    failed = {n: r for n, r in ded.items() if r["public"] and r["status"] == "failed"}
    undecided = {n: r for n, r in ded.items() if r["public"] and r["status"] in ("unsupported", "missing", "vacuous")}
    if failed and not violations:
        # the verifier's counterexample, replayed on the real code
        for n, r in failed.items():
            w = r.get("witness")
            case = None
            if w and w[0] == "ok":
                msg = replay_contract(n, w[1])
                if msg is not None:
                    violations.append((dict(kind="input", contract=n, case=base64.b64encode(pickle.dumps(w[1])).decode(), input=repr_of(w[1]),
                                            message=f"counterexample of obligation {n}: {msg}", obligation=n), ""))
                    continue
            if w and w[0] == "ok" and hasattr(mod, "from_witness"):
                try:
                    case = mod.from_witness(n, w[1])
                except Exception:  # noqa: BLE001
                    case = None
            if case is not None:
                msg = run_case(mod, case)
                if msg is not None:
                    violations.append((dict(kind="input", case=base64.b64encode(pickle.dumps(case)).decode(), input=repr(case)[:4000],
                                            message=f"counterexample of obligation {n}: {msg}", obligation=n), ""))
        if not violations:
            for n, msg, w in small_counterexamples(failed):
                violations.append((dict(kind="input", contract=n, case=base64.b64encode(pickle.dumps(w)).decode(), input=repr_of(w),
                                        message=f"counterexample of obligation {n}: {msg}", obligation=n), ""))
        if not violations and not thorough:
            more = bounded(modname, seed + 7919, "deep", 8, min(150, budget * 5))
            for r in more:
                for case64, rep, msg in r["found"]:
                    case = pickle.loads(base64.b64decode(case64)) if case64 else None
                    if case is not None and any(mod.known(d["id"], case) for d in kf):
                        continue
                    violations.append((dict(kind="input", case=case64, input=rep, message=msg, obligation=sorted(failed)), ""))
        if not violations:
            for n, r in failed.items():
                violations.append((dict(kind="obligation", obligation=n, message=r["reason"], mode=r["mode"]), " no-failing-input-found"))

    # -------- evidence
    obl = [o for r in ded.values() for o in r["obligations"] if r["mode"] == "unbounded"]
    dis = [o for o in obl if o[1] == "proved"]
    bobl = [o for r in ded.values() for o in r["obligations"] if r["mode"] == "bounded"]
    level = getattr(mod, "LEVEL", "other")
    trusted = list(getattr(mod, "TRUSTED", [])) + [
        "pyvc (/verif/pyvc): translation of the Python subset to z3, models of builtins and containers; generators run eagerly",
        "z3 %s, cvc5 1.1.2" % __import__("z3").get_version_string(),
        "annotations of the model classes are taken as the types of inputs",
    ] + sorted({m for r in ded.values() for m in r["models"]})
    cov = dict(
        obligations=len(obl), discharged=len(dis),
        checker_cmd=f"python3-vt check.py {prop}",
        trusted_base=trusted,
        functions_under_contract={n: dict(status=r["status"], mode=r["mode"], obligations=len(r["obligations"]), discharged=sum(1 for o in r["obligations"] if o[1] == "proved"),
                                          paths=r["paths"], seconds=round(r["time"], 2), phase=r.get("phase"), inlined=r["inlined"], contracts_used=r["used"],
                                          **({"reason": r["reason"][:500]} if r["status"] != "proved" else {}),
                                          **({"outside_unbounded_subset": r["unbounded"][:500]} if r.get("unbounded") else {}))
                                  for n, r in ded.items()},
        solver_seconds=round(sum(r["solver_s"] for r in ded.values()), 2),
        solver_queries=sum(r["queries"] for r in ded.values()),
        discharged_by_cvc5=sum(r["cvc5"] for r in ded.values()),
        bounded_symbolic_obligations=len(bobl),
        evaluations=sum(r["n"] for r in bres), distinct_nontrivial=sum(r["nontriv"] for r in bres),
        rule=getattr(mod, "RULE", ""),
        kinds={k: sum(r["kinds"].get(k, 0) for r in bres) for k in sorted({k for r in bres for k in r["kinds"]})},
        samples=[s for r in bres for s in r["samples"]][:6],
        explanation=getattr(mod, "EXPLANATION", ""),
        undecided={n: r["reason"][:300] for n, r in undecided.items()},
        harness_errors=errs + ([contract_err] if contract_err else []),
    )
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for n, r in ded.items():
        no = len(r["obligations"])
        nd = sum(1 for o in r["obligations"] if o[1] == "proved")
        print(f"{r['status']:11} {r['mode']:9} {nd}/{no} obligations {r['time']:.1f}s {n}" + (f"   [{r['reason'][:160]}]" if r["status"] != "proved" else ""))
        if a.v and r["status"] != "proved":
            print(r["reason"])
    print(f"run time: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct non-trivial, kinds {cov['kinds']}")
    for e in cov["harness_errors"]:
        print("harness error:", e)
    if not obl and not bobl and not cov["evaluations"]:
        print("nothing was checked")
        sys.exit(2)
    for d in kf:
        if d["id"] in known_seen or mod.known_still(d["id"]):
            print(f"KNOWN-FINDING: property={prop} {d['what']}")
    if errs and not violations:
        # the harness runs on the tree it was written for: what stops it here comes from the code under test
        if any(e.startswith(("MemoryError", "OSError", "TimeoutError")) or "Error" not in e.split(":")[0] for e in errs):
            print("no answer: the run time checks did not finish")
            sys.exit(2)
        violations.append((dict(kind="crash", message="the code under test stops the run time checks: " + errs[0]), ""))
    if violations:
        rp = write_replay(prop, violations[0][0])
        print(violations[0][0].get("input", "")[:1500])
        print(violations[0][0]["message"][:1500])
        print(f"VIOLATION property={prop} replay={rp}{violations[0][1]}")
        sys.exit(1)
    print(f"property {prop} held: {len(dis)} of {len(obl)} obligations discharged without a bound, {time.time() - t0:.1f}s")
    sys.exit(0)


def write_replay(prop, d):
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    d = dict(property=prop, run=f"python3-vt check.py {prop} --replay <this file>", **d)
    h = hashlib.sha1(json.dumps(d, default=str).encode()).hexdigest()[:10]
    p = os.path.join(VERIF, "evidence", "replays", f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


if __name__ == "__main__":
    main()
