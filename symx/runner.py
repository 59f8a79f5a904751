"""Run the cases of a property in parallel, write evidence, report."""
import argparse, fnmatch, importlib, json, os, sys, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

DEADLINE_S = 720   # of a quick run; cases not finished by then are reported undecided

COMMON_ASSUMPTIONS = [
    "machine floating point is modelled as real arithmetic (rounding, overflow and NaN propagation are outside the claim); constants are rationals within 1e-13 of the machine constant",
    "the code runs with jax_enable_x64; every counterexample is replayed in that configuration before it is reported",
    "denominators the code divides by are non-zero unless the case says otherwise",
]


class Case:
    def __init__(self, name, body, **opts):
        self.name, self.body, self.opts = name, body, opts


_CASES = {}


def load_cases(pid, tier):
    key = (pid, tier)
    if key not in _CASES:
        from symx import boot
        boot.load_repo()
        mod = importlib.import_module("checks." + pid)
        _CASES[key] = {c.name: c for c in mod.cases(tier)}
    return _CASES[key]


def _work(a):
    pid, tier, name, seed = a
    try:
        from symx import harness
        c = load_cases(pid, tier)[name]
        opts = dict(c.opts)
        r = harness.explore(name, c.body, seed=seed, **opts)
        return dict(name=name, stats=r.stats.__dict__, violations=r.violations, undecided=r.undecided,
                    notes=r.notes, truncated=r.truncated, validated=r.validated, mismatch=r.mismatch,
                    wall=r.wall, prims=r.prims)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(name=name, error="%s" % traceback.format_exc()[-1500:])


def _init():
    os.environ["JAX_PLATFORMS"] = "cpu"


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))["findings"]
    return []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    pid = args.pid
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if args.replay:
        return do_replay(pid, args.replay)
    t0 = time.time()
    try:
        cs = load_cases(pid, args.tier)
    except Exception:
        # the package does not import / the check cannot be set up
        traceback.print_exc()
        return 2
    names = [n for n in cs if not args.only or fnmatch.fnmatch(n, args.only)]
    if args.list:
        print("\n".join(names))
        return 0
    mod = importlib.import_module("checks." + pid)
    # long cases first
    names.sort(key=lambda n: -cs[n].opts.get("budget_s", 60) * (1 + cs[n].opts.get("weight", 0)))
    jobs = [(pid, args.tier, n, seed) for n in names]
    results = []
    late = []
    limit = DEADLINE_S if args.tier != "thorough" else 36000
    if args.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(_work(j))
            if args.v:
                show(results[-1])
    else:
        ctx = mp.get_context("spawn")
        with ctx.Pool(min(args.jobs, len(jobs)), _init, maxtasksperchild=getattr(mod, "MAXTASKS", None)) as pool:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            while len(results) < len(jobs):
                try:
                    r = it.next(timeout=max(1.0, t0 + limit - time.time()))
                except mp.TimeoutError:
                    got = {r["name"] for r in results}
                    late = [n for n in names if n not in got]
                    pool.terminate()
                    break
                results.append(r)
                if args.v:
                    show(r)
    return report(pid, args.tier, seed, mod, results, time.time() - t0, late)


def show(r):
    if "error" in r:
        print("ERROR", r["name"], r["error"], flush=True)
        return
    s = r["stats"]
    print("%-50s %6.1fs paths=%d claims=%d q=%d feas=%d solver=%.1fs wit=%d val=%d%s%s%s" % (
        r["name"], r["wall"], s["paths"], s["claims"], s["queries"], s["feas"], s["solver_s"], s["witness"],
        r["validated"], " TRUNC" if r["truncated"] else "", " UNDECIDED %s" % r["undecided"][:2] if r["undecided"] else "",
        " MISMATCH %s" % r["mismatch"][:1] if r["mismatch"] else ""), flush=True)
    for v in r["violations"]:
        print("   VIOL", v["claims"], v.get("how"), json.dumps(v["inputs"])[:300], flush=True)


def report(pid, tier, seed, mod, results, wall, late):
    from symx.core import Stats
    tot = Stats()
    errors, viols, undec, trunc, mism = [], [], [], [], []
    validated = 0
    decided = 0
    vacuous = []
    prims = {}
    for r in sorted(results, key=lambda r: r["name"]):
        if "error" in r:
            errors.append((r["name"], r["error"]))
            continue
        tot.add(r["stats"])
        validated += r["validated"]
        for k, v in r["prims"].items():
            prims[k] = prims.get(k, 0) + v
        for v in r["violations"]:
            viols.append((r["name"], v))
        if r["undecided"]:
            undec.append((r["name"], r["undecided"][:3]))
        elif not r["violations"]:
            decided += 1
        if r["truncated"]:
            trunc.append(r["name"])
        if r["mismatch"]:
            mism.append((r["name"], r["mismatch"][0]))
        if not r["violations"] and r["stats"]["witness"] == 0 and not r["undecided"]:
            vacuous.append(r["name"])
    undec += [(n, ["budget: not finished within the time limit of the check"]) for n in late]
    kf = [k for k in known_findings() if k["property"] == pid]
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    new = []
    for name, v in viols:
        hit = None
        for k in kf:
            if fnmatch.fnmatchcase(name, k["case"]) and any(fnmatch.fnmatchcase(c, k.get("claim", "*")) for c in v["claims"]):
                hit = k
                break
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (pid, name.replace("/", "_")))
        json.dump(dict(property=pid, case=name, tier=tier, **v), open(path, "w"), indent=1)
        if hit:
            hit["_seen"] = True
            print("KNOWN-FINDING: property=%s case=%s %s" % (pid, name, hit["what"]))
        else:
            new.append((name, v, path))
    unreproduced = [(n, u) for n, u in undec if any(x.startswith("unreproduced") for x in u)]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"),
        coverage=dict(
            explanation=getattr(mod, "EXPLAIN", ""),
            functions_encoded=getattr(mod, "FUNCTIONS", []),
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            cases=len(results) + len(late), cases_decided=decided, paths=tot.paths, claims=tot.claims,
            claims_by_normal_form=tot.trivial,
            solver_queries=tot.queries, unsat=tot.unsat, sat=tot.sat, unknown=tot.unknown,
            feasibility_queries=tot.feas, solver_seconds=round(tot.solver_s, 2),
            reachability_witnesses=tot.witness, encoding_validated_on=validated,
            encoding_mismatches=[dict(case=n, what=m) for n, m in mism],
            undecided=[dict(case=n, why=u) for n, u in undec],
            truncated_at_path_bound=trunc,
            primitives_interpreted=prims,
        ),
        assumptions=COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=[dict(case=n, claims=v["claims"], replay=p) for n, v, p in new],
    )
    if isinstance(ev["violations"], list):
        ev["coverage"]["violation_details"] = ev["violations"]
        ev["violations"] = len(new)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d decided, %d paths, %d claims, %d queries (%d unsat, %d sat, %d unknown), %d feasibility, "
          "%.1fs solver, %.1fs wall; %d truncated, %d undecided, %d mismatches" % (
              pid, tier, len(results) + len(late), decided, tot.paths, tot.claims, tot.queries, tot.unsat, tot.sat, tot.unknown,
              tot.feas, tot.solver_s, wall, len(trunc), len(undec), len(mism)))
    for n, u in undec:
        print("undecided: %s: %s" % (n, u[0][:400]))
    for n, m in mism:
        print("mismatch: %s: %s" % (n, m))
    for n, e in errors:
        print("error: %s: %s" % (n, e))
    for n in vacuous:
        print("vacuous: %s" % n)
    for n, v, p in new:
        print("  %s: %s; inputs %s" % (n, "; ".join(v["claims"][:4]), json.dumps(v["inputs"])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    if new:
        return 1
    if errors or not decided:
        return 2
    return 0


def do_replay(pid, path):
    d = json.load(open(path))
    from symx import harness
    c = load_cases(pid, d.get("tier", "quick"))[d["case"]]
    viol, status, h = harness.run_concrete(c.body, harness.dec(d["inputs"]))
    print("replay of %s: %s %s" % (d["case"], status, viol))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
