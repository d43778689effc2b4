#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: discharges every obligation of the property against /repo's current source.
exit 0: all discharged; exit 1 with a VIOLATION line otherwise."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "fals"))

MODS = {}
for _m, _ps in (("p_utf8", "C01 C02 C03 C04 C05"), ("p_bounds", "C06 C07 C08"), ("p_props", "C09 C14 C15 C16 C17"),
                ("p_graph", "C10 C11 C12 C13"), ("p_norm", "C18 C23 C24 C25 C26"), ("p_order", "C19 C20 C21 C22"), ("p_lemma", "C27 C28"),
                ("p_rev", "C29 C30 C31")):
    for _p in _ps.split():
        MODS[_p] = _m
TOTAL = 800


def main():
    t0 = time.time()
    prop = sys.argv[1]
    verbose = "-v" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import proof, known, build
    importlib.import_module(MODS[prop])
    units = proof.UNITS[prop]
    found = []

    def search(rs, secs=None):
        """a failing input on the real code, for these failed obligations"""
        import fals
        log = []
        seeds = {v for r in rs for o in r["obs"] if not o[2] for v in (o[5] or {}).values() if isinstance(v, int)}
        left = TOTAL - (time.time() - t0) if tier == "quick" else 600
        secs = max(20, min(left - 60, secs or 150))
        # a lookup that is not what the property rests on: its own inputs are tried first
        deps = sorted({r["dep"] for r in rs if r.get("dep") and (r["err"] or any(not o[2] for o in r["obs"]))})
        hit = None
        for p in deps + [prop]:
            try:
                hit = hit or fals.search(p, seed, secs / (1 + len(deps)), log, sorted(seeds))
            except Exception as e:
                log.append("%s: %s" % (type(e).__name__, e))
        found[:] = [(hit, log)]
        return hit
    res = proof.run(units, tier, limit=500 if tier == "quick" else 1500, log=(lambda s: print(s, file=sys.stderr)) if verbose else None,
                    search=lambda rs: search(rs, 60))
    obs = [(r["unit"], o) for r in res for o in r["obs"]]
    failed = [(u, o) for u, o in obs if not o[2]]
    errs = [(r["unit"], r["err"]) for r in res if r["err"]]
    empty = [r["unit"] for r in res if not r["err"] and not r["obs"]]
    errs += [(u, "no obligation was generated") for u in empty]
    kn = []
    for r in res:
        for k in r["known"]:
            if k not in kn:
                kn.append(k)
    backends = {}
    for u, o in obs:
        backends[o[4]] = backends.get(o[4], 0) + (1 if o[2] else 0)
    names = {}
    for u, o in obs:
        names[o[0]] = names.get(o[0], 0) + 1
    funcs = sorted({f for r in res for f in r["funcs"]})
    own = [f for f in funcs if "u5e::" in f or f.startswith("compare_value") or f.startswith("vp_")]
    trusted = sorted({f for r in res for f in r["trusted"]})
    assumptions = ["clang 18 translates the C++ source to LLVM IR faithfully (unoptimised IR, -fno-exceptions)",
                   "the executor in engine/ implements the semantics of the LLVM IR instructions it meets; it stops with a failed obligation at any other",
                   "z3 answers unsat only for unsatisfiable queries"]
    assumptions += ["trusted contract: " + t for t in trusted]
    assumptions += sorted({f for r in res for f in r["assumptions"]})
    x = [r["x"] for r in res if r.get("x")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obs) + len(errs),
            "discharged": sum(1 for u, o in obs if o[2]),
            "checker_cmd": "python3 check.py %s" % prop,
            "trusted_base": assumptions,
            "by_back_end": backends,
            "obligation_names": names,
            "units": len(res),
            "functions_under_contract": sorted({r["group"] + ": " + r["unit"] for r in res}),
            "functions_executed": own,
            "library_functions_executed": len(funcs) - len(own),
            "callee_contracts_used": sorted({c for r in res for c in r["contracts"]}),
            "loop_invariants": sorted({"%s: %s" % (w, "; ".join(i)) for r in res for w, i in r["inv"]})[:200],
            "solver_queries": sum(r["queries"] for r in res),
            "solver_time_s": round(sum(r["tq"] for r in res), 2),
            "instructions_executed": sum(r["ninst"] for r in res),
            "paths_returning": sum(r["reached"] for r in res),
            "vacuity_canaries": sum(r["canaries"] for r in res),
            "undischarged": ["%s: %s" % (u, o[0]) for u, o in failed][:50] + ["%s: %s" % e for e in errs][:50],
            "cvc5_cross_check": {k: sum(y.get(k, 0) for y in x) for k in ("checked", "unsat", "sat", "unknown")} if x else "thorough tier only",
            "facts": {r["unit"]: r["facts"] for r in res if r["facts"]},
        },
        "assumptions": assumptions,
        "wall_s": 0.0,
        "violations": 0,
    }
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    rc = 0
    if failed or errs:
        rc = 1
        hit, log = found[0] if found and found[0][0] else (search(res), found[0][1])
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s is not proved for the code in %s\n\nobligations that fail:\n" % (prop, build.REPO))
            for u, o in failed[:60]:
                f.write("  [%s] %s\n      at %s\n      verifier: %s\n      counterexample: %s\n" % (u, o[0], o[1], o[6], o[5]))
            for u, e in errs[:60]:
                f.write("  [%s] %s\n" % (u, e))
            if hit:
                f.write("\nfailing input, replayed on the real code (line for fals/driver.cpp built from the source, AddressSanitizer on):\n")
                f.write("  case:     %s\n  expected: %s\n  got:      %s\n" % (hit["case"], hit["expected"], hit["got"]))
                if hit["before"]:
                    f.write("  run before it in the same process: %s\n" % "; ".join(x[:300] for x in hit["before"]))
                if hit["error"]:
                    f.write("  error:    %s\n" % hit["error"])
            else:
                f.write("\nno failing input found. %s\n" % " ".join(log))
        ev["violations"] = 1
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hit else " no-failing-input-found"))
        if verbose:
            print(open(path).read()[:6000], file=sys.stderr)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d of %d obligations discharged, %.1f s" % (prop, ev["coverage"]["discharged"], ev["coverage"]["obligations"], ev["wall_s"]))
    return rc


def guarded():
    try:
        return main()
    except Exception:
        # an error of the machinery on this source is an obligation that was not discharged
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        path = os.path.join(d, prop + ".txt")
        with open(path, "w") as f:
            f.write("the verifier failed:\n" + traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        traceback.print_exc()
        return 1


if __name__ == "__main__":
    rc = guarded()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
