#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (tier from VERIF_TIER: quick|thorough)
check.py --replay FILE        replay a recorded counterexample against the real code
check.py --setup              build the engine and warm the caches

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import concurrent.futures as cf, json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hsxlib as L
import checks

EV = os.path.join(L.VERIF, "evidence")
PLAIN = ("purity", "leak")

def replay(unit, defs, v):
    """run the counterexample on the real build; returns (reproduced, description)"""
    kind = v["kind"]
    if kind == "uninitialised":
        exe = L.unit_native(unit, defs, "vg")
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write(" ".join(str(x[2]) for x in v["assign"]) + "\n")
        p = L.run(["valgrind", "-q", "--error-exitcode=97", exe, f.name, "--single"], timeout=300)
        os.unlink(f.name)
        return p.returncode == 97, "valgrind memcheck exit %d: %s" % (p.returncode, p.stderr[-1200:])
    out, err = L.run_native(L.unit_native(unit, defs, "plain" if kind in PLAIN else "asan"), [v["assign"]])
    o = out[0]
    clean = o["how"] == "exit" and o["code"] == 0
    assumed = o["status"] == "assume-failed"
    desc = "%s %d status=%s label=%s %s" % (o["how"], o["code"], o["status"], o["label"], err[-1500:])
    if clean or assumed:
        return False, desc
    return True, desc

def run_unit(u, tier, sem):
    """-> dict(result, unit, defs)"""
    t0 = time.time()
    defs = {str(k): str(v) for k, v in (u.get(tier) or u.get("quick") or {}).items()}
    with cf.ThreadPoolExecutor(2) as ex:
        nat = ex.submit(L.unit_native, u, defs, "asan")
        bc = L.unit_bc(u, defs)
        opts = dict(time=u.get("time", {}).get(tier, 300 if tier == "quick" else 1500), dump=(tier == "thorough"))
        opts.update(u.get("opts", {}))
        with sem:
            t1 = time.time()
            r = L.run_engine(bc, opts)
            r["engine_s"] = time.time() - t1
        exe = nat.result()
    res = {"unit": u, "defs": defs, "r": r, "mismatch": [], "validated": 0, "viol": []}
    if r["samples"]:
        out, err = L.run_native(exe, [s["assign"] for s in r["samples"]])
        for s, o in zip(r["samples"], out):
            if o["how"] == "exit" and o["code"] == 0 and o["hash"] == s["hash"] and o["obs"] == s["observed"]:
                res["validated"] += 1
            else:
                res["mismatch"].append((s, o))
    seen = set()
    for v in r["viols"]:
        key = (v["kind"], v["label"], v["where"])
        if key in seen: continue
        seen.add(key)
        ok, desc = replay(u, defs, v)
        res["viol"].append((v, ok, desc))
    res["wall"] = time.time() - t0
    return res

def known_findings(pid):
    out = []
    p = os.path.join(L.VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            j = json.loads(l)
            if j.get("property") == pid and j.get("status") == "known": out.append(j)
    return out

def cross_check(dumped, limit=24):
    """thorough tier: the dumped SMT queries are answered again by two other solvers"""
    import tempfile
    n = 0; bad = []
    for q in dumped[:limit]:
        want = "sat" if "; expect sat" in q else "unsat"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(q)
        for cmd in (["cvc5", "--tlimit=20000", f.name], ["z3-new", "-T:20", f.name]):
            try: p = L.run(cmd, timeout=40)
            except Exception: continue
            a = p.stdout.strip().splitlines()
            if a and a[0] in ("sat", "unsat"):
                n += 1
                if a[0] != want: bad.append((cmd[0], want, a[0], q[:2000]))
        os.unlink(f.name)
    return n, bad

def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = checks.PROPS[pid]
    units = [u for u in P["units"] if tier == "thorough" or not u.get("thorough_only")]
    evf = os.path.join(EV, pid + ".json")
    os.makedirs(EV, exist_ok=True)
    if os.path.exists(evf): os.unlink(evf)
    L.engine(); L.lib_bc(); L.model_bc(["models.cpp"])
    sem = threading.Semaphore(2)
    results, errors = [], []
    with cf.ThreadPoolExecutor(5) as ex:
        fs = {ex.submit(run_unit, u, tier, sem): u for u in units}
        for f in cf.as_completed(fs):
            try: results.append(f.result())
            except Exception as e:
                errors.append("%s: %s" % (fs[f]["name"], str(e)[-3000:]))
                if not isinstance(e, L.CheckError): traceback.print_exc()
    results.sort(key=lambda x: x["unit"]["name"])
    kf = known_findings(pid)
    viol_lines, nviol = [], 0
    for res in results:
        for v, ok, desc in res["viol"]:
            rec = {"property": pid, "unit": res["unit"]["name"], "harness": res["unit"]["src"], "defs": res["defs"], "kind": v["kind"], "label": v["label"], "where": v["where"], "stack": v["stack"], "assign": v["assign"], "native": desc}
            if not ok:
                errors.append("%s: counterexample did not reproduce on the real build: %s %s at %s; native: %s; inputs %s" % (res["unit"]["name"], v["kind"], v["label"], v["where"], desc[:600], json.dumps(v["assign"])[:800])); continue
            k = next((x for x in kf if x["unit"] == rec["unit"] and x["kind"] == rec["kind"] and x["label"] == rec["label"] and x.get("where", rec["where"]) == rec["where"]), None)
            if k: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); continue
            nviol += 1
            rp = os.path.join(EV, "%s.replay%d.json" % (pid, nviol))
            json.dump(rec, open(rp, "w"), indent=1)
            vals = " ".join("%s=%s" % (a[0], a[2]) for a in v["assign"])
            print("violated in unit %s: [%s] %s at %s\n  inputs: %s\n  real build: %s" % (res["unit"]["name"], v["kind"], v["label"], v["where"], vals[:1500], desc[:300].replace("\n", " | ")))
            viol_lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, L.VERIF)))
    ncross = 0
    for res in results:
        r, n = res["r"], res["unit"]["name"]
        if not res["viol"]:
            for m in r["fatal"]: errors.append("%s: engine: %s" % (n, m))
            miss = r["expected"] - r["reached"] - set(res["unit"].get("may_miss", ()))
            if miss: errors.append("%s: vacuous: never reached %s" % (n, sorted(miss)))
        for s, o in res["mismatch"][:3]:
            errors.append("%s: symbolic path and real build differ on %s: native %s" % (n, json.dumps(s)[:600], o))
        if tier == "thorough" and r["dumped"]:
            k, bad = cross_check(r["dumped"]); ncross += k
            for b in bad: errors.append("%s: solvers disagree: %s" % (n, b))
    tot = lambda k: sum(x["r"][k] for x in results)
    funcs = {}
    for res in results:
        for k, v in res["r"]["funcs"].items():
            o = funcs.get(k)
            funcs[k] = v if o is None or len(o) != len(v) else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, v))
    samples = []
    for res in results:
        for s in res["r"]["samples"][:3]:
            samples.append({"unit": res["unit"]["name"], "inputs": {"%s#%d" % (a[0], i): a[2] for i, a in enumerate(s["assign"])}, "observed_values": s["observed"], "observed_hash": s["hash"]})
    cov = {
        "states": tot("paths"), "transitions": tot("branches"),
        "traces_validated_against_impl": sum(x["validated"] for x in results),
        "samples": samples[:30],
        "exhaustive": not errors and not viol_lines,
        "explanation": "states = completed symbolic paths (each covers every input satisfying its path condition); transitions = branch decisions on symbolic conditions; traces_validated = paths whose model was run on the native ASan/UBSan build with identical observations",
        "units": [{"name": x["unit"]["name"], "harness": x["unit"]["src"], "defs": x["defs"], "bound": x["unit"].get("bound", ""), "paths": x["r"]["paths"], "paths_cut_by_assumption": x["r"]["assumecut"], "instructions": x["r"]["steps"], "branches": x["r"]["branches"], "assertions_checked": x["r"]["asserts"], "assertions_decided_by_solver": x["r"]["assertq"], "solver_queries": x["r"]["queries"], "sat": x["r"]["qsat"], "unsat": x["r"]["qunsat"], "answered_by_domain_tables": x["r"]["fast"], "domain_table_answers_audited_by_solver": x["r"]["audits"], "solver_s": round(x["r"]["solver_s"], 3), "longest_query_s": round(x["r"]["maxq_s"], 3), "engine_s": round(x["r"]["engine_s"], 2), "wall_s": round(x["wall"], 2), "witnesses_reached": sorted(x["r"]["reached"]), "assertion_labels": x["r"]["labels"], "validated": x["validated"]} for x in results],
        "functions_encoded": {k: "%d/%d blocks" % (v.count("1"), len(v)) for k, v in sorted(funcs.items())},
        "solver": "z3 4.8.12 (QF_BV; exact linear-integer translation for queries with division)", "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 3), "cross_checked_answers": ncross,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": checks.COMMON_ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines)}
    if errors: cov["errors"] = errors
    json.dump(ev, open(evf, "w"), indent=1)
    for e in errors: print("ERROR " + e)
    print("%s %s: %d units, %d paths, %d branches, %d solver queries (%.1f s), %d validated natively, %.1f s" % (pid, tier, len(results), cov["states"], cov["transitions"], cov["solver_queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    if viol_lines:
        for l in viol_lines: print(l)
        return 1
    return 2 if errors else 0

def do_replay(path):
    rec = json.load(open(path))
    u = next(u for u in checks.PROPS[rec["property"]]["units"] if u["name"] == rec["unit"])
    ok, desc = replay(u, rec["defs"], rec)
    print("reproduced" if ok else "not reproduced", desc)
    return 1 if ok else 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            L.engine(); L.lib_bc(); L.model_bc(["models.cpp"]); L.native_lib("asan"); rc = 0
        elif sys.argv[1] == "--replay": rc = do_replay(sys.argv[2])
        else: rc = main(sys.argv[1])
    except L.CheckError as e:
        print("ERROR", e); rc = 2
    sys.exit(rc)
