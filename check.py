"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

Two readings of the same contracts run side by side: the deductive proof over the real source, and the contracts
evaluated on the compiled library.  See DESIGN.md."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True

def env(scratch):
    e = dict(os.environ)
    e.update(NUMBA_CACHE_DIR=tempfile.mkdtemp(prefix="numba", dir=scratch), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYTHONPATH=HERE + (":" + os.environ["VERIF_REPO"] + "/src" if os.environ.get("VERIF_REPO") else ""),
             NUMBA_NUM_THREADS="4", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", PYTHONHASHSEED="0", HOME=scratch,
             MPLCONFIGDIR=scratch)
    return e

def start(mode, prop, tier, seed, out, scratch, extra=None):
    cmd = [PY, os.path.join(HERE, "pyvc", "run.py"), mode, prop, tier, str(seed), out] + ([extra] if extra else [])
    lg = open(out + ".log", "w")
    return subprocess.Popen(cmd, env=env(scratch), stdout=lg, stderr=lg, cwd=scratch, start_new_session=True)

def read(out):
    rows = []
    try:
        with open(out) as fh:
            for ln in fh:
                try:
                    rows.append(json.loads(ln))
                except ValueError:
                    pass
    except OSError:
        pass
    return rows

def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()

def wait(jobs, deadline):
    """jobs: name -> (process, out, hangwatch).  returns name -> None | reason it was stopped"""
    res = {k: None for k in jobs}
    live = dict(jobs)
    t0 = time.time()
    while live:
        time.sleep(0.3)
        for k, (p, out, watch) in list(live.items()):
            if p.poll() is not None:
                del live[k]
                continue
            now = time.time()
            if watch:
                rows = [r for r in read(out) if r["kind"] in ("start", "tick", "concrete", "replay", "violation")]
                if rows:
                    last = max(r.get("t", 0) for r in rows if "t" in r)
                    st = [r for r in rows if r["kind"] == "start"][-1]
                    ended = rows[-1]["kind"] in ("concrete", "replay")
                    mt = os.path.getmtime(out)
                    if not ended and now - max(last, mt) > 60 + st["hang"] * 2:
                        kill(p)
                        res[k] = ("hang", rows[-1]["case"], rows[-1].get("rep"))
                        del live[k]
                        continue
            if now - t0 > deadline:
                kill(p)
                res[k] = ("deadline", None, None)
                del live[k]
    return res

def known():
    """lines  'known: property=Cxx case=<case> match=<text> :: <what fails>'"""
    out = []
    try:
        for ln in open(os.path.join(HERE, "known_findings.txt")):
            if ln.startswith("known:"):
                head, what = ln[6:].split("::", 1)
                d = {}
                for part in ("property=", "case=", "match="):
                    i = head.index(part) + len(part)
                    j = min([head.find(" " + q, i) for q in ("property=", "case=", "match=") if head.find(" " + q, i) >= 0] or [len(head)])
                    d[part[:-1]] = head[i:j].strip()
                d["what"] = what.strip()
                out.append(d)
    except OSError:
        pass
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        rc = decide(prop, tier, seed, ev, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, ev, scratch, t0):
    quick = tier == "quick"
    jobs = {}
    for mode, n in (("proof", 4), ("concrete", 2)):
        for k in range(n):
            out = os.path.join(scratch, "%s%d.jsonl" % (mode, k))
            jobs[mode, k] = (start(mode, prop, tier, seed, out, scratch, "shard:%d/%d" % (k, n)), out, mode == "concrete")
    stops = wait(jobs, 420 if quick else 5400)
    redo = {}
    for j, (p, out, w) in list(jobs.items()):
        if not stops[j] and p.returncode < 0 and not any(r["kind"] in ("done", "violation") for r in read(out)):
            redo[j] = (start(j[0], prop, tier, seed, out, scratch, "shard:%d/%d" % (j[1], {"proof": 4, "concrete": 2}[j[0]])), out, w)
    if redo:
        jobs.update(redo)
        stops.update(wait(redo, 300 if quick else 5400))
    P = [r for j in jobs if j[0] == "proof" for r in read(jobs[j][1])]
    CS = {j: read(jobs[j][1]) for j in jobs if j[0] == "concrete"}
    C = [r for rows in CS.values() for r in rows]
    logs = {m: "".join(open(jobs[j][1] + ".log").read()[-1500:] for j in jobs if j[0] == m) for m in ("proof", "concrete")}
    stop = {m: next((stops[j] for j in jobs if j[0] == m and stops[j]), None) for m in ("proof", "concrete")}
    viol = []           # dicts: case, why, input, obligation, nofail
    for r in C:
        if r["kind"] == "violation":
            viol.append({"case": r["case"], "why": r["why"], "input": r["input"], "rep": r["rep"], "seed": r["seed"], "how": "contract evaluated on the compiled library"})
    done_c = all(any(r["kind"] == "done" for r in rows) for rows in CS.values())
    import_failed = not C and not any(stops[j] for j in CS)
    for j in CS:
        if stops[j] and stops[j][0] == "hang":
            viol.append({"case": stops[j][1], "why": "the call does not return (no progress for over a minute on a tiny input)", "input": None,
                         "rep": stops[j][2], "seed": seed, "how": "contract evaluated on the compiled library"})
    for j in CS:
        if j in redo and jobs[j][0].returncode < 0 and not stops[j] and jobs[j][0].returncode not in (-9, -15):
            st = [r for r in CS[j] if r["kind"] == "start"]
            viol.append({"case": st[-1]["case"] if st else "*", "why": "the process running the compiled library dies with signal %d, twice" % -jobs[j][0].returncode,
                         "input": None, "rep": None, "seed": seed, "how": "contract evaluated on the compiled library"})
    proofs = {r["case"]: r for r in P if r["kind"] == "proof"}
    started = [n for r in P if r["kind"] == "plan" for n in r["cases"]]
    undecided, refuted = {}, []
    for name in started:
        r = proofs.get(name)
        if r is None:
            undecided[name] = "the proof run ended early: %s %s" % (stop["proof"], logs["proof"][-300:])
            continue
        if r["err"]:
            undecided[name] = r["err"]
        elif not r["groups"]:
            undecided[name] = "no obligation generated"
        for b in r["bad"]:
            if b["status"] == "refuted":
                refuted.append((name, b))
            elif b["status"] == "exception":
                refuted.append((name, b))
            else:
                undecided.setdefault(name, "undischarged: %s (%s) %s" % (b["name"], b["status"], b["detail"]))
    if not started:
        undecided["*"] = "the proof process did not start a case: " + logs["proof"][-1500:]
    # -------- replay the counterexamples on the real code
    vcases = {v["case"] for v in viol}
    ccases = {r["case"] for r in C if r["kind"] == "start"}
    spurious = []
    todo, seen = [], {}
    for name, b in refuted:
        if name in vcases or seen.get(name, 0) >= 3:
            continue
        seen[name] = seen.get(name, 0) + 1
        todo.append((name, b))
    if todo:
        mf = os.path.join(scratch, "models.json")
        rep = [(n, b) for n, b in todo if n in ccases]
        json.dump([{"case": n, "model": b["model"]} for n, b in rep], open(mf, "w"))
        out = os.path.join(scratch, "replay.jsonl")
        st = wait({"replay": (start("replay", prop, tier, seed, out, scratch, mf), out, True)}, 200 if quick else 1200)
        R = {r["index"]: r for r in read(out) if r["kind"] == "replay"}
        if st["replay"] and st["replay"][0] == "hang":
            viol.append({"case": st["replay"][1], "why": "the call does not return on the verifier's counterexample", "input": None, "rep": None, "seed": seed, "how": "counterexample replay"})
        for i, (n, b) in enumerate(rep):
            r = R.get(i)
            if r and r["found"]:
                viol.append({"case": n, "why": r["found"]["why"], "input": r["found"]["input"], "obligation": b["name"], "verifier": b["detail"], "model": b["model"],
                             "how": "refuted obligation, replayed on the compiled library (%s)" % ("the verifier's counterexample" if r["found"]["from_model"] else "input found by search")})
                vcases.add(n)
        for i, (n, b) in enumerate(rep):
            if n in vcases:
                continue
            r = R.get(i)
            clean = r and r.get("model_ran_clean")
            if b["status"] == "refuted" and not clean and not b["opaque"]:
                viol.append({"case": n, "why": "obligation refuted by the verifier, no failing input found", "input": None, "obligation": b["name"],
                             "verifier": b["detail"], "model": b["model"], "how": b["how"], "nofail": True})
                vcases.add(n)
            else:
                undecided[n] = "obligation '%s' not discharged (%s); the counterexample does not fail on the real code: %s" % (b["name"], b["status"], b["detail"][:400])
        for n, b in todo:
            if n not in ccases and n not in vcases:
                if b["status"] == "refuted" and not b["opaque"]:
                    viol.append({"case": n, "why": "obligation refuted by the verifier, no failing input found", "input": None, "obligation": b["name"],
                                 "verifier": b["detail"], "model": b["model"], "how": b["how"], "nofail": True})
                    vcases.add(n)
                else:
                    undecided[n] = "obligation '%s' not discharged (%s): %s" % (b["name"], b["status"], b["detail"][:400])
    # -------- bounded stand-in for what the verifier could not decide
    deep = {}
    names = [n for n in undecided if n in ccases and n not in vcases]
    if names:
        out = os.path.join(scratch, "deep.jsonl")
        st = wait({"deep": (start("deep", prop, tier, seed, out, scratch, "|".join(names)), out, True)}, 200 if quick else 1200)
        for r in read(out):
            if r["kind"] == "violation":
                viol.append({"case": r["case"], "why": r["why"], "input": r["input"], "rep": r["rep"], "seed": r["seed"], "how": "bounded stand-in on the compiled library"})
            elif r["kind"] == "concrete":
                deep[r["case"]] = r["ok"]
        if st["deep"] and st["deep"][0] == "hang":
            viol.append({"case": st["deep"][1], "why": "the call does not return", "input": None, "rep": st["deep"][2], "seed": seed, "how": "bounded stand-in"})
    # -------- known findings
    kn = [k for k in known() if k["property"] == prop]
    new, hit = [], []
    for v in viol:
        k = next((k for k in kn if k["case"] == v["case"] and k["match"] in v["why"]), None)
        if k:
            hit.append(k)
        else:
            new.append(v)
    for k in kn:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # -------- evidence
    def total(key, bounded):
        return sum(g[key] for r in proofs.values() if (r["level"] == "bounded") == bounded for g in r["groups"].values())
    obl, dis, bobl, bdis = total("total", False), total("proved", False), total("total", True), total("proved", True)
    def named(groups):
        """obligations by name; many names are summed up by their first words"""
        if len(groups) > 40:
            short = {}
            for k, g in groups.items():
                e = short.setdefault(" ".join(k.split()[:2]), {"proved": 0, "total": 0})
                e["proved"] += g["proved"]
                e["total"] += g["total"]
            groups = short
        if len(groups) > 40:
            groups = {"(all)": {k: sum(g[k] for g in groups.values()) for k in ("proved", "total")}}
        return {k[:200]: "%d/%d" % (g["proved"], g["total"]) for k, g in groups.items()}
    how = {}
    for r in proofs.values():
        for g in r["groups"].values():
            for k, n in g["how"].items():
                how[k] = how.get(k, 0) + n
    funcs = sorted({f for r in P if r["kind"] == "done" for f in r["functions"]} | {f for r in proofs.values() for f in r["functions"]})
    conc = [r for r in C if r["kind"] == "concrete"]
    notes = {}
    try:
        notes = json.load(open(os.path.join(HERE, "props", "notes.json"))).get(prop, {})
    except (OSError, ValueError):
        pass
    from tools.levels import LEVELS
    cov = {"obligations": obl, "discharged": dis,
           "bounded_obligations": bobl, "bounded_discharged": bdis,
           "bounded_note": "obligations of the cases marked bounded below: for all values, but sizes up to the stated bound; not counted as proved",
           "checker_cmd": "cd /verif && %s check.py %s %s" % (PY, prop, tier),
           "trusted_base": ["pyvc symbolic executor and loop rule (/verif/pyvc)", "z3 %s" % z3v(), "CPython 3.12 executing the instrumented source"] + notes.get("trusted", []),
           "functions_under_contract": funcs,
           "by_back_end": how,
           "solver_seconds": round(sum(r["qtime"] for r in proofs.values()), 3), "solver_queries": sum(r["queries"] for r in proofs.values()),
           "proof_seconds": round(sum(r["secs"] for r in proofs.values()), 2),
           "paths": sum(r["paths"] for r in proofs.values()), "loops_of_symbolic_length": sum(r["loops"] for r in proofs.values()),
           "divisors_assumed_nonzero": sum(r["assumed_div"] for r in proofs.values()),
           "cases": [{"case": n, "level": ("bounded: " + r["note"]) if r["level"] == "bounded" else "unbounded" + (": " + r["note"] if r["note"] else ""),
                      "obligations": named(r["groups"]),
                      "undecided": undecided.get(n)} for n, r in proofs.items()],
           "bounded_only": [{"case": r["case"], "evaluations": r["ok"]} for r in conc if r["case"] not in started or r["case"] in undecided],
           "contract_evaluations_on_compiled_library": [{k: r[k] for k in ("case", "runs", "ok", "skipped", "checks", "distinct")} for r in conc],
           "evaluations": sum(r["ok"] for r in conc), "distinct_nontrivial": sum(r["distinct"] for r in conc),
           "rule": "random inputs per contract case from VERIF_SEED; distinct by content",
           "samples": [{"case": r["case"], "input": r["sample"]} for r in conc[:4]]}
    doc = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "other"), "coverage": cov,
           "assumptions": ["numbers are exact reals/integers in the proofs: rounding and overflow are not modelled",
                           "array dtypes, compilation by numba and memory layout are dropped in the proofs (the compiled library is exercised by the concrete reading)",
                           "numpy, numba, scipy and sympy functions not in the repository act as the contracts in pyvc/shim_*.py (assumed)",
                           "divisors that occur in the verified text are nonzero where the contract does not say otherwise"] + notes.get("assumptions", []) +
                          ["undecided by the verifier, bounded stand-in only: %s: %s" % (n, w[:300]) for n, w in undecided.items()],
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if LEVELS.get(prop, "other") == "other":
        cov["explanation"] = notes.get("explanation", "")
    json.dump(doc, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged (and %d/%d of bounded size) in %d cases (%d undecided), %d contract evaluations on the compiled library, %.0f s" %
          (prop, tier, dis, obl, bdis, bobl, len(proofs), len(undecided), cov["evaluations"], time.time() - t0))
    for n, w in undecided.items():
        print("  undecided (bounded stand-in): %s: %s" % (n, w[:500].replace("\n", " | ")))
    if import_failed:
        print("  concrete run: " + logs["concrete"][-1500:])
        # the library cannot even be imported or the harness cannot start
        new.append({"case": "*", "why": "the library cannot be loaded: " + logs["concrete"][-1500:], "input": None, "how": "import"})
    elif not done_c and not viol:
        print("  concrete run ended early: %s %s %s" % (stop["concrete"], [jobs[j][0].returncode for j in CS], logs["concrete"][-800:]))
    if not new:
        return 0
    new.sort(key=lambda v: bool(v.get("nofail")))
    path = os.path.join(ev, "replay_%s.json" % prop)
    json.dump({"property": prop, "tier": tier, "violations": new,
               "reproduce": "cd /verif && VERIF_SEED=%d %s check.py %s %s" % (seed, PY, prop, tier)}, open(path, "w"), indent=1, default=str)
    for v in new[:5]:
        print("  violated: case '%s': %s" % (v["case"], str(v["why"])[:700]))
    print("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if new[0].get("nofail") else ""))
    return 1

def z3v():
    try:
        import z3
        return z3.get_version_string()
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        try:
            import z3
            return z3.get_version_string()
        except ImportError:
            return "?"

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    main()
