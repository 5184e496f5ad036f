"""Driver: python3 -m vt.check PROPERTY
Builds the harnesses of a property from /repo's current tree, explores them
symbolically, replays every counterexample natively, writes the evidence file."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time, traceback
from . import build
from .props import PROPS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.json")


def known_findings(pid):
    try:
        d = json.load(open(KNOWN))
    except OSError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == pid]


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[: len(names)]


def functions(exe, addrs):
    """names of the functions whose instructions were executed on symbolic data"""
    if not addrs:
        return []
    r = subprocess.run(["nm", "-n", "--defined-only", exe], stdout=subprocess.PIPE, text=True)
    syms = []
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "tTwWvV":
            syms.append((int(p[0], 16), p[2]))
    import bisect
    keys = [s[0] for s in syms]
    out = set()
    for a in addrs:
        i = bisect.bisect_right(keys, a) - 1
        if i >= 0:
            out.add(syms[i][1])
    names = demangle(sorted(out))
    res = set()
    for n in names:
        # drop template arguments and parameters for readability
        d, s = 0, ""
        n = n.replace("operator<<", "operator shl").replace("operator<", "operator lt").replace("operator->", "operator arrow")
        for ch in n:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                s += ch
        s = s.split("(")[0].strip().split(" ")[-1]
        res.add(s)
    return sorted(res)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    runs = [r for r in P["runs"] if not (tier == "quick" and r.thorough_only) and not (tier == "thorough" and r.quick_only)]
    work = os.path.join(build.BUILD, "run", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(build.BUILD, "replays", pid)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays)
    rc = 1
    try:
        rc = execute(pid, tier, seed, P, runs, work, replays, t0)
    except Exception as e:
        traceback.print_exc()
        print("ERROR property=%s %s" % (pid, str(e)[:2000]))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def execute(pid, tier, seed, P, runs, work, replays, t0):
    plugin = build.engine()[0]
    ccdir = build.model_cc(plugin)
    hs = {}
    for r in runs:
        k = (r.harness, tuple(r.defs))
        if k not in hs:
            hs[k] = None
    with cf.ThreadPoolExecutor(4) as ex:
        def mk(k):
            return k, build.Harness(k[0], defs=k[1])
        for k, h in ex.map(mk, list(hs)):
            hs[k] = h
        # instrumented and native builds in parallel
        fs = [ex.submit(h.sym) for h in hs.values()] + [ex.submit(h.nat) for h in hs.values()]
        for f in fs:
            f.result()
    build_s = time.time() - t0
    left_total = (780 if tier == "quick" else 6 * 3600) - build_s
    results, violations, undec = [], [], []
    findings = known_findings(pid)
    knownhit = {}
    for ri, r in enumerate(runs):
        h = hs[(r.harness, tuple(r.defs))]
        out = os.path.join(work, "r%d" % ri)
        os.makedirs(out + "/scratch")
        budget = r.quick if tier == "quick" else r.thorough
        budget = max(5, min(budget, left_total - (time.time() - t0 - build_s) - 60))
        env = dict(os.environ, VT_CC_DIR=ccdir, VT_SCRATCH=out + "/scratch", VT_PATHS="8")
        opts = dict(r.opts)
        if tier == "thorough":
            opts.update(r.thorough_opts)
        for k, v in opts.items():
            env["VT_OPT_" + k] = str(v)
        env.update(r.env)
        log = open(out + "/log", "w")
        p = subprocess.Popen([h.sym(), out, str(budget), str(os.cpu_count() or 8)], env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(budget + 90)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        try:
            res = json.load(open(out + "/result.json"))
        except Exception:
            raise RuntimeError("run %s gave no result: %s" % (r.name, open(out + "/log").read()[-1500:]))
        res["name"], res["budget"], res["opts"] = r.name, budget, opts
        res["functions"] = functions(h.sym(), res.pop("addrs"))
        res["native_ok"] = res["native_bad"] = 0
        results.append(res)
        def replay(f, tries):
            for t in range(tries):
                try:
                    q = subprocess.run([h.nat(), f, str(t)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=r.native_timeout)
                    txt, code = q.stdout, q.returncode
                except subprocess.TimeoutExpired:
                    txt, code = "REPLAY violated: timeout", 1
                m = re.search(r"^REPLAY violated: (.*)$", txt, re.M)
                if m or code < 0:
                    v = re.findall(r"^REPLAY values.*$", txt, re.M)
                    return t, (m.group(1) if m else "signal %d" % -code) + (" (" + v[-1][7:] + ")" if v else "")
            return None
        cexs = [f for f in sorted(os.listdir(out)) if re.match(r"cex_\d+\.(viol|cand)$", f)]
        paths = [f for f in sorted(os.listdir(out)) if re.match(r"path_\d+\.txt$", f)]
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            got_cex = list(ex.map(lambda f: replay(os.path.join(out, f), 13), cexs))
            got_path = list(ex.map(lambda f: replay(os.path.join(out, f), 1), paths))
        # counterexamples and undecided claims are replayed on the real (uninstrumented) build
        for f, got in zip(cexs, got_cex):
            path = os.path.join(out, f)
            hd = open(path).read()
            msg = re.search(r"^# msg (.*)$", hd, re.M).group(1)
            if got is None:
                undec.append("%s: %s (%s) not reproduced natively" % (r.name, msg, f.split(".")[1]))
                if os.environ.get("VT_KEEP"):
                    shutil.copy(path, replays + "/unrepro_%d_%s" % (ri, f))
                continue
            text = got[1]
            kf = next((e for e in findings if e.get("run", r.name) == r.name and re.search(e["match"], text + "\n" + hd)), None)
            if kf:
                knownhit[kf["id"]] = kf
                continue
            dst = os.path.join(replays, "%s_%s.txt" % (r.name.replace("/", "_"), f))
            with open(dst, "w") as o:
                o.write("# property %s\n# run %s\n# failed: %s\n# native: %s <this file> %d   env: %s\n" % (
                    pid, r.name, text, h.nat(), got[0], " ".join("%s=%s" % (k, env[k]) for k in env if k.startswith("VT_"))))
                o.write(hd)
            violations.append((dst, r.name, msg, text))
        # sampled completed paths: the native build must agree with the symbolic verdict
        for got in got_path:
            if got is None:
                res["native_ok"] += 1
            elif "nan" in got[1]:
                res["native_outside"] = res.get("native_outside", 0) + 1   # the point chosen is outside the domain of the model
            else:
                res["native_bad"] += 1
                undec.append("%s: native run of a proved path disagrees: %s" % (r.name, got[1]))
        missing = [l for l in r.labels if res["labels"].get(l, 0) == 0]
        if missing and not violations and not knownhit:
            tail = open(out + "/log").read()[-1500:]
            raise RuntimeError("run %s never reached %s (paths %d, truncated %d, unsupported %s)\n%s" % (
                r.name, missing, res["paths"], res["truncated"], res["unsupported_kinds"], tail))
    write_evidence(pid, tier, seed, P, results, violations, undec, knownhit, t0, build_s)
    for k, e in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for r in results:
        print("run %-40s paths %d (truncated %d) claims %d proved %d unknown %d queries %d solver %.1fs wall %.1fs labels %s %s" % (
            r["name"], r["paths"], r["truncated"], r["asserts"], r["asserts_proved"], r["asserts_unknown"], r["queries"], r["solver_s"], r["wall_s"], r["labels"], r["unsupported_kinds"] or ""))
    for u in undec:
        print("UNDECIDED " + u)
    for dst, name, msg, text in violations:
        print("violation detail: %s: claim '%s' fails natively: %s" % (name, msg, text))
    if violations:
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][0]))
        return 1
    print("OK property=%s" % pid)
    return 0


def write_evidence(pid, tier, seed, P, results, violations, undec, knownhit, t0, build_s):
    S = lambda k: sum(r[k] for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    own = [f for f in funcs if "CppAD" in f or f.startswith("cppadcg") or f.startswith("model") ]
    samples = []
    for r in results:
        samples += r["samples"][:4]
    if not samples:
        samples = ["run %s: %d paths, labels %s" % (r["name"], r["paths"], r["labels"]) for r in results]
    complete = all(r["truncated"] == 0 and r["crashed"] == 0 and not r["killed"] for r in results)
    cov = {
        "explanation": P["how"],
        "exhaustive": bool(complete),
        "bounds": P["bounds"],
        "functions_encoded": own[:150],
        "functions_encoded_count": len(own),
        "functions_encoded_all_count": len(funcs),
        "paths_completed": S("paths"), "paths_truncated": S("truncated"), "paths_outside_claim": S("skipped") + S("infeasible"),
        "symbolic_branches": S("branches"), "forks": S("forks"),
        "claims_checked": S("asserts"), "claims_proved": S("asserts_proved"), "claims_proved_by_normal_form": S("asserts_syntactic"), "claims_equal_up_to_constant_rounding": S("asserts_rounding"),
        "claims_on_concrete_values": S("asserts_const"), "claims_undecided": S("asserts_unknown"), "claims_outside_domain": sum(r.get("asserts_outside", 0) for r in results),
        "solver_queries": S("queries"), "solver_unsat": S("queries_unsat"), "solver_sat": S("queries_sat"), "solver_unknown": S("unknowns"),
        "solver_seconds": round(S("solver_s"), 2), "build_seconds": round(build_s, 1),
        "nonzero_divisor_assumptions": S("divassume"),
        "unsupported": sorted({u for r in results for u in r["unsupported_kinds"]}),
        "undecided": undec[:20],
        "native_paths_agreeing": S("native_ok"), "native_paths_disagreeing": S("native_bad"),
        "known_findings_seen": sorted(knownhit),
        "runs": [{k: r[k] for k in ("name", "opts", "paths", "truncated", "asserts", "asserts_proved", "queries", "solver_s", "wall_s", "labels", "maxdepth")} for r in results],
        "samples": samples[:12],
    }
    lvl = P["level"]
    if lvl == "model_checking":
        cov.update(states=S("paths"), transitions=S("branches"), traces_validated_against_impl=S("native_ok"))
    elif lvl == "translation_validation":
        cov.update(programs=max(S("programs"), 1), disagreements_checked=S("asserts"))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
