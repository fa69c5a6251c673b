#!/usr/bin/env python3
"""Decide one property: compile /repo's current sources to LLVM IR, execute the
property's harnesses symbolically (engine/vpsym), replay every solver model
against a native AddressSanitizer build of the same sources, write the evidence.

  vp.py check C01 [--tier quick|thorough] [--keep]
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLANG = "clang++-18"
INC = ["-I" + SRC, "-I" + os.path.join(V, "harness", "mock"),  "-I" + os.path.join(V, "engine"), "-I" + os.path.join(V, "harness"), "-I/usr/include/eigen3", "-idirafter" + REPO]
EIG = glob.glob(os.path.join(REPO, "lib", "*igen*"))
COMMON = ["-std=c++11", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-w"] + INC
BC = ["-O1", "-fno-pic", "-fno-pie", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c"]
NAT = ["-O1", "-g1", "-ffunction-sections", "-fdata-sections", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"]
CORE = "ults shortest_path path factory dlink dnode vehicle od cc_tree".split()
BUILTIN_IDS = {"memory", "exception", "terminate", "exit", "hang", "divzero", "unreachable"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def meta(path):
    m = {"sources": [], "reach": [], "bounds": [], "time": "", "stubs": [], "flags": []}
    for line in open(path):
        r = re.match(r"// vp-(\w+): (.*)", line)
        if r:
            k, v = r.group(1), r.group(2).strip()
            if k in ("sources", "reach", "flags"):
                m[k] += CORE + v.split()[1:] if k == "sources" and v.split()[:1] == ["core"] else v.split()
            elif k in ("bounds", "stubs"):
                m[k].append(v)
            else:
                m[k] = v
    return m


class Fail(Exception):
    pass


def compile_all(jobs, work):
    def one(j):
        kind, src, out, flags = j
        cmd = [CLANG] + COMMON + (BC if kind == "bc" else NAT) + flags + [src, "-o", out]
        r = sh(cmd)
        return j, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(8) as ex:
        for j, rc, out in ex.map(one, jobs):
            if rc:
                raise Fail("compilation of %s failed:\n%s" % (j[1], out[-3000:]))


def main():
    if len(sys.argv) < 3 or sys.argv[1] != "check":
        print(__doc__)
        return 2
    pid = sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        return run(pid, tier, seed, work, t0)
    except Fail as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def native_env(extra):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:allocator_may_return_null=1"
    e["VP_TIER_N"] = extra["tier"]
    e["VP_REPLAY"] = extra["replay"]
    e["VP_OUT"] = extra["out"]
    return e


def native_run(exe, replay, tier, work, timeout=20):
    out = os.path.join(work, "nat_%s.txt" % hashlib.md5(replay.encode()).hexdigest()[:12])
    env = native_env({"tier": "1" if tier == "thorough" else "0", "replay": replay, "out": out})
    hang = False
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=work)
        rc, err = r.returncode, r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, err, hang = 124, "timeout", True
    lines = open(out).read().splitlines() if os.path.exists(out) else []
    viol = [l[5:] for l in lines if l.startswith("VIOL ")]
    obs = [l.split() for l in lines if l.startswith("OBS ")]
    div = any(l.startswith(("DIVERGED", "ASSUME_FAILED")) for l in lines)
    return {"rc": rc, "viol": viol, "obs": obs, "diverged": div, "hang": hang, "err": err, "end": "END" in lines}


def confirms(vid, n):
    """does the native run n show the violation the solver predicted?"""
    if vid in BUILTIN_IDS:
        if vid == "hang":
            return n["hang"] or (n["rc"] not in (0, 3, 77))
        if vid == "exit":
            return not n["end"] and n["rc"] != 77 and not n["hang"]
        return n["rc"] not in (0, 3, 77) and not n["hang"]
    return vid in n["viol"]


def run(pid, tier, seed, work, t0):
    r = sh(["bash", os.path.join(V, "engine", "build.sh")])
    if r.returncode:
        raise Fail("engine build failed:\n" + r.stdout[-3000:])
    vpsym = os.path.join(V, "build", "vpsym")
    hs = sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp")))
    if not hs:
        raise Fail("no harness for " + pid)
    metas = {h: meta(h) for h in hs}
    srcs = []
    for h in hs:
        for s in metas[h]["sources"]:
            if s not in srcs:
                srcs.append(s)
    avail = {os.path.basename(p)[:-4] for p in glob.glob(SRC + "/*.cpp")}
    srcs = [s for s in srcs if s in avail]

    def jobs_for(names):
        js = []
        for s in names:
            js.append(("bc", "%s/%s.cpp" % (SRC, s), "%s/%s.bc" % (work, s), []))
            js.append(("nat", "%s/%s.cpp" % (SRC, s), "%s/%s.o" % (work, s), []))
        return js
    js = jobs_for(sorted(srcs, key=lambda s: -os.path.getsize("%s/%s.cpp" % (SRC, s))))
    js.append(("bc", V + "/engine/vp_rt.cpp", work + "/vp_rt.bc", ["-std=c++17"]))
    js.append(("nat", V + "/engine/vp_native.cpp", work + "/vp_native.o", []))
    for h in hs:
        b = os.path.basename(h)[:-4]
        fl = ["-fno-access-control"] + metas[h]["flags"]
        js.append(("bc", h, "%s/%s.bc" % (work, b), fl))
        js.append(("nat", h, "%s/%s.o" % (work, b), fl))
    compile_all(js, work)

    def link(h, names):
        b = os.path.basename(h)[:-4]
        need = set(metas[h]["sources"]) & avail if metas[h]["sources"] else set(names)
        need |= set(extra)
        bcs = ["%s/%s.bc" % (work, s) for s in sorted(need)]
        r = sh(["llvm-link-18", "%s/%s.bc" % (work, b), work + "/vp_rt.bc"] + bcs + ["-o", "%s/%s_l.bc" % (work, b)])
        if r.returncode:
            raise Fail("llvm-link: " + r.stdout[-2000:])
        r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=vp_main",
                "%s/%s_l.bc" % (work, b), "-o", "%s/%s_m.bc" % (work, b)])
        if r.returncode:
            raise Fail("opt: " + r.stdout[-2000:])
        r2 = sh([CLANG, "-fsanitize=address", "-Wl,--gc-sections", "%s/%s.o" % (work, b), work + "/vp_native.o"] +
                ["%s/%s.o" % (work, s) for s in sorted(need)] + ["-o", "%s/%s.exe" % (work, b)])
        return r2
    extra = []
    exes = {}
    for h in hs:
        r = link(h, srcs)
        if r.returncode and not extra:
            # a change made the code depend on other units: take them all
            if os.environ.get("VP_DEBUG"):
                print(r.stdout[-1500:])
            extra = sorted((avail - {"multimodal"}) | set(srcs))
            compile_all(jobs_for([s for s in extra if not os.path.exists("%s/%s.o" % (work, s))]), work)
            r = link(h, srcs)
        if r.returncode:
            raise Fail("native link of %s failed:\n%s" % (h, r.stdout[-3000:]))
    t_build = time.time() - t0

    known = {}
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == pid:
                known[(e["harness"], e["assertion"])] = e

    total = {}
    funcs, lines, samples_out, parts = set(), {}, [], []
    confirmed, unconfirmed, knownhits, errors, missing_reach = [], [], {}, [], []
    validated = mism = 0
    crosschecked = []
    for h in hs:
        b = os.path.basename(h)[:-4]
        m = metas[h]
        out = "%s/out_%s" % (work, b)
        os.mkdir(out)
        tl = m["time"].split() if m["time"] else []
        limit = float(tl[1] if tier == "thorough" and len(tl) > 1 else tl[0]) if tl else (240 if tier == "quick" else 3000)
        if tier == "quick":     # the whole quick check answers within its 900 s, whatever the machine
            limit = max(20, min(limit, 800 - (time.time() - t0) - 10 * (len(hs) - 1 - hs.index(h))))
        cmd = [vpsym, "%s/%s_m.bc" % (work, b), "--out=" + out, "--time=%g" % limit,
               "--tier=%d" % (tier == "thorough"), "--samples=%d" % (24 if tier == "quick" else 60),
               "--dump=%d" % (0 if tier == "quick" else 40), "--jobs=8"]
        if m.get("steps"):
            cmd.append("--steps=" + m["steps"])
        if m.get("rlimit"):
            cmd.append("--rlimit=" + m["rlimit"])
        if m.get("land"):
            cmd.append("--land=" + m["land"])
        if m.get("paths"):
            cmd.append("--paths=" + m["paths"])
        e = dict(os.environ, VERIF_SEED=str(seed))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=work)
        if not os.path.exists(out + "/stats.json"):
            raise Fail("engine failed on %s: %s" % (b, r.stdout[-2000:]))
        print("%s: %s" % (b, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""))
        st = json.load(open(out + "/stats.json"))
        funcs |= set(st.pop("functions"))
        for f, n in st.pop("lines").items():
            lines[f] = max(lines.get(f, 0), n)
        for k, v in st.items():
            total[k] = (max if k == "max_depth" else lambda a, c: a + c)(total.get(k, 0), v)
        if os.path.exists(out + "/errors.txt"):
            ce = {}
            for l in open(out + "/errors.txt").read().splitlines():
                ce[l] = ce.get(l, 0) + 1
            errors += ["%s: %s (x%d)" % (b, k, v) for k, v in list(ce.items())[:20]]
        reach = set(open(out + "/reach.txt").read().split()) if os.path.exists(out + "/reach.txt") else set()
        miss = [x for x in m["reach"] if x not in reach]
        missing_reach += [b + ":" + x for x in miss]
        parts.append({"harness": os.path.basename(h), "paths": st["paths"], "queries": st["queries"], "asserts": st["asserts"],
                      "asserts_solver": st["asserts_solver"], "wall_s": st["wall_s"], "solver_s": st["solver_s"],
                      "out_of_time": st["out_of_time"], "aborted": st["aborted"], "witnesses_reached": sorted(reach)})
        exe = "%s/%s.exe" % (work, b)
        # replay counterexamples
        byid = {}
        for vf in sorted(glob.glob(out + "/viol_*.txt")):
            txt = open(vf).read()
            vid = txt.splitlines()[0][5:]
            byid.setdefault(vid, []).append((vf, txt))
        for vid, fs in sorted(byid.items()):
            ok = False
            for vf, txt in fs[:12]:
                n = native_run(exe, vf, tier, work)
                if confirms(vid, n):
                    ok = True
                    dst = os.path.join(V, "evidence", "replay", pid)
                    os.makedirs(dst, exist_ok=True)
                    name = "%s_%s.txt" % (b, re.sub(r"\W+", "_", vid)[:60])
                    with open(os.path.join(dst, name), "w") as fo:
                        fo.write("HARNESS %s\n" % os.path.basename(h) + txt)
                        fo.write("NATIVE rc=%d violations=%s\n" % (n["rc"], n["viol"]))
                        fo.write("NATIVE-STDERR " + n["err"][:1500].replace("\n", "\nNATIVE-STDERR ") + "\n")
                    detail = next((l for l in txt.splitlines() if l.startswith("DETAIL")), "")
                    rec = (b, vid, os.path.join("evidence", "replay", pid, name), detail)
                    if (b, vid) in known:
                        knownhits[(b, vid)] = known[(b, vid)]
                    else:
                        confirmed.append(rec)
                    break
            if not ok:
                unconfirmed.append("%s:%s (%d models did not reproduce natively; %s)" % (b, vid, min(len(fs), 12), fs[0][1].splitlines()[1][:200]))
        # validate the translation: native run of sampled models must agree
        for sf in sorted(glob.glob(out + "/sample_*.txt")):
            txt = open(sf).read()
            rounded = "ROUNDED 1" in txt
            n = native_run(exe, sf, tier, work)
            pred = [l.split() for l in txt.splitlines() if l.startswith("OBS ")]
            bad = n["viol"]
            if bad:
                for vid in bad:
                    if (b, vid) in known:
                        knownhits[(b, vid)] = known[(b, vid)]
                    elif rounded and vid not in byid:
                        errors.append("%s: native run of a sampled model fails %s" % (b, vid))
                        dst = os.path.join(V, "evidence", "replay", pid)
                        os.makedirs(dst, exist_ok=True)
                        shutil.copy(sf, os.path.join(dst, b + "_sample.txt"))
                        confirmed.append((b, vid, os.path.join("evidence", "replay", pid, b + "_sample.txt"), "native run of a sampled model"))
                    elif vid not in byid:
                        dst = os.path.join(V, "evidence", "replay", pid)
                        os.makedirs(dst, exist_ok=True)
                        shutil.copy(sf, os.path.join(dst, b + "_sample.txt"))
                        confirmed.append((b, vid, os.path.join("evidence", "replay", pid, b + "_sample.txt"), "native run of a sampled model"))
            agree = len(pred) == len(n["obs"]) and n["end"] and all(
                p[1] == q[1] and abs(float(p[2]) - float(q[2])) <= (1e-6 * max(1, abs(float(p[2]))) if rounded else 0)
                for p, q in zip(pred, n["obs"]))
            if agree:
                validated += 1
                if len(samples_out) < 6:
                    samples_out.append({"harness": b, "inputs": [l[3:] for l in txt.splitlines() if l.startswith("IN ")][:60],
                                        "observed": [" ".join(p[1:]) for p in pred][:30]})
            elif rounded or n["diverged"]:
                pass
            else:
                mism += 1
                d = [(p, q) for p, q in zip(pred, n["obs"]) if p != q][:3]
                errors.append("%s: native run disagrees with the symbolic path (%s): rc=%d %s %s" % (b, os.path.basename(sf), n["rc"], d, n["err"][:300]))
                if os.environ.get("VP_DEBUG"):
                    shutil.copy(sf, "/tmp/mismatch.txt")
        # second solver on dumped obligations
        for q in sorted(glob.glob(out + "/q_*.smt2")):
            for name, c in (("cvc5", ["cvc5", "--tlimit=20000", q]), ("z3-new", ["z3-new", "-T:20", q])):
                rr = sh(c)
                ans = rr.stdout.strip().splitlines()[-1] if rr.stdout.strip() else "none"
                crosschecked.append((name, ans if ans in ("sat", "unsat") else "no answer"))
                if ans == "sat":
                    errors.append("second solver %s disagrees on %s" % (name, os.path.basename(q)))
    incomplete = total.get("out_of_time", 0) > 0 or total.get("aborted", 0) > 0 or total.get("inconclusive", 0) > 0
    cc = {}
    for nme, a in crosschecked:
        cc[nme + ":" + a] = cc.get(nme + ":" + a, 0) + 1
    cov = {
        "states": total.get("paths", 0) + total.get("forks", 0),
        "transitions": total.get("branches", 0),
        "traces_validated_against_impl": validated,
        "samples": samples_out or ["none"],
        "exhaustive": not incomplete,
        "symbolic_paths_completed": total.get("paths", 0),
        "paths_pruned_infeasible": total.get("infeasible", 0),
        "paths_aborted": total.get("aborted", 0),
        "exploration_cut_by_budget": total.get("out_of_time", 0),
        "obligations_checked": total.get("asserts", 0),
        "obligations_decided_by_solver_query": total.get("asserts_solver", 0),
        "obligations_constant_on_path": total.get("asserts_constant", 0),
        "solver_queries": total.get("queries", 0),
        "queries_sat": total.get("sat", 0), "queries_unsat": total.get("unsat", 0), "queries_unknown": total.get("unknown", 0),
        "solver_time_s": round(total.get("solver_s", 0), 2),
        "ir_instructions_executed": total.get("steps", 0),
        "functions_encoded": sorted(f for f in funcs),
        "source_lines_encoded": {os.path.relpath(k, REPO): v for k, v in sorted(lines.items())},
        "bounds": [x for h in hs for x in metas[h]["bounds"]],
        "stubs": sorted({x for h in hs for x in metas[h]["stubs"]} | {"rand() returns an arbitrary value in [0, RAND_MAX]", "console output is discarded"}),
        "harnesses": parts,
        "second_solver": cc,
        "counterexamples_not_reproduced": unconfirmed,
        "errors": errors[:40],
        "reach_witnesses_missing": missing_reach,
        "known_findings_seen": sorted("%s/%s" % k for k in knownhits),
        "build_s": round(t_build, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cov["stubs"] + [
              "LLVM IR of clang 18 -O1 stands for the build's gcc binary; every reported violation is re-run natively",
              "doubles on a dyadic grid are exact, others are over-approximated within IEEE round-to-nearest error",
              "memory allocation does not fail"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, e in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for e in errors[:10]:
        print("NOTE:", e[:600])
    for u in unconfirmed:
        print("UNCONFIRMED:", u)
    print("%s %s: build %.1fs total %.1fs validated=%d mismatches=%d functions=%d%s" % (
        pid, tier, t_build, time.time() - t0, validated, mism, len(funcs), " INCOMPLETE" if incomplete else ""))
    if confirmed:
        for b, vid, path, detail in confirmed:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s/%s %s" % (b, vid, detail[:300]))
        return 1
    if missing_reach and not total.get("out_of_time", 0):
        print("ERROR: vacuous, witness not reached: " + " ".join(missing_reach))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
