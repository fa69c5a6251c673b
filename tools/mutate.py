#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, used by no check).
usage: mutate.py PID N SEED [--par K] [--jobs J] FILE:FUNCREGEX ...
Applies small edits to the bodies of the functions named, one at a time, in a scratch copy of /repo's sources
and reports which of them no harness of PID notices."""
import glob, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vp
R = vp.REPO

def bodies(text, rx):
    """line ranges of functions whose qualified name matches rx (GNU style: name at line start, body in column-0 braces)"""
    L = text.split("\n"); out = []; i = 0
    if re.match(r"\d+-\d+$", rx): return [(int(rx.split("-")[0]) - 1, int(rx.split("-")[1]))]
    while i < len(L):
        if re.match(rx, L[i]):
            j = i
            while j < len(L) and L[j] not in ("{",) and not L[j].endswith(";") and not L[j].endswith("}"): j += 1
            if j < len(L) and L[j] == "{":
                k = j
                while L[k] != "}": k += 1
                out.append((j + 1, k)); i = k
        i += 1
    return out

OPS = [(r"(?<![-<>=!+*/&|])<(?![<=\w])(?= )", "<="), (r"(?<![-<>])>(?![>=\w])(?= )", ">="), (r"<=", "<"), (r"(?<!-)>=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="),
       (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\.front \(\)", ".back ()"), (r"push_back\b", "push_front"),
       (r"pop_front", "pop_back"), (r"_car\b", "_truck"), (r"_truck\b", "_car"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"Incoming", "Outgoing"), (r"Outgoing", "Incoming"),
       (r"N_in\b", "N_out"), (r"N_out\b", "N_in"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"!(?=\w)", ""), (r"m_unit_time", "m_unit_time / 2"), (r"m_flow_scalar", "1"), (r"std::floor", "std::ceil")]

def path(r, f): return os.path.join(r, f if f.startswith('macposts/') else 'src/' + f)

def mutants(spec):
    res = []
    for sp in spec:
        f, rx = sp.split(":", 1)
        p = path(R, f); t = open(p).read(); L = t.split("\n")
        bs = bodies(t, rx)
        if not bs: print("no body for", sp)
        for a, b in bs:
            for n in range(a, b):
                s = L[n]
                if s.strip().startswith(("//", "printf", "std::cout", "*")) or "printf" in s: continue
                code = s.split("//")[0]
                for o, r in OPS:
                    for m in re.finditer(o, code):
                        res.append((f, n, s[:m.start()] + r + s[m.end():]))
                # statement deletion
                if re.match(r"\s+[\w\->.\[\]() *&:]+;\s*$", code) and not re.match(r"\s+(return|T\w+|int|auto|break|continue|std::|MNM_\w+ )", code):
                    res.append((f, n, re.sub(r"\S.*", ";", s)))
    return res

def main():
    a = sys.argv[1:]
    par = int(a[a.index("--par") + 1]) if "--par" in a else 2
    jobs = int(a[a.index("--jobs") + 1]) if "--jobs" in a else 4
    for o in ("--par", "--jobs"):
        if o in a: k = a.index(o); del a[k:k + 2]
    pid, N, seed, spec = a[0], int(a[1]), int(a[2]), a[3:]
    ms = sorted(set(mutants(spec))); random.Random(seed).shuffle(ms)
    print(pid, "mutants available", len(ms), flush=True); ms = ms[:N]
    top = tempfile.mkdtemp(prefix="mut_%s_" % pid)
    hs = sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp"))); metas = {h: vp.meta(h) for h in hs}
    srcs = sorted({s for h in hs for s in metas[h]["sources"]})
    base = top + "/base"; os.mkdir(base)
    INC0 = list(vp.COMMON)
    def comp(src, out, kind, flags, inc):
        com = [x.replace("-I" + R, "-I" + inc, 1) if x.startswith("-I" + R) else x.replace(R, inc) if x.startswith("-idirafter") else x for x in INC0]
        r = vp.sh([vp.CLANG] + com + (vp.BC if kind == "bc" else vp.NAT) + flags + [src, "-o", out]); return r.returncode, r.stdout
    js = []
    for s in srcs: js += [(R + "/src/%s.cpp" % s, "%s/%s.bc" % (base, s), "bc", []), (R + "/src/%s.cpp" % s, "%s/%s.o" % (base, s), "nat", [])]
    js += [(V + "/engine/vp_rt.cpp", base + "/vp_rt.bc", "bc", ["-std=c++17"]), (V + "/engine/vp_native.cpp", base + "/vp_native.o", "nat", [])]
    for h in hs:
        b = os.path.basename(h)[:-4]; fl = ["-fno-access-control"] + metas[h]["flags"]
        js += [(h, "%s/%s.bc" % (base, b), "bc", fl), (h, "%s/%s.o" % (base, b), "nat", fl)]
    with cf.ThreadPoolExecutor(par * jobs) as ex:
        for rc, o in ex.map(lambda j: comp(j[0], j[1], j[2], j[3], R), js): assert rc == 0, o[-2000:]
    def one(im):
        i, (f, n, new) = im
        w = "%s/m%d" % (top, i); os.mkdir(w); shutil.copytree(R + "/src", w + "/src"); shutil.copytree(R + "/macposts", w + "/macposts")
        L = open(path(w, f)).read().split("\n"); old = L[n]; L[n] = new; open(path(w, f), "w").write("\n".join(L))
        desc = "%s:%d  %s  =>  %s" % (f, n + 1, old.strip(), new.strip())
        try:
            todo = [j for j in js if (f.endswith(".h") and "/engine/" not in j[0]) or (f.startswith("macposts/") and j[0] in hs) or j[0].endswith("/" + f)]
            o = {}
            for j in todo:
                src = j[0].replace(R + "/src/", w + "/src/"); out = j[1].replace(base, w)
                rc, e = comp(src, out, j[2], j[3], w)
                if rc: return desc, "nocompile"
                o[j[1]] = out
            g = lambda p: o.get(p, p)
            t0 = time.time()
            for h in hs:
                b = os.path.basename(h)[:-4]; need = sorted(set(metas[h]["sources"]))
                r = vp.sh(["llvm-link-18", g("%s/%s.bc" % (base, b)), base + "/vp_rt.bc"] + [g("%s/%s.bc" % (base, s)) for s in need] + ["-o", w + "/l.bc"])
                r = vp.sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=vp_main", w + "/l.bc", "-o", w + "/m.bc"])
                exe = w + "/" + b + ".exe"
                vp.sh([vp.CLANG, "-fsanitize=address", "-Wl,--gc-sections", g("%s/%s.o" % (base, b)), base + "/vp_native.o"] + [g("%s/%s.o" % (base, s)) for s in need] + ["-o", exe])
                out = w + "/out_" + b; os.mkdir(out); m = metas[h]
                cmd = [V + "/build/vpsym", w + "/m.bc", "--out=" + out, "--time=%s" % (m["time"].split()[0] if m["time"] else 240), "--tier=0", "--samples=8", "--dump=0", "--jobs=%d" % jobs]
                for k in ("steps", "rlimit", "land", "paths"):
                    if m.get(k): cmd.append("--%s=%s" % (k, m[k]))
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=w, env=dict(os.environ, VERIF_SEED="1"), start_new_session=True)
                seen = set(); hit = None
                while hit is None:
                    done = p.poll() is not None
                    for vf in sorted(glob.glob(out + "/viol_*.txt")) + (sorted(glob.glob(out + "/sample_*.txt")) if done else []):
                        if vf in seen: continue
                        try: vid = open(vf).read().splitlines()[0][5:]
                        except IndexError: continue
                        seen.add(vf)
                        nn = vp.native_run(exe, vf, "quick", w)
                        if "viol_" in vf and vp.confirms(vid, nn): hit = vid; break
                        if "sample_" in vf and nn["viol"]: hit = nn["viol"][0]; break
                    if done: break
                    time.sleep(0.3)
                if p.poll() is None:
                    os.killpg(p.pid, 9); p.wait()
                if hit: return desc, "caught %s/%s %.0fs" % (b, hit, time.time() - t0)
                reach = set(open(out + "/reach.txt").read().split()) if os.path.exists(out + "/reach.txt") else set()
                miss = [x for x in m["reach"] if x not in reach]
                if miss: return desc, "VACUOUS %s %s" % (b, miss)
            return desc, "SURVIVED %.0fs" % (time.time() - t0)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    c = {}
    with cf.ThreadPoolExecutor(par) as ex:
        for fu in cf.as_completed([ex.submit(one, im) for im in enumerate(ms)]):
            d, r = fu.result(); k = r.split()[0]; c[k] = c.get(k, 0) + 1
            if k != "nocompile": print(r, "|", d, flush=True)
    print(pid, c)
    shutil.rmtree(top, ignore_errors=True)
main()
