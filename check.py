#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY> quick|thorough     (or: --setup)

For one property: regenerate the encoding from /repo's current tree (clang -> LLVM IR -> symx-instr), build the
same harness natively (g++ + ASan) for replay, run the symbolic executor on every listed harness, replay every
counterexample against the native build, cross-validate sampled paths, write evidence/<id>.json.
exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("SYMX_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
Z3D = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"     # newer libz3; the system's is used when absent
NEWZ3 = os.path.exists(Z3D + "/lib/libz3.so") and os.path.exists(Z3D + "/include/z3.h")
Z3LINK = [Z3D + "/lib/libz3.so", "-Wl,-rpath," + Z3D + "/lib"] if NEWZ3 else ["-lz3"]
JOBS = int(os.environ.get("SYMX_JOBS", str(os.cpu_count() or 8)))
INC = ["-I" + V + "/symx", "-I" + V + "/harness"] + ["-I" + R + "/" + d for d in (
    ".", "include", "include/utils", "include/database", "include/operations", "include/flow", "cli", "cli/command",
    "libs/kitty/include", "libs/fmt", "libs/lorina", "libs/rang", "libs/abcsat", "libs/json", "libs/args",
    "libs/alice/include", "libs/alice/lib/cli11", "libs")] + \
    ["-isystem", R + "/libs/percy", "-isystem", R + "/libs/parallel_hashmap", "-w",
     "-DFMT_HEADER_ONLY", "-DDISABLE_NAUTY", "-DLIN64", "-DABC_NAMESPACE=pabc", "-DABC_NO_USE_READLINE", "-D_GLIBCXX_ASSERTIONS"]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def must(cmd, what):
    p = run(cmd)
    if p.returncode:
        raise RuntimeError(what + " failed: " + cmd[0] + "\n".join([""] + ([l for l in p.stdout.splitlines() if "error:" in l or "undefined reference" in l][:12] or p.stdout.splitlines()[-12:])))
    return p.stdout

def tools():
    os.makedirs(B, exist_ok=True)
    src = b"3" + b"".join(open(os.path.join(V, "symx", f), "rb").read() for f in ("instr.cpp", "expr.cpp", "expr.h", "runtime.cpp", "sym.h", "sym_native.cpp"))
    h = hashlib.sha256(src).hexdigest()
    st = os.path.join(B, "tools.stamp")
    if os.path.exists(st) and open(st).read() == h:
        return
    S = V + "/symx/"
    jobs = [(["bash", "-c", "g++ -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -std=c++17 %sinstr.cpp -o %s/symx-instr $(llvm-config-18 --ldflags) -lLLVM-18" % (S, B)], "instr"),
            (["g++", "-O2", "-w", "-std=c++17", "-I" + S + "streams", "-c", S + "expr.cpp", "-o", B + "/expr.o"], "expr"),
            (["g++", "-O2", "-w", "-std=c++17", "-I" + S + "streams"] + (["-I" + Z3D + "/include"] if NEWZ3 else []) + ["-c", S + "runtime.cpp", "-o", B + "/runtime.o"], "runtime"),
            (["g++", "-O1", "-w", "-std=c++17", "-c", S + "sym_native.cpp", "-o", B + "/sym_native.o"], "sym_native")]
    err = []
    def go(j):
        try: must(*j)
        except Exception as e: err.append(e)
    ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
    [t.start() for t in ts]; [t.join() for t in ts]
    if err: raise err[0]
    # the executor's own template instantiations must not be merged with the instrumented ones of the code under test
    must(["ld", "-r", "--force-group-allocation", B + "/runtime.o", B + "/expr.o", "-o", B + "/rt0.o"], "ld -r")
    weak = [l.split()[-1] for l in must(["nm", B + "/rt0.o"], "nm").splitlines() if l.split()[-2] in "WwVvu" and len(l.split()) == 3 and not l.split()[-1].startswith("DW.")]
    open(B + "/weak.txt", "w").write("\n".join(weak) + "\n")
    must(["objcopy", "--localize-symbols=" + B + "/weak.txt", B + "/rt0.o", B + "/rt.o"], "objcopy")
    open(st, "w").write(h)

def build_sym(src, out, flags):
    o = out + "/h"
    must(["clang++-18", "-std=c++17", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-idirafter", V + "/symx/stub"] + INC + flags + ["-emit-llvm", "-c", src, "-o", o + ".bc"], "clang")
    must(["opt-18", "-passes=function(lowerswitch)", o + ".bc", "-o", o + ".l.bc"], "opt")
    log = must([B + "/symx-instr", o + ".l.bc", o + ".i.bc", V + "/symx/safe_externals.txt"], "symx-instr")
    must(["llvm-split-18", "-j8", "-o", o + ".sp", o + ".i.bc"], "split")
    err = []
    def cg(i):
        try: must(["clang++-18", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-x", "ir", "-c", o + ".sp%d" % i, "-o", o + ".sp%d.o" % i], "codegen")
        except BaseException as e: err.append(e)
    ts = [threading.Thread(target=cg, args=(i,)) for i in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if err: raise err[0]
    must(["g++"] + [o + ".sp%d.o" % i for i in range(8)] + [B + "/rt.o", *Z3LINK, "-o", o + ".sym"], "link")
    return log

def build_native(src, out, flags):
    must(["g++", "-std=c++17", "-O0", "-g1", "-fsanitize=address", "-fopenmp"] + INC + flags + [src, B + "/sym_native.o", "-o", out + "/h.native"], "native build")

def build_native2(src, out, flags):
    """second native build, by the compiler the symbolic build uses: settles cases where g++ evaluates operands in another order"""
    if not os.path.exists(out + "/h.native2"):
        must(["clang++-18", "-std=c++17", "-O0", "-g1", "-fsanitize=address", "-w", "-idirafter", V + "/symx/stub"] + INC + flags + [src, B + "/sym_native.o", "-o", out + "/h.native2", "-lgomp"], "native build (clang)")

def native(out, harness, model, seed, tier, timeout=60, exe="h.native"):
    """-> (status, text); status in ok, assume, fail:<why>"""
    mf, of = out + "/m.%d" % threading.get_ident(), out + "/o.%d" % threading.get_ident()
    open(mf, "w").write(model)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0", OMP_NUM_THREADS="2")
    scratch = out + "/scratch.%d" % threading.get_ident()
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([out + "/" + exe, harness, mf, of, str(seed), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=scratch)
        rc, txt = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, txt = "timeout", ""
    o = open(of, errors="replace").read() if os.path.exists(of) else ""
    for f in (mf, of):
        if os.path.exists(f): os.unlink(f)
    shutil.rmtree(scratch, ignore_errors=True)
    if rc == 43: return "assume", o
    if rc == 0 and o.rstrip().endswith("DONE"): return "ok", o
    why = "timeout after %ds" % timeout if rc == "timeout" else ("check failed" if rc == 42 else "AddressSanitizer" if rc == 77 else "exit %s" % rc)
    return "fail:" + why, o + "\n" + "\n".join(txt.splitlines()[:60])

def main():
    if sys.argv[1] == "--setup":
        tools(); print("tools built"); return 0
    pid, tiername = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    import checks
    cfg = checks.CHECKS[pid]
    thorough = tiername == "thorough"
    tier = 1 if thorough else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tools()
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k.get("property") == pid and k.get("status") == "known"]
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, checks_symbolic=0, concretizations=0, assumed=0, quick_sat=0)
    runs, viols, knowns, problems, unconfirmed, samples, functions, validated = [], [], [], [], [], [], set(), 0
    shutil.rmtree(os.path.join(V, "out", pid), ignore_errors=True)
    deadline = t0 + (cfg.get("thorough_total", 800) if thorough else cfg.get("quick_total", 600))
    for src in sorted(set(r.get("src", cfg["src"]) for r in cfg["runs"])):
        out = os.path.join(B, pid + "-" + os.path.splitext(src)[0]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        flags = cfg.get("flags", [])
        nerr = []
        def nb():
            try: build_native(V + "/harness/" + src, out, flags)
            except Exception as e: nerr.append(e)
        th = threading.Thread(target=nb); th.start()
        log = build_sym(V + "/harness/" + src, out, flags + ["-I" + V + "/symx/streams"] * bool(cfg.get("streams")))
        for l in log.splitlines():
            if l.startswith("FN "): functions.add(l[3:])
        def second(go):
            try: build_native2(V + "/harness/" + src, out, flags); second.last = go()
            except Exception as e: second.last = ("unavailable", str(e))
            return second.last
        for r in [r for r in cfg["runs"] if r.get("src", cfg["src"]) == src]:
            if r.get("tier") == "thorough" and not thorough: continue
            if r.get("tier") == "quick" and thorough: continue
            h = r["h"]
            budget = min(r.get("thorough", 240) if thorough else r.get("quick", 60), max(5, deadline - time.time()))
            res = out + "/" + h + ".json"
            env = dict(os.environ, SYMX_MAXVIOL=str(r.get("maxviol", 40)))
            scratch = out + "/scratch"; os.makedirs(scratch, exist_ok=True)
            try: p = subprocess.run([out + "/h.sym", h, res, str(JOBS), str(budget), str(seed), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=budget + 120, cwd=scratch)
            except subprocess.TimeoutExpired: problems.append(h + ": executor did not stop"); continue
            if not os.path.exists(res): problems.append("%s: no result from executor (rc %s) %s" % (h, p.returncode, p.stdout.decode(errors="replace")[-300:])); continue
            try: d = json.load(open(res))
            except ValueError as e: problems.append("%s: bad executor result (%s)" % (h, e)); continue
            shutil.rmtree(scratch, ignore_errors=True)
            complete = d["started"] == d["procs"] + 1 and not any(d[k] for k in ("abandoned", "solver_timeouts", "oblig_unknown", "stopped", "engine_errors"))
            for k in tot: tot[k] += d[k]
            if d["engine_errors"]: problems.append("%s: engine error: %s" % (h, d["engine_msg"]))
            if d["extptr"]: problems.append("%s: symbolic memory reached unmodelled externals %s" % (h, d["extptr"]))
            for c in r.get("cover", []):
                if not d["cover"].get(c) and not d["violations"]:
                    problems.append("%s: vacuity witness '%s' not reached" % (h, c))
            if d["paths"] == 0 and not d["violations"]: problems.append(h + ": no path completed")
            th.join()
            if nerr: raise nerr[0]
            # cross-validation of sampled paths: the native build must show the same observations
            nval = 0
            for s in d["samples"][:(40 if thorough else r.get("validate", 12))]:
                st, o = native(out, h, s, seed, tier)
                want = [l for l in s.splitlines() if l.startswith("@")]
                got = [l for l in o.splitlines() if l.startswith("@")]
                if st == "ok" and got[:len(want)] == want: nval += 1
                elif st.startswith("fail"): d["violations"].append(dict(kind="native", label="native replay of a passing path fails", note="", model="\n".join(l for l in s.splitlines() if not l.startswith("@"))))
                elif second(lambda: native(out, h, s, seed, tier, exe="h.native2"))[0] == "ok" and [l for l in second.last[1].splitlines() if l.startswith("@")][:len(want)] == want: nval += 1
                else: problems.append("%s: symbolic path disagrees with native run (%s)\nwant %s\ngot  %s\n%s" % (h, st, want[:40], got[:40], s))
            validated += nval
            samples += [dict(harness=h, path_model=s.split("\n")[:60]) for s in d["samples"][:3]]
            for v in d["violations"]:
                st, o = native(out, h, v["model"], seed, tier, timeout=r.get("replay_timeout", 60))
                exe = "h.native"
                if not st.startswith("fail"):
                    st2, o2 = second(lambda: native(out, h, v["model"], seed, tier, timeout=r.get("replay_timeout", 60), exe="h.native2"))
                    if st2.startswith("fail"): st, o, exe = st2 + " (built by clang)", o2, "h.native2"
                notes = [l[5:] for l in o.splitlines() if l.startswith("NOTE ")]
                v["note"] = notes[-1] if notes else v["note"]
                if not st.startswith("fail"):
                    unconfirmed.append("%s: %s/%s (native: %s) note=%s model=%s" % (h, v["kind"], v["label"], st, v["note"], v["model"].replace("\n", " "))); continue
                m = re.findall(r"CHECK-FAIL (.*)", o)
                v["native"], v["native_label"] = st, (m[0] if m else st)
                k = next((k for k in known if k["harness"] == h and k["label"] in (v["label"], v["native_label"]) and re.search(k.get("note", ""), v["note"])), None)
                if k: knowns.append((k, v)); continue
                od = os.path.join(V, "out", pid); os.makedirs(od, exist_ok=True)
                f = os.path.join(od, "%s-%d.replay" % (h, len(viols)))
                open(f, "w").write("# property %s harness %s (%s)\n# %s: %s\n# input: %s\n# native replay: %s\n# reproduce: %s/%s %s <this file> /dev/stdout %d %d\n%s\n# native output:\n%s\n" % (
                    pid, h, src, v["kind"], v["label"], v["note"], st, out, exe, h, seed, tier, v["model"], "\n".join("# " + l.replace("=", ":") for l in o.splitlines()[:40])))
                viols.append((h, v, f))
            runs.append(dict(harness=h, bound=r.get("bound", ""), exhaustive_within_bound=complete, paths=d["paths"], pruned_by_assumption=d["assumed"], forks=d["forks"], solver_queries=d["queries"], sat=d["sat"], unsat=d["unsat"], unknown=d["unknown"], solver_s=d["solver_s"], obligations=d["checks"], obligations_symbolic=d["checks_symbolic"], paths_cross_validated=nval, wall_s=d["wall_s"], cover=d["cover"], counterexamples=len(d["violations"])))
            print("%s %s: %d paths, %d forks, %d queries (%.1fs solver), %d obligations, %s, %.1fs" % (pid, h, d["paths"], d["forks"], d["queries"], d["solver_s"], d["checks"], "exhausted the bound" if complete else "PARTIAL", d["wall_s"]), flush=True)
        th.join()
        if not os.environ.get("SYMX_KEEP"):
            for f in ["h.bc", "h.l.bc", "h.i.bc"] + ["h.sp%d%s" % (i, x) for i in range(8) for x in ("", ".o")]: 
                if os.path.exists(out + "/" + f): os.unlink(out + "/" + f)
    ev = dict(property=pid, tier=tiername, seed=seed, level=checks.LEVEL, wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=cfg.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=validated, samples=samples[:6] or ["none"],
                            states_meaning="completed symbolic paths (each decided for every value of its symbolic variables)", transitions_meaning="path segments between forks",
                            exhaustive=bool(runs) and all(r["exhaustive_within_bound"] for r in runs), solver="%s, bit-vectors, incremental, models validated" % checks.Z3VER,
                            solver_queries=tot["queries"], solver_sat=tot["sat"], solver_unsat=tot["unsat"], solver_unknown=tot["unknown"], solver_seconds=round(tot["solver_s"], 2),
                            obligations=tot["checks"], obligations_with_symbolic_condition=tot["checks_symbolic"], branches_decided_by_cached_model=tot["quick_sat"],
                            paths_cut_by_assumptions=tot["assumed"], functions_encoded_count=len(functions), functions_encoded=sorted(functions)[:400], runs=runs,
                            known_findings=sorted(set(k["id"] for k, _ in knowns)), unconfirmed_counterexamples=unconfirmed[:5], problems=problems[:10]))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/" + pid + ".json", "w"), indent=1)
    for k in known:
        if any(kk is k for kk, _ in knowns): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    seen = set()
    for h, v, f in viols:
        print("counterexample in %s: %s: %s | native: %s (%s) | input: %s" % (h, v["kind"], v["label"], v["native"], v["native_label"], v["note"]))
        if v["label"] not in seen:
            seen.add(v["label"]); print("VIOLATION property=%s replay=%s" % (pid, f))
    for u in unconfirmed[:10]: print("UNCONFIRMED " + u)
    for p in problems[:10]: print("PROBLEM " + p)
    if viols: return 1
    if problems or unconfirmed: return 2
    print("OK property=%s wall=%.1fs" % (pid, time.time() - t0))
    return 0

if __name__ == "__main__":
    try: rc = main()
    except Exception as e:
        print("CHECK-ERROR %s" % e); rc = 2
    sys.stdout.flush(); os._exit(rc)
