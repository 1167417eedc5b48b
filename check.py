#!/usr/bin/env python3
"""Solver-based checks of /repo.  Usage: check.py <PROPERTY> [--tier quick|thorough]
   [--only HARNESS[:VARIANT]] [--keep]

For every harness /verif/harness/<PROPERTY>_*.c (and every variant of its header) the
real sources of /repo are compiled by goto-cc together with the harness and its
environment models, CBMC encodes all paths within the stated bounds as one formula
and its SAT back end decides every assertion.  Assertions that can fail are replayed:
the solver's values are fed to the same harness compiled natively (gcc, ASan+UBSan)
against the same sources, and only what reproduces is reported.
Exit 0: held; 1: VIOLATION; 2: no answer."""
import sys, os, re, json, glob, time, shutil, subprocess, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
T0 = time.time()
BUDGET = {"quick": int(os.environ.get("VP_BUDGET", "840")), "thorough": 6 * 3600}
MAXTRACE = 14

CBMC_FLAGS = ["--no-malloc-may-fail", "--drop-unused-functions", "--no-standard-checks",
              "--bounds-check", "--pointer-check",
              "--div-by-zero-check", "--unwinding-assertions", "--object-bits", "10", "--verbosity", "8"]
NATIVE = ["-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern", "-g", "-O1", "-w", "-fcommon", "-fsanitize=address,undefined",
          "-fno-sanitize=alignment,shift,signed-integer-overflow,pointer-overflow,bool,enum",
          "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, **kw)

class Fail(Exception):
    pass

def load_header(path):
    txt = open(path).read()
    m = re.search(r"/\*VP(.*?)VP\*/", txt, re.S)
    if not m:
        raise Fail("no VP header in " + path)
    return json.loads(m.group(1))

class Job:
    def __init__(s, prop, path, hdr, vname, v, tier, root):
        s.prop, s.path, s.tier = prop, path, tier
        s.h = dict(hdr)
        for k, x in v.items():
            if k == "unwindset":
                u = dict(s.h.get("unwindset", {})); u.update(x); s.h["unwindset"] = u
            elif k == "defs":
                s.h["defs"] = list(s.h.get("defs", [])) + list(x)
            else:
                s.h[k] = x
        s.name = os.path.basename(path)[:-2] + (":" + vname if vname else "")
        s.dir = os.path.join(root, s.name.replace(":", "-"))
        os.makedirs(s.dir)
        s.res = {"harness": s.name, "defs": s.h.get("defs", []), "bounds": s.h.get("bounds", ""),
                 "functions": [], "stubs": s.h.get("stubs", []), "assumptions": s.h.get("assumptions", []),
                 "props_total": 0, "props_ok": 0, "props_failed": [], "unwinding_failed": [],
                 "witness_ok": [], "witness_missing": [], "witness_replayed": 0, "no_body": [],
                 "ssa_steps": 0, "vccs": 0, "vccs_remaining": 0, "variables": 0, "clauses": 0, "solver_s": 0.0,
                 "wall_s": 0.0, "violations": [], "unconfirmed": [], "status": "?"}

    # ---- build -----------------------------------------------------------------
    def gen(s):
        g = os.path.join(s.dir, "src")
        os.makedirs(g)
        for f in glob.glob(REPO + "/*.[ch]"):
            shutil.copy(f, g)
        for fn, pat, rep in s.h.get("sed", []):
            p = os.path.join(g, fn)
            if os.path.exists(p):
                t = open(p, errors="surrogateescape").read()
                t = re.sub(pat, rep, t)
                open(p, "w", errors="surrogateescape").write(t)
        return g

    def files(s, g):
        fs = [s.path, V + "/models/vp_rt.c", V + "/models/libc.c"]
        fs += [V + "/models/" + m for m in s.h.get("models", [])]
        fs += [os.path.join(g, f) for f in s.h["srcs"]]
        return fs

    def cc_flags(s, g):
        fl = ["-DHAVE_CONFIG_H", "-DNODOWNLOAD", "-I" + V + "/include", "-I" + V + "/models", "-I" + V + "/harness", "-I" + g]
        fl += ["-D" + d for d in s.h.get("defs", [])]
        return fl

    def renames(s, f):
        """{"name": "new"} in every repo file, {"name@file.c": "new"} in one"""
        out = []
        for k, d in s.h.get("rename", {}).items():
            n, _, only = k.partition("@")
            if not only or only == os.path.basename(f):
                out.append("-D%s=%s" % (n, d))
        return out

    def build_goto(s, g):
        objs = []
        for k, f in enumerate(s.files(g)):
            o = os.path.join(s.dir, "o%d.gb" % k)
            cmd = ["goto-cc", "-DVP_CBMC"] + (["-DVP_STRICT"] if os.environ.get("VP_STRICT") else []) + [ "-c", "-w"] + s.cc_flags(g)
            own = f.startswith(V)
            if not own:
                cmd += s.renames(f)
            r = sh(cmd + ["-o", o, f])
            if r.returncode != 0:
                raise Fail("goto-cc failed on %s:\n%s" % (f, r.stdout.decode(errors="replace")[-3000:]))
            objs.append(o)
        s.gb = os.path.join(s.dir, "all.gb")
        r = sh(["goto-cc", "-o", s.gb, "--function", "vp_harness"] + objs)
        if r.returncode != 0:
            raise Fail("goto-cc link failed:\n" + r.stdout.decode(errors="replace")[-3000:])

    def loops(s):
        r = sh(["cbmc", "--show-loops", s.gb])
        return re.findall(r"^Loop (\S+):", r.stdout.decode(errors="replace"), re.M)

    def selection(s):
        """Everything except comparisons of pointers beyond an object: undefined by the letter,
        without effect on any target, and idiomatic in this code base (p + n > end)."""
        r = sh(["cbmc", s.gb, "--show-properties"] + CBMC_FLAGS + s.h.get("cbmc", []))
        sel, name = [], None
        for ln in r.stdout.decode(errors="replace").split("\n"):
            m = re.match(r"^Property (\S+):", ln)
            if m: name = m.group(1); lines = 0; continue
            if name is not None:
                lines += 1
                if lines == 2:
                    if not ln.strip().startswith(("pointer relation", "same object violation")):
                        sel.append(name)
                    name = None
        return sel

    def val(s, n):
        """a bound is a number or an expression over the variant's defs"""
        if isinstance(n, int): return n
        d = dict(x.split("=", 1) for x in s.h.get("defs", []) if "=" in x)
        for _ in range(4):
            n = re.sub(r"[A-Za-z_]\w*", lambda m: "(%s)" % d[m.group(0)], n)
        return int(eval(n, {"__builtins__": {}}))

    def unwindset(s, scale=1, boosted=None):
        out = {}
        pats = s.h.get("unwindset", {})
        for l in s.lps:
            fn = l.rsplit(".", 1)[0]
            for p, n in pats.items():
                if re.fullmatch(p, l) or re.fullmatch(p, fn) or re.fullmatch(p, re.sub(r"\$link\d+$", "", fn)):
                    out[l] = s.val(n)
        for l, n in (boosted or {}).items():
            out[l] = n
        return out

    # ---- run cbmc --------------------------------------------------------------
    def run_cbmc(s, extra, deadline, boosted=None, trace=True):
        us = s.unwindset(boosted=boosted)
        cmd = ["cbmc", s.gb, "--unwind", str(s.val(s.h.get("unwind", 10)))] + CBMC_FLAGS + s.h.get("cbmc", [])
        if us:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in us.items())]
        if trace:
            cmd += ["--trace"]
        if not extra:
            if not hasattr(s, "sel"): s.sel = s.selection()
            extra = sum([["--property", p] for p in s.sel], [])
        s.cmd = cmd
        cmd = cmd + extra
        mem = int(s.h.get("mem_gb", 10)) << 20
        full = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % mem, "x"] + cmd
        p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        s.proc = p
        left = deadline - time.time()
        timer = threading.Timer(max(1, left), lambda: os.killpg(p.pid, signal.SIGKILL))
        timer.start()
        results, traces, cur, nobody, tail = {}, {}, None, set(), []
        complete = False
        try:
            for raw in p.stdout:
                ln = raw.decode(errors="replace").rstrip("\n")
                if cur is None:
                    tail.append(ln); tail = tail[-40:]
                m = re.match(r"^\[(\S+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", ln)
                if m:
                    results[m.group(1)] = (m.group(4), m.group(5), m.group(2) or "", m.group(3) or "")
                    continue
                m = re.match(r"^Trace for (\S+):", ln)
                if m:
                    if len(traces) >= MAXTRACE + 12:
                        complete = True
                        os.killpg(p.pid, signal.SIGKILL); break
                    cur = m.group(1); traces[cur] = []
                    continue
                if cur is not None:
                    m = re.match(r"^\s+vp_nd(?:8|16|32)=(\d+)", ln)
                    if m:
                        traces[cur].append(int(m.group(1)))
                    elif ln.startswith("VERIFICATION") or ln.startswith("** "):
                        complete = True
                    continue
                if ln.startswith("VERIFICATION"):
                    complete = True
                m = re.search(r"no body for (?:callee|function) (\S+)", ln)
                if m:
                    nobody.add(m.group(1))
                m = re.search(r"size of program expression: (\d+) steps", ln)
                if m: s.res["ssa_steps"] = int(m.group(1))
                m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", ln)
                if m: s.res["vccs"], s.res["vccs_remaining"] = int(m.group(1)), int(m.group(2))
                m = re.search(r"(\d+) variables, (\d+) clauses", ln)
                if m: s.res["variables"], s.res["clauses"] = max(s.res["variables"], int(m.group(1))), max(s.res["clauses"], int(m.group(2)))
                m = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", ln)
                if m: s.res["solver_s"] += float(m.group(1))
                else:
                    m = re.search(r"Runtime Solver: ([\d.e+-]+)s", ln)
                    if m and False: s.res["solver_s"] += float(m.group(1))
        finally:
            p.wait(); timer.cancel()
        if not results or (p.returncode not in (0, 10) and not complete):
            if time.time() >= deadline - 1:
                raise Fail("solver budget exhausted (%.0f s)" % (time.time() - s.start))
            raise Fail("cbmc ended with %s:\n%s" % (p.returncode, "\n".join(tail)[-2500:]))
        # after a failed memory-safety assertion CBMC gives no verdict for what follows it
        fatal = any(x[1] == "FAILURE" and not x[0].startswith(("WITNESS", "VP:")) for x in results.values())
        if not fatal and any(x[1] in ("UNKNOWN", "ERROR") for x in results.values()):
            bad = [p for p, x in results.items() if x[1] in ("UNKNOWN", "ERROR")]
            raise Fail("no verdict for %d assertions (e.g. %s): out of memory or solver error\n%s" % (len(bad), bad[0], "\n".join(tail)[-800:]))
        s.res["no_body"] = sorted(set(s.res["no_body"]) | {x for x in nobody if not x.startswith("nondet_")})
        return results, traces

    # ---- native replay ---------------------------------------------------------
    def build_native(s, g):
        if getattr(s, "exe", None):
            return s.exe
        d = os.path.join(s.dir, "native"); os.makedirs(d, exist_ok=True)
        base = ["gcc"] + NATIVE + s.cc_flags(g) + ["-c"]
        objs = []
        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".o")
            cmd = list(base)
            if not f.startswith(V):
                cmd += s.renames(f)
            r = sh(cmd + ["-o", o, f])
            return o, r
        fs = [f for f in s.files(g)]
        have = {os.path.basename(f) for f in fs}
        rest = [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith(".c") and f not in have and f != "main.c"]
        with ThreadPoolExecutor(8) as ex:
            mine = list(ex.map(one, fs)); oth = list(ex.map(one, rest))
        for o, r in mine:
            if r.returncode != 0:
                raise Fail("native build failed: " + r.stdout.decode(errors="replace")[-2000:])
        lib = os.path.join(d, "librest.a")
        sh(["ar", "rcs", lib] + [o for o, r in oth if r.returncode == 0])
        exe = os.path.join(d, "replay")
        r = sh(["gcc"] + NATIVE + ["-o", exe] + [o for o, _ in mine] + [lib, "-Wl,--allow-multiple-definition", "-lm", "-lpthread"])
        if r.returncode != 0:
            r2 = sh(["gcc"] + NATIVE + ["-o", exe] + [o for o, _ in mine] + [lib, "-Wl,--allow-multiple-definition", "-lm", "-lpthread", "-Wl,--unresolved-symbols=ignore-all"])
            if r2.returncode != 0:
                raise Fail("native link failed: " + r.stdout.decode(errors="replace")[-2000:])
        s.exe = exe
        return exe

    def replay(s, g, tape):
        exe = s.build_native(g)
        t = os.path.join(s.dir, "tape-%d" % time.time_ns())
        open(t, "w").write("\n".join(map(str, tape)) + "\n")
        scratch = tempfile.mkdtemp(dir=s.dir)
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                               timeout=20, env={"VP_TAPE": t, "HOME": scratch, "PATH": "/usr/bin:/bin"}, cwd=scratch)
            rc, out = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out = "hang", (e.stdout or b"").decode(errors="replace")
        shutil.rmtree(scratch, ignore_errors=True)
        if rc == "hang":
            return "confirmed", "does not terminate (20 s)", out
        if rc == 42:
            m = re.search(r"VP-ASSERT-FAIL (.*)", out)
            return "confirmed", m.group(1) if m else "assertion", out
        if rc in (43, 44):
            m = re.search(r"ERROR: AddressSanitizer: (.*)|runtime error: (.*)", out)
            return "confirmed", "sanitizer: " + (m.group(0) if m else "?"), out
        if rc == 77:
            return "assume", "assumption false: " + (re.search(r"VP-ASSUME-FALSE (.*)", out) or [0, ""])[1], out
        if isinstance(rc, int) and rc < 0:
            return "confirmed", "killed by signal %d" % -rc, out
        if rc == 0:
            return "ok", "", out
        return "other", "exit %s" % rc, out

    def save_replay(s, pname, desc, tape, how, out):
        d = os.path.join(V, "evidence", "replay", s.prop)
        os.makedirs(d, exist_ok=True)
        base = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s" % (s.name, pname))
        p = os.path.join(d, base + ".txt")
        with open(p, "w") as f:
            f.write("property: %s\nharness: %s\nassertion: %s (%s)\nobserved natively: %s\n"
                    "re-run: VP_TAPE=<file with the numbers below, one per line> <harness built natively>\n"
                    "cbmc: %s\n--- native output\n%s\n--- input values, in order\n%s\n"
                    % (s.prop, s.name, pname, desc, how, " ".join(s.cmd), out[-4000:], "\n".join(map(str, tape))))
        return p

    # ---- whole job -------------------------------------------------------------
    def run(s, deadline):
        s.start = time.time()
        r = s.res
        try:
            g = s.gen()
            s.build_goto(g)
            s.lps = s.loops()
            boosted, rounds = {}, 0
            while True:
                results, traces = s.run_cbmc([], deadline, boosted)
                unw = [p for p, x in results.items() if x[1] == "FAILURE" and (".unwind." in p or ".recursion" in p)]
                others = [p for p, x in results.items() if x[1] == "FAILURE" and p not in unw and not x[0].startswith("WITNESS")]
                if not unw or others or rounds >= s.h.get("boost_rounds", 2):
                    break
                # a bound was too small for this tree: look deeper before judging
                rounds += 1
                cur = s.unwindset(boosted=boosted)
                dead = False
                for p in unw:
                    l = p.replace(".unwind.", ".")
                    boosted[l] = cur.get(l, s.val(s.h.get("unwind", 10))) * 2
                    # endless natively? then no bound will do
                    if p in traces:
                        st, how, out = s.replay(g, traces[p])
                        if st == "confirmed":
                            dead = True
                            break
                if dead:
                    break
            r["boosted"] = boosted
            wit = {p: x[0][9:] for p, x in results.items() if x[0].startswith("WITNESS: ")}
            names = {}
            for p, n in wit.items():
                names.setdefault(n, []).append(p)
            for n, ps in names.items():
                if any(results[p][1] == "FAILURE" for p in ps):
                    r["witness_ok"].append(n)
                else:
                    r["witness_missing"].append(n)
            body = [p for p in results if p not in wit]
            r["props_total"] = len(body)
            r["props_ok"] = sum(1 for p in body if results[p][1] == "SUCCESS")
            failed = [p for p in body if results[p][1] == "FAILURE"]
            # user assertions first, memory safety next, unwinding last
            def rank(p):
                d = results[p][0]
                return (0 if d.startswith("VP:") else 2 if ".unwind." in p or ".recursion" in p else 1, p)
            failed.sort(key=rank)
            todo = failed[:MAXTRACE]
            missing = [p for p in todo if p not in traces]
            if missing:
                _, t2 = s.run_cbmc(sum([["--property", p] for p in missing], []), deadline, boosted)
                traces.update(t2)
            for p in todo:
                if p not in traces:
                    r["unconfirmed"].append({"assertion": p, "description": results[p][0], "why": "no trace"})
                    continue
                st, how, out = s.replay(g, traces[p])
                if st == "confirmed":
                    path = s.save_replay(p, results[p][0], traces[p], how, out)
                    r["violations"].append({"assertion": p, "description": results[p][0], "native": how,
                                            "where": "%s:%s" % (os.path.basename(results[p][2]), results[p][3]), "replay": path})
                    if len(r["violations"]) >= 3:
                        break
                else:
                    r["unconfirmed"].append({"assertion": p, "description": results[p][0], "native": st + " " + how})
                    if os.environ.get("VP_DEBUG"):
                        print("UNCONFIRMED", p, results[p], st, how, out[-1500:], traces[p][:200])
            r["props_failed"] = failed[:50]
            r["unwinding_failed"] = [p for p in failed if ".unwind." in p or ".recursion" in p]
            # witnesses: the path the solver found must behave the same natively
            if not r["violations"]:
                samples = []
                for n, ps in names.items():
                    for p in ps:
                        if p in traces:
                            st, how, out = s.replay(g, traces[p])
                            if st == "ok" and ("VP-WITNESS " + n) in out:
                                r["witness_replayed"] += 1
                                samples.append({"witness": n, "inputs": traces[p][:120]})
                            else:
                                if st == "confirmed" and p in traces:
                                    # the real code fails on a path the encoding accepts
                                    path = s.save_replay(p, "witness path " + n, traces[p], how, out)
                                    r["violations"].append({"assertion": p, "description": "native failure on a witness path: " + n,
                                                            "native": how, "where": "", "replay": path})
                                r.setdefault("witness_mismatch", []).append({"witness": n, "native": st + " " + how})
                                if os.environ.get("VP_DEBUG"):
                                    print("WITNESS MISMATCH", n, st, how, out[-1500:], traces[p][:300])
                            break
                r["samples"] = samples[:3]
            r["functions"] = s.functions()
            r["status"] = "violation" if r["violations"] else "ok"
        except Fail as e:
            r["status"] = "error"; r["error"] = str(e)
        except Exception as e:
            import traceback
            r["status"] = "error"; r["error"] = traceback.format_exc()
        r["wall_s"] = round(time.time() - s.start, 2)
        return r

    def functions(s):
        out = sh(["goto-instrument", "--reachable-call-graph", s.gb, "/dev/null"]).stdout.decode(errors="replace")
        fns = set(re.findall(r"-> (\S+)", out)) | set(re.findall(r"^(\S+) ->", out, re.M))
        src = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(s.dir, "src", "*.c")) if os.path.basename(f) in s.h["srcs"])
        return sorted(f for f in fns if re.search(r"\b%s\s*\(" % re.escape(re.sub(r"\$link\d+$", "", f)), src) and not f.startswith(("vp_", "__CPROVER")))

def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=/(.*)/ (.*)$", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    shutil.rmtree(os.path.join(V, "evidence", "replay", prop), ignore_errors=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    deadline = T0 + BUDGET.get(tier, 840)
    jobs = []
    rc = 0
    try:
        for path in sorted(glob.glob("%s/harness/%s_*.c" % (V, prop))):
            hdr = load_header(path)
            vs = hdr.pop("variants", {"": {}})
            for vn, v in vs.items():
                v = dict(v)
                tiers = v.pop("tiers", ["quick", "thorough"])
                if tier not in tiers: continue
                j = Job(prop, path, hdr, vn, v, tier, root)
                if only and only not in (j.name, os.path.basename(path)[:-2]):
                    continue
                jobs.append(j)
        if not jobs:
            print("no harness for", prop); return 2
        jobs.sort(key=lambda j: -j.h.get("weight", 1))
        with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
            results = list(ex.map(lambda j: j.run(deadline), jobs))
        known = known_findings(prop)
        nviol, errs, shown = 0, [], set()
        for r in results:
            for w in r["violations"]:
                k = [d for h, rx, d in known if h == r["harness"].split(":")[0] and rx.search(w["assertion"] + " " + w["description"] + " " + w["native"])]
                if k:
                    if k[0] not in shown:
                        print("KNOWN-FINDING: property=%s %s" % (prop, k[0])); shown.add(k[0])
                    continue
                nviol += 1
                print("VIOLATION property=%s replay=%s" % (prop, w["replay"]))
                print("  harness=%s assertion=%s [%s] at %s; native: %s" % (r["harness"], w["assertion"], w["description"], w["where"], w["native"]))
            for u in r["unconfirmed"]:
                print("UNCONFIRMED (not reported): %s %s" % (r["harness"], json.dumps(u)))
            for w in r.get("witness_mismatch", []):
                print("WITNESS-MISMATCH: %s %s" % (r["harness"], json.dumps(w)))
            for w in r["witness_missing"]:
                print("WITNESS-UNREACHABLE: %s %s" % (r["harness"], w))
            if r["status"] == "error":
                errs.append(r); print("ERROR %s: %s" % (r["harness"], r.get("error", "")))
            print("%-28s %-9s asserts %d/%d, witnesses %d/%d (replayed %d), ssa %d, vars %d, solver %.1fs, wall %.1fs"
                  % (r["harness"], r["status"], r["props_ok"], r["props_total"], len(r["witness_ok"]),
                     len(r["witness_ok"]) + len(r["witness_missing"]), r["witness_replayed"], r["ssa_steps"], r["variables"], r["solver_s"], r["wall_s"]))
        samples = [x for r in results for x in r.get("samples", [])][:6]
        asm = []
        for r in results:
            for x in r["assumptions"] + r["stubs"]:
                if x not in asm: asm.append(x)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": sum(r["ssa_steps"] for r in results),
                  "transitions": sum(r["vccs"] for r in results),
                  "traces_validated_against_impl": sum(r["witness_replayed"] + len(r["violations"]) for r in results),
                  "samples": samples or [{"note": "no witness replayed"}],
                  "counts_explained": "states: program steps (SSA equations) encoded symbolically, each standing for all values within the bounds; "
                                      "transitions: verification conditions generated from them; traces: solver paths re-executed natively against the real code",
                  "queries_discharged": sum(r["props_ok"] for r in results),
                  "queries_total": sum(r["props_total"] for r in results),
                  "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
                  "solver": "CBMC 6 bit-vector encoding, built-in SAT back end",
                  "functions_encoded": sorted({f for r in results for f in r["functions"]}),
                  "harnesses": [{k: r[k] for k in ("harness", "status", "defs", "bounds", "props_ok", "props_total", "unwinding_failed",
                                                   "witness_ok", "witness_missing", "witness_replayed", "no_body", "ssa_steps", "vccs",
                                                   "vccs_remaining", "variables", "clauses", "solver_s", "wall_s", "unconfirmed")} for r in results]},
              "assumptions": asm, "wall_s": round(time.time() - T0, 2), "violations": nviol}
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        rc = 1 if nviol else 2 if errs else 0
    finally:
        if "--keep" in a: print("kept", root)
        else: shutil.rmtree(root, ignore_errors=True)
    return rc

if __name__ == "__main__":
    sys.exit(main())
