#!/usr/bin/env python3
"""Build the harnesses of one property from /repo's working tree, run every job,
write evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION."""
import argparse, concurrent.futures as cf, hashlib, json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
import registry

CLANG = "clang++"
COMMON = ["-std=c++17", "-w", "-g0", "-pthread", "-I" + HERE + "/shim", "-I" + HERE + "/lib", "-I" + HERE + "/harness", "-I" + REPO + "/src", "-ferror-limit=5"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,object-size,pointer-overflow,nonnull-attribute,vptr,function",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan0": [CLANG, "-O0"] + SAN,
    "asan1": [CLANG, "-O1"] + SAN,
    "plain0": [CLANG, "-O0"],
    "plain1": [CLANG, "-O1"],
    "plain2": [CLANG, "-O2"],
    # memory accesses call __tsan_* functions, which the harness itself defines
    "mctsan": [CLANG, "-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-femulated-tls", "-fno-exceptions-placeholder"],
}
FLAVOURS["mctsan"] = [x for x in FLAVOURS["mctsan"] if x != "-fno-exceptions-placeholder"]
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=32:abort_on_error=0:exitcode=102:"
                    "handle_segv=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:print_legend=0:symbolize=0",
    "UBSAN_OPTIONS": "exitcode=102:halt_on_error=1:print_stacktrace=0:symbolize=0",
    "LC_ALL": "C",
})
NCPU = min(8, os.cpu_count() or 1)
STATUS_FMT_OPS = 1000
STATUS_SIZE = 4 + 4 * 1000 + 4 + 8 + 8192 + 8192 + 64


def read_status(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return dict(ops=[], executions=0, msg="", text="")
    n = struct.unpack_from("<i", b, 0)[0]
    n = max(0, min(n, 1000))
    ops = list(struct.unpack_from("<%di" % n, b, 4))
    off = 4 + 4000
    off += (-off) % 8
    ex = struct.unpack_from("<Q", b, off)[0]
    off += 8
    msg = b[off:off + 8192].split(b"\0")[0].decode("utf8", "replace")
    text = b[off + 8192:off + 16384].split(b"\0")[0].decode("utf8", "replace")
    return dict(ops=ops, executions=ex, msg=msg, text=text)


class Build:
    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.support = {}

    def run(self, cmd, what):
        for attempt in range(2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if p.returncode == 0:
                return None
        return "%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:])

    def obj(self, tu, pool):
        pass


def tu_key(flavour, defs):
    return hashlib.sha1(repr((flavour, sorted(defs))).encode()).hexdigest()[:10]


def compile_obj(work, flavour, defs, src, out, extra=()):
    flags = FLAVOURS[flavour]
    cc = flags[0]
    lang = []
    if src.endswith(".c"):
        cmd = ["clang"] + [f for f in flags[1:]] + ["-w", "-g0"] + ["-I" + HERE + "/shim", "-I" + REPO + "/src"] + ["-D" + d for d in defs]
    else:
        cmd = list(flags) + COMMON + ["-D" + d for d in defs]
    cmd += list(extra) + ["-c", src, "-o", out]
    p = None
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if p.returncode == 0:
            return None
    log = p.stdout.decode("utf8", "replace")
    errs = "\n".join(l for l in log.splitlines() if "error:" in l)
    return "%s\n%s\n%s" % (errs[:1500], " ".join(cmd), log[-8000:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default=None, help="substring of the job names to run")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    entry = registry.PROPERTIES[prop]
    tus = entry["tus"]
    if callable(tus):
        tus = tus(a.tier)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    replay_dir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == prop and k.get("status", "open") == "open":
                known[k["witness"]] = k
    job_cap = 420.0 if a.tier == "quick" else 3000.0
    soft = float(entry.get("budget", {}).get(a.tier, 150 if a.tier == "quick" else 1500))
    violations, known_lines, results, notes = [], [], [], []
    vlock = threading.Lock()
    stop = threading.Event()

    def report(job, kind, msg, ops, binary_desc, log=""):
        path = os.path.join(replay_dir, "%s-%s.json" % (prop, "".join(c if c.isalnum() or c in "-_." else "_" for c in job)[:80]))
        json.dump(dict(property=prop, job=job, kind=kind, message=msg, history=ops, binary=binary_desc, log=log[-4000:],
                       how_to_replay="python3 %s/replay.py %s" % (HERE, path)), open(path, "w"), indent=1)
        with vlock:
            violations.append((path, job, kind, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  job %s: %s: %s" % (job, kind, msg[:700].replace("\n", " / ")))
            sys.stdout.flush()
        stop.set()

    pool = cf.ThreadPoolExecutor(NCPU)

    # ---- build -------------------------------------------------------------
    sup_futs = {}

    def support(flavour, defs, names, extra=()):
        objs = []
        for n in names:
            src = n if os.path.isabs(n) else os.path.join(REPO, n)
            key = (flavour, tuple(sorted(defs)), src, tuple(extra))
            if key not in sup_futs:
                out = os.path.join(work, "sup_%s_%d.o" % (tu_key(flavour, defs), len(sup_futs)))
                sup_futs[key] = (pool.submit(compile_obj, work, flavour, defs, src, out, extra), out)
            objs.append(sup_futs[key])
        return objs

    builds = []
    for i, tu in enumerate(tus):
        flavour = tu.get("flavour", "asan0")
        defs = tu.get("defs", [])
        supdefs = tu.get("supdefs", [])
        src = os.path.join(HERE, "harness", tu["src"])
        obj = os.path.join(work, "tu%d.o" % i)
        fut = pool.submit(compile_obj, work, flavour, defs, src, obj, tu.get("extra", ()))
        sup = support(tu.get("supflavour", flavour), supdefs, tu.get("support", ["src/system.cpp", "src/umpireInterface.cpp"]), tu.get("supextra", ()))
        own = []
        for n, (s, fl) in enumerate(tu.get("own", [])):   # harness-side objects with their own flavour
            o = os.path.join(work, "tu%d_own%d.o" % (i, n))
            own.append((pool.submit(compile_obj, work, fl, defs, os.path.join(HERE, s), o), o))
        builds.append((i, tu, flavour, obj, fut, sup + own))

    if True:
        def run_job(binary, bdesc, job):
            if stop.is_set():
                return
            tag = hashlib.sha1((bdesc + job).encode()).hexdigest()[:12]
            for attempt in range(2):
                status = os.path.join(work, "st_%s_%d" % (tag, attempt))
                out = os.path.join(work, "out_%s_%d" % (tag, attempt))
                err = open(os.path.join(work, "err_%s_%d" % (tag, attempt)), "wb+")
                p = subprocess.Popen([binary, "--job", job, "--tier", a.tier, "--status", status, "--out", out, "--budget", str(soft)],
                                     stdout=subprocess.DEVNULL, stderr=err, env=ENV, start_new_session=True, cwd=work)
                start = time.time()
                last_ex, last_t, hang = -1, time.time(), False
                while True:
                    try:
                        p.wait(timeout=0.5)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if stop.is_set():
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        return
                    ex = read_status(status)["executions"]
                    now = time.time()
                    if ex != last_ex:
                        last_ex, last_t = ex, now
                    if now - last_t > entry.get("hang", 40):
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        break
                    if now - start > job_cap:
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        with vlock:
                            notes.append("job %s stopped after %.0f s; what it had explored by then held" % (job, now - start))
                            results.append(dict(job=job, states=0, transitions=0, executions=ex, outcomes=0, capped=True, bound="", samples=[], wall=now - start))
                        return
                err.seek(0)
                log = err.read().decode("utf8", "replace")
                rc = p.returncode
                if rc == 0 and not hang:
                    r = json.load(open(out))
                    r["binary"] = bdesc
                    with vlock:
                        results.append(r)
                        if a.v:
                            print("ok  %-46s states %8d trans %9d exec %9d outcomes %7d %6.1fs %s%s" % (job, r["states"], r["transitions"], r["executions"], r["outcomes"], r["wall"], r["bound"], "  CAPPED" if r["capped"] else ""))
                            sys.stdout.flush()
                    return
                st = read_status(status)
                # replay the history alone before believing it
                rstatus = status + "_r"
                rerr = open(rstatus + ".err", "wb+")
                rp = subprocess.Popen([binary, "--job", job, "--tier", a.tier, "--status", rstatus, "--out", rstatus + ".out",
                                       "--replay", ",".join(map(str, st["ops"])) or ","], stdout=subprocess.DEVNULL, stderr=rerr, env=ENV,
                                      start_new_session=True, cwd=work)
                try:
                    rp.wait(timeout=90)
                    rrc = rp.returncode
                except subprocess.TimeoutExpired:
                    os.killpg(rp.pid, signal.SIGKILL); rp.wait()
                    rrc = "timeout"
                rerr.seek(0)
                rlog = rerr.read().decode("utf8", "replace")
                rst = read_status(rstatus)
                kind = "hang" if rrc == "timeout" else ("property violated" if rrc == 101 else "crash / sanitizer report")
                if rrc != 0 and rrc != 3:
                    msg = rst["msg"] or st["msg"] or first_line(rlog)
                    fullmsg = (("history: " + rst["text"] + " | ") if rst["text"] else "") + msg
                    if job.startswith("witness:"):
                        if job in known:
                            with vlock:
                                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[job]["what"]))
                                results.append(dict(job=job, states=1, transitions=1, executions=1, outcomes=1, capped=False, bound="", samples=[job], wall=time.time() - start))
                            return
                    report(job, kind, fullmsg, st["ops"], bdesc, rlog)
                    return
                # did not reproduce in isolation: repeat the whole job once
                if attempt == 1:
                    if hang:
                        notes.append("job %s made no progress twice but its history replays" % job)
                        report(job, "hang", "the exploration stops making progress", st["ops"], bdesc, log)
                    else:
                        report(job, "not reproduced in isolation, but twice in the whole run", st["msg"] or first_line(log) or ("exit %s" % rc), st["ops"], bdesc, log)
                    return

        def first_line(s):
            for l in s.splitlines():
                if "ERROR" in l or "runtime error" in l or "VIOLATION" in l:
                    return l.strip()
            return s.strip()[-600:]

        def link_and_list(b):
            i, tu, flavour, obj, fut, sup = b
            e = fut.result()
            for f, o in sup:
                e = e or f.result()
            bdesc = tu["src"] + (" " + " ".join(tu.get("defs", [])) if tu.get("defs") else "") + " [" + flavour + "]"
            if e:
                return bdesc, None, e
            exe = os.path.join(work, "bin%d" % i)
            lf = tu.get("link") or ([f for f in FLAVOURS[flavour] if f.startswith("-fsanitize") or f == CLANG] if flavour != "mctsan" else [CLANG])
            cmd = list(lf) + [obj] + [o for _, o in sup] + ["-o", exe, "-pthread", "-ldl"] + tu.get("libs", [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if p.returncode != 0:
                return bdesc, None, " ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-5000:]
            q = subprocess.run([exe, "--list", "--tier", a.tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if q.returncode != 0:
                return bdesc, None, "--list failed: " + q.stdout.decode("utf8", "replace")[-3000:]
            return bdesc, exe, q.stdout.decode().split("\n")

        # Linking waits on compile futures, so it runs outside the pool.
        lp = cf.ThreadPoolExecutor(max(4, len(builds)))
        jobfuts = []
        def chain(b):
            bdesc, exe, r = link_and_list(b)
            if exe is None:
                report("build", "the harness no longer builds against the public interface, or the library no longer compiles", bdesc + ": " + r[:3000], [], bdesc, r)
                return []
            fs = []
            for j in r:
                j = j.strip()
                if j and (a.only is None or a.only in j):
                    fs.append(pool.submit(run_job, exe, bdesc, j))
            return fs
        chains = [lp.submit(chain, b) for b in builds]
        for c in chains:
            jobfuts += c.result()
        t_build = time.time() - t0
        for f in jobfuts:
            f.result()
        lp.shutdown()
    pool.shutdown()

    for k in sorted(set(known_lines)):
        print(k)
    # ---- evidence ------------------------------------------------------------
    states = sum(r["states"] for r in results)
    trans = sum(r["transitions"] for r in results)
    execs = sum(r["executions"] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][-3:]:
            samples.append("%s: %s" % (r["job"], s))
    per = [dict(job=r["job"], states=r["states"], transitions=r["transitions"], executions=r["executions"], distinct_outcomes=r["outcomes"],
                complete=not r["capped"], bound=r["bound"], wall_s=round(r["wall"], 2)) for r in results]
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=execs, samples=samples[:60] or ["none"],
               exhaustive=all(not r["capped"] for r in results) and bool(results),
               distinct_outcomes=sum(r["outcomes"] for r in results), jobs=per, notes=notes, build_s=round(t_build, 1))
    level = entry.get("level", "model_checking")
    if level == "exploration":
        cov.update(evaluations=execs, distinct_nontrivial=cov["distinct_outcomes"], rule=entry.get("rule", ""))
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=cov, assumptions=entry.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    else:
        print("kept", work)
    if not violations:
        print("%s: held on %d states, %d transitions, %d executions of the real code in %.1f s (build %.1f s)%s" %
              (prop, states, trans, execs, time.time() - t0, t_build, "" if cov["exhaustive"] else " (bounded by time)"))
    if not violations and (execs == 0):
        print("VIOLATION property=%s replay=%s" % (prop, "none"))
        print("  nothing was executed")
        return 1
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
