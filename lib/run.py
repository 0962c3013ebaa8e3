#!/usr/bin/env python3
"""run.py PROPERTY: builds what the property's jobs need from /repo's working tree, runs their cases, judges what the
monitors reported and writes evidence/PROPERTY.json.  Exit 0: held; 1: violation; 2: no answer."""
import json, os, re, subprocess, sys, time, threading, hashlib, signal, zlib
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import registry as R

VERIF = B.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS = int(os.environ.get("DV_JOBS", "8"))

SANENV = {
    "ASAN_OPTIONS": "detect_stack_use_after_return=0:detect_leaks=%d:exitcode=12:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=64:max_malloc_fill_size=256:malloc_fill_byte=190:detect_odr_violation=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=12",
    "MSAN_OPTIONS": "exitcode=12:abort_on_error=0:wrap_signals=0",
    "TSAN_OPTIONS": "exitcode=12:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    "LSAN_OPTIONS": "exitcode=12:print_suppressions=0:suppressions=%s" % os.path.join(B.HARN, "lsan.supp"),
}


class Result:
    pass


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) ")


def norm(key):
    return re.sub(r"[^A-Za-z0-9_.:/-]+", "-", key)[:120]


def sankey(err):
    """names a sanitizer report by its kind and the first library function on the stack"""
    if "LeakSanitizer has encountered a fatal error" in err and "Tracer caught signal 11" in err:
        # the leak scan ran into the guard page of a stack that was still allocated at exit
        return "leak-guarded-stack"
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan-" + m.group(2) if m.group(1) == "AddressSanitizer" else "leak"
    elif "MemorySanitizer" in err:
        kind = "msan-uninit"
    elif "ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
        kind = "tsan-" + (m.group(1).strip() if m else "report")
    else:
        m = re.search(r"(\S+\.(?:c|h|inc):\d+):\d+: runtime error: ([^\n]*)", err)
        if m:
            msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
            kind = "ubsan-" + os.path.basename(m.group(1)).split(":")[0] + "-" + msg[:60]
    if kind is None:
        return None
    fr = [f for f in FRAME.findall(err) if not f.startswith("dv_") and f not in ("main",)]
    lib = [f for f in fr if f.startswith(("dill_", "dns_", "setsp"))]
    return norm(kind + ":" + (lib[0] if lib else (fr[0] if fr else "?")))


def execute(exe, job, seed, a, b, timeout, leaks=1, verbose=False):
    r = Result()
    r.a, r.b = a, b
    cmd = [exe, "--seed", str(seed), "--from", str(a), "--to", str(b), "--mode", job.mode, "--scale", str(job.scale)]
    if verbose:
        cmd.append("-v")
    env = dict(os.environ)
    env.update(SANENV)
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"] % (1 if leaks and job.leaks else 0)
    env["DV_SCRATCH"] = SCRATCH
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env,
                         start_new_session=True, cwd=SCRATCH)
    r.timeout = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    else:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    r.rc = p.returncode
    r.wall = time.time() - t0
    r.out = out.decode(errors="replace")
    r.err = err.decode(errors="replace")
    r.cases, r.stats, r.maxs, r.samples = [], {}, {}, []
    r.last = a - 1
    r.viol = None
    r.ended = False
    r.inconclusive = None
    for l in r.out.split("\n"):
        t = l.split(" ")
        try:
            if t[0] == "C":
                r.last = int(t[1])
            elif t[0] == "D":
                r.cases.append((int(t[1]), int(t[2]), t[3]))
            elif t[0] == "S":
                r.stats[t[1]] = r.stats.get(t[1], 0) + int(t[2])
            elif t[0] == "M":
                r.maxs[t[1]] = max(r.maxs.get(t[1], -1 << 62), int(t[2]))
            elif t[0] == "X":
                r.samples.append(l[2:])
            elif t[0] == "V" and r.viol is None:
                k, _, msg = l.split(" ", 2)[2].partition(" | ")
                r.viol = (norm(k), msg)
            elif t[0] == "I":
                r.inconclusive = l[2:]
            elif t[0] == "E":
                r.ended = True
        except (ValueError, IndexError):
            pass
    sk = sankey(r.err) if r.rc else None
    if sk:
        r.viol = (sk, "sanitizer report")
    elif r.viol and "Assert failed" in r.err:
        m = re.search(r"Assert failed: (.*?) \((.*?):\d+\)", r.err)
        r.viol = (norm("abort-%s" % (m.group(2) if m else "assert")), (m.group(0) if m else "") + " " + r.viol[1])
    elif r.viol is None and r.timeout:
        r.viol = ("hang", "case did not end in %d s" % timeout)
    elif r.viol is None and r.rc != 0 and not r.inconclusive:
        if r.rc < 0:
            r.viol = (norm("killed-%d" % -r.rc), "process ended by signal %d" % -r.rc)
        else:
            r.inconclusive = "exit code %d: %s" % (r.rc, r.err[-500:])
    elif r.viol is None and r.rc == 0 and not r.ended:
        # the code under test ended the process itself
        r.viol = ("early-exit", "process exited before the end of the run")
    return r


def jseed(j):
    """every configuration explores its own cases, unless their traces are to be compared"""
    if getattr(j, "same_seed", False):
        return SEED
    return SEED * 1000003 + zlib.crc32(j.variant.encode()) % 1000000


def deterministic_report(key):
    return key.startswith(("asan-", "ubsan-", "msan-", "tsan-", "leak", "abort-", "signal-", "killed-", "guard"))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["entries"] if k.get("status") == "finding"]


def main():
    global SCRATCH
    prop = sys.argv[1]
    t0 = time.time()
    spec = R.PROPS[prop]
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="dvs-")
    os.chmod(SCRATCH, 0o755)
    try:
        return check(prop, spec, t0)
    except B.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    finally:
        subprocess.run(["rm", "-rf", SCRATCH])


def check(prop, spec, t0):
    jobs = [j for j in spec["jobs"] if TIER in j.tiers]
    only = os.environ.get("DV_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j.name())]
    with ThreadPoolExecutor(8) as ex:
        fs = {}
        for j in jobs:
            k = (j.harness, j.variant, tuple(j.extra), j.nosubst, j.dns_san)
            if k not in fs:
                fs[k] = ex.submit(B.build, j.harness, j.variant, j.extra, j.nosubst, j.dns_san)
        exes = {}
        for k, f in fs.items():
            try:
                exes[k] = f.result()
            except B.BuildError:
                if not all(j.optional for j in jobs if j.harness == k[0]):
                    raise
                print("SKIPPED %s/%s: the internal functions it needs have changed" % (k[0], k[1]))
        jobs = [j for j in jobs if (j.harness, j.variant, tuple(j.extra), j.nosubst, j.dns_san) in exes]
    tbuild = time.time() - t0
    budget = float(os.environ.get("DV_BUDGET", "0")) or (spec.get("budget", 240) if TIER == "quick" else 820)
    known = load_known()
    lock = threading.Lock()
    found = {}      # key -> dict
    unconfirmed = []
    others = []
    inconcl = []
    agg = {}        # job name -> dict
    traces = {}     # job name -> {case: hash of its results}
    stop = threading.Event()
    skipped = [0]

    def confirm(exe, j, r, lo):
        """r reported a violation in case r.last of a run started at lo"""
        key, msg = r.viol
        n = max(r.last, lo)
        tmo = j.timeout * 2
        if key.startswith("leak") or key == "early-exit" and r.last < lo:
            r2 = execute(exe, j, jseed(j), lo, r.b, tmo)
            if r2.viol:
                # narrow down
                a, b = lo, r.b
                for _ in range(8):
                    if b - a <= 1:
                        break
                    m = (a + b) // 2
                    x = execute(exe, j, jseed(j), a, m, tmo)
                    if x.viol:
                        b, r2 = m, x
                        continue
                    x = execute(exe, j, jseed(j), m, b, tmo)
                    if x.viol:
                        a, r2 = m, x
                        continue
                    break
                return (a, b, r2)
            return None if not deterministic_report(key) else (lo, r.b, r)
        tries = 1 if deterministic_report(key) else 3
        for _ in range(tries):
            r2 = execute(exe, j, jseed(j), n, n + 1, tmo)
            if r2.viol and (r2.viol[0] == key or deterministic_report(r2.viol[0]) or key != "hang"):
                return (n, n + 1, r2)
        if n > lo:
            r2 = execute(exe, j, jseed(j), lo, n + 1, tmo)
            if r2.viol:
                return (lo, n + 1, r2)
        if deterministic_report(key):
            return (lo, n + 1, r)
        return None

    def batch(j, exe, a, b):
        cur = a
        while cur < b:
            if stop.is_set() or time.time() - t0 > budget:
                with lock:
                    skipped[0] += b - cur
                return
            r = execute(exe, j, jseed(j), cur, b, j.timeout)
            with lock:
                g = agg.setdefault(j.name(), dict(cases=0, nontrivial=0, sigs=set(), stats={}, maxs={}, samples=[], wall=0.0))
                g["cases"] += len(r.cases)
                g["wall"] += r.wall
                for n, nt, s in r.cases:
                    if spec.get("compare"):
                        traces.setdefault(j.name(), {})[n] = s
                    if nt:
                        g["nontrivial"] += 1
                        g["sigs"].add(s)
                for k, v in r.stats.items():
                    g["stats"][k] = g["stats"].get(k, 0) + v
                for k, v in r.maxs.items():
                    g["maxs"][k] = max(g["maxs"].get(k, -1 << 62), v)
                if len(g["samples"]) < 3:
                    g["samples"] += r.samples[:3 - len(g["samples"])]
            if r.inconclusive:
                # once more; a harness that cannot run is an error of the check, not an answer
                r2 = execute(exe, j, jseed(j), cur, b, j.timeout)
                if r2.inconclusive:
                    with lock:
                        inconcl.append("%s cases %d-%d: %s" % (j.name(), cur, b, r2.inconclusive))
                    return
                r = r2
            if r.viol is None:
                return
            if j.keys and not re.fullmatch(j.keys, r.viol[0]):
                # something else is wrong, which other properties report
                with lock:
                    others.append(r.viol[0])
                if r.viol[0].startswith("leak") or r.last < cur or len(others) > 100:
                    return
                cur = r.last + 1
                continue
            c = confirm(exe, j, r, cur)
            with lock:
                if c is None:
                    unconfirmed.append("%s case %d: %s %s" % (j.name(), r.last, r.viol[0], r.viol[1][:200]))
                else:
                    x, y, r2 = c
                    key = r2.viol[0]
                    if key not in found:
                        found[key] = dict(job=j, a=x, b=y, msg=r2.viol[1], out=r2.out, err=r2.err, exe=exe)
                        real = [k for k in found if not match(prop, k, found[k], known)]
                        if len(real) >= 2:
                            stop.set()
            nxt = r.last + 1
            if r.viol[0].startswith("leak") or nxt <= cur and r.last < cur:
                return
            cur = nxt

    work = []
    for j in jobs:
        n = j.quick if TIER == "quick" else j.thorough
        n = max(1, int(n * float(os.environ.get("DV_N", "1"))))
        exe = exes[(j.harness, j.variant, tuple(j.extra), j.nosubst, j.dns_san)]
        bs = j.batch or max(1, (n + WORKERS * 2 - 1) // (WORKERS * 2))
        for a in range(0, n, bs):
            work.append((a / n, j, exe, a, min(n, a + bs)))
    # serial jobs (heavy on cores) run alone at the end
    par = [w for w in work if not w[1].serial]
    ser = [w for w in work if w[1].serial]
    par.sort(key=lambda w: w[0])
    with ThreadPoolExecutor(WORKERS) as ex:
        for f in [ex.submit(batch, *w[1:]) for w in par]:
            f.result()
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(batch, *w[1:]) for w in ser]:
            f.result()

    # offline comparison across jobs (R04): same case, same trace everywhere
    if spec.get("compare"):
        for key, f in list(found.items()):
            ref = next(j for j in jobs if (j.harness, j.mode, j.scale) == (f["job"].harness, f["job"].mode, f["job"].scale))
            r = execute(exe_of(exes, ref), ref, jseed(ref), f["a"], f["b"], ref.timeout * 2)
            other = next((j for j in jobs if (j.harness, j.mode, j.scale) == (ref.harness, ref.mode, ref.scale) and j is not ref), None)
            if not other:
                continue
            r2 = execute(exe_of(exes, other), other, jseed(other), f["a"], f["b"], ref.timeout * 2)
            if r.viol and r2.viol and r.viol[0] == r2.viol[0] == key:
                print("  the same failure in every configuration is not a difference:", key, f["msg"][:200])
                del found[key]
    if spec.get("compare") and not found:
        cmp_traces(spec, jobs, exes, found, traces, agg)

    # ---- verdict
    viol, kf = [], []
    for key, f in sorted(found.items()):
        k = match(prop, key, f, known)
        if k:
            kf.append((k, key, f))
        else:
            viol.append((key, f))
    empty = []
    for name, mn in (spec.get("need") or {}).items():
        tot = sum(g["stats"].get(name, 0) for g in agg.values())
        if tot < mn and not viol and not only and os.environ.get("DV_N") is None:
            empty.append("%s: observed %d, need %d" % (name, tot, mn))
    cases = sum(g["cases"] for g in agg.values())
    sigs = set()
    for n, g in agg.items():
        sigs |= {(n.split("/")[0] + n.split("/")[-1], s) for s in g["sigs"]}
    samples = []
    for g in agg.values():
        samples += g["samples"]
    stats, maxs = {}, {}
    for g in agg.values():
        for k, v in g["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in g["maxs"].items():
            maxs[k] = max(maxs.get(k, v), v)
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": spec["level"],
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": spec["rule"], "samples": samples[:8] or ["none"],
            "observed": stats, "maxima": maxs,
            "jobs": {n: {"cases": g["cases"], "nontrivial": g["nontrivial"], "distinct": len(g["sigs"])} for n, g in sorted(agg.items())},
            "unconfirmed_reports": unconfirmed[:10], "cases_not_run_for_time": skipped[0],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for k, key, f in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for key, f in viol:
        j = f["job"]
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256((j.name() + key).encode()).hexdigest()[:10]))
        with open(rp, "w") as o:
            json.dump({"property": prop, "key": key, "what": f["msg"], "harness": j.harness, "variant": j.variant, "mode": j.mode,
                       "scale": j.scale, "seed": jseed(j), "from": f["a"], "to": f["b"], "ref": f["ref"].variant if f.get("ref") else None,
                       "replay_cmd": "python3 lib/run.py --replay %s" % rp,
                       "stdout": f["out"][-4000:], "stderr": f["err"][-12000:]}, o, indent=1)
        print("  %s %s case %d: %s" % (j.name(), key, f["a"], f["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s: %d cases, %d distinct non-trivial, %d violations, %d known, %d unconfirmed, build %.1fs, total %.1fs" % (
        prop, cases, len(sigs), len(viol), len(kf), len(unconfirmed), tbuild, time.time() - t0))
    for u in unconfirmed[:5]:
        print("  unconfirmed:", u)
    if viol:
        return 1
    if inconcl or empty or (cases == 0):
        for i in inconcl[:5]:
            print("INCONCLUSIVE", i)
        for i in empty:
            print("INCONCLUSIVE too little observed:", i)
        return 2
    return 0


def cmp_traces(spec, jobs, exes, found, traces, agg):
    """every case must have left the same trace in every configuration; a difference counts only if the case run alone repeats it"""
    groups = {}
    for j in jobs:
        groups.setdefault((j.harness, j.mode, j.scale), []).append(j)
    for g, js in sorted(groups.items()):
        ref = js[0]
        for j in js[1:]:
            a, b = traces.get(ref.name(), {}), traces.get(j.name(), {})
            st = agg[j.name()]["stats"] if j.name() in agg else {}
            both = sorted(set(a) & set(b))
            st["traces_compared"] = st.get("traces_compared", 0) + len(both)
            for n in both:
                if a[n] == b[n]:
                    continue
                r = cmp_case(ref, j, exes, n)
                if r:
                    found.setdefault("differs", dict(job=j, a=n, b=n + 1, msg=r, out="", err="", exe=None, ref=ref))
                    break


def exe_of(exes, j):
    return exes[(j.harness, j.variant, tuple(j.extra), j.nosubst, j.dns_san)]


def cmp_case(ref, j, exes, n):
    outs = []
    for k in (ref, j):
        sigs = []
        for _ in range(2):
            r = execute(exe_of(exes, k), k, jseed(k), n, n + 1, k.timeout * 2, verbose=True)
            if r.viol or len(r.cases) != 1:
                return None
            sigs.append(r.cases[0][2])
        if sigs[0] != sigs[1]:
            return None
        outs.append((sigs[0], [l for l in (r.out + r.err).split("\n") if l and not l.startswith(("C ", "D ", "S ", "M ", "X ", "E"))]))
    if outs[0][0] == outs[1][0]:
        return None
    for i, (x, y) in enumerate(zip(outs[0][1], outs[1][1])):
        if x != y:
            return "case %d: '%s' with %s, '%s' with %s (step %d)" % (n, x[:150], ref.variant, y[:150], j.variant, i)
    return "case %d: traces of %s and %s differ" % (n, ref.variant, j.variant)


def match(prop, key, f, known):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["key"], key) and re.search(k.get("mode", ""), f["job"].name()):
            return k
    return None


def replay(path):
    global SCRATCH, SEED
    d = json.load(open(path))
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="dvs-")
    j = next((j for j in R.PROPS[d["property"]]["jobs"] if j.harness == d["harness"] and j.variant == d["variant"] and j.mode == d["mode"]), None)
    exe = B.build(j.harness, j.variant, j.extra, j.nosubst, j.dns_san)
    if d.get("ref"):
        k = next(x for x in R.PROPS[d["property"]]["jobs"] if x.harness == j.harness and x.variant == d["ref"] and x.mode == j.mode and x.scale == j.scale)
        SEED = d["seed"]
        exes = {(x.harness, x.variant, tuple(x.extra), x.nosubst, x.dns_san): B.build(x.harness, x.variant, x.extra, x.nosubst, x.dns_san) for x in (j, k)}
        r = cmp_case(k, j, exes, d["from"])
        subprocess.run(["rm", "-rf", SCRATCH])
        print("reproduced: " + r if r else "not reproduced")
        return 1 if r else 0
    r = execute(exe, j, d["seed"], d["from"], d["to"], 300, verbose=True)
    sys.stdout.write(r.out)
    sys.stderr.write(r.err)
    subprocess.run(["rm", "-rf", SCRATCH])
    print("reproduced" if r.viol else "not reproduced", r.viol)
    return 1 if r.viol else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
