#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID   (tier from VERIF_TIER, seed from VERIF_SEED).

Plan (TLC) -> drive the library (Rust harness) -> validate the recording (TLC), for each variant,
next to the design-level models of the property.  Exit 0: held.  Exit 1: VIOLATION line printed.
Any other exit: the check itself did not work.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
CP = os.pathsep.join([os.path.join(BUILD, "java"), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
TIER = os.environ.get("VERIF_TIER") or "quick"
SEED = int(os.environ.get("VERIF_SEED") or "1")
VARIANTS = {
    "ntruhps2048509": dict(N=509, LOGQ=11, WEIGHT=254, FAMILY='"HPS"'),
    "ntruhps2048677": dict(N=677, LOGQ=11, WEIGHT=254, FAMILY='"HPS"'),
    "ntruhps4096821": dict(N=821, LOGQ=12, WEIGHT=510, FAMILY='"HPS"'),
    "ntruhrss701": dict(N=701, LOGQ=13, WEIGHT=0, FAMILY='"HRSS"'),
}
CHUNK = 40 << 20       # bytes of recording per TLC run
# so that there is an answer in time on a slow machine: thorough models still running, and recordings not yet begun, are left out
START, MODEL_END, TRACE_END = time.time(), 300, 600


class ToolError(Exception):
    pass


class Timeout(ToolError):
    pass


def cargo_env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "ntrust_bench", "bench"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Timeout("timeout: " + " ".join(cmd[:6]))


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, sub, files in os.walk(d):
            sub[:] = sorted(x for x in sub if x not in (".git", "target"))
            for f in sorted(files):
                p = os.path.join(base, f)
                if os.path.isfile(p):
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build_java():
    out = os.path.join(BUILD, "java")
    src = os.path.join(VERIF, "java", "Kernel.java")
    cls = os.path.join(out, "Kernel.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(out, exist_ok=True)
        r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, src], 300)
        if r.returncode:
            raise ToolError("javac failed\n" + r.stdout)


def cargo_build(crate, v, tgt, own, profile="release", **extra):
    """Builds a crate of /verif against the current tree; returns the directory of its binaries."""
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "tree.sha256")
    cwd = os.path.join(VERIF, crate)
    h = tree_hash(REPO, cwd)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    env = cargo_env(dict(extra, CARGO_TARGET_DIR=tgt))
    if old != h:
        run(["cargo", "clean", "--offline", "--profile", profile] + [x for o in own for x in ("-p", o)], 300, env=env, cwd=cwd)
    r = run(["cargo", "build", "--offline", "--profile", profile, "--features", v], 800, env=env, cwd=cwd)
    if r.returncode:
        raise ToolError("%s does not build for %s\n%s" % (crate, v, r.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(tgt, profile)


def build_harness(v):
    """The recorder in two builds: with overflow checks and debug assertions, and without."""
    def one(p):
        return os.path.join(cargo_build("harness", v, os.path.join(BUILD, p + "-" + v), ["ntrust-native", "kemdrive"], p), "kemdrive")
    with cf.ThreadPoolExecutor(2) as ex:
        return tuple(ex.map(one, ("release", "plain")))


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def prepare(variants=None):
    """Compile everything; returns {variant: harness binaries}."""
    vs = list(variants or VARIANTS)
    with Lock():
        build_java()
        return build_all(build_harness, vs)


def build_all(build, vs):
    """{variant: what was built}.  A variant that does not build is a matter of C15; the others go on without it."""
    def one(v):
        try:
            return build(v)
        except ToolError as e:
            print("note:", str(e)[-1500:])
            return None
    with cf.ThreadPoolExecutor(len(vs)) as ex:
        got = {v: b for v, b in zip(vs, ex.map(one, vs)) if b}
    if not got:
        raise ToolError("nothing builds")
    return got


def cfg(path, consts, lines):
    with open(path, "w") as f:
        if consts:
            f.write("CONSTANTS\n" + "".join(" %s %s %s\n" % (k, "<-" if str(v).startswith("<-") else "=", str(v).replace("<-", ""))
                                            for k, v in consts.items()))
        f.write("\n".join(lines) + "\n")


def tlc(module, cfgfile, work, workers=2, timeout=800, mem="3g", args=(), env=None, java=True):
    md = tempfile.mkdtemp(dir=work, prefix="md")
    e = dict(os.environ)
    e.update(env or {})
    cp = CP if java else CP.split(os.pathsep, 1)[1]
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss64m", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfgfile] + list(args) + [os.path.join(SPEC, module + ".tla")]
    r = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(md, ignore_errors=True)
    return r


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def make_plan(v, lanes, work):
    """Sessions of the given lanes, numbered consecutively."""
    def one(lane):
        name, num, depth = (lane.split("*") + [None, None])[:3]
        c = os.path.join(work, "plan-%s-%s.cfg" % (v, name))
        common = dict(VARIANTS[v], TIER='"%s"' % TIER, SEED=SEED % 100000)
        if num:             # behaviours of the history machine, simulated: kind*quick,thorough*depth
            num = num.split(",")[TIER != "quick"]
            cfg(c, dict(common, DEPTH=depth, KIND='"%s"' % name), ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"])
            r = tlc("PlanHist", c, work, workers=1, timeout=300, mem="2g",
                    args=["-simulate", "num=" + num, "-depth", str(int(depth) + 2), "-seed", str(SEED)])
        else:
            cfg(c, dict(common, LANE='"%s"' % name), [])
            r = tlc("Plans", c, work, workers=1, timeout=300, mem="2g")
        got = re.findall(r'^"PLAN (?:\d+ )?(.*)"$', r.stdout, re.M)
        if not got or "rror:" in r.stdout.replace("No error", ""):
            raise ToolError("plan %s/%s\n%s" % (v, lane, r.stdout[-3000:]))
        return got
    sess = []
    for lane in lanes:
        sess += one(lane)
    path = os.path.join(work, "plan-" + v)
    with open(path, "w") as f:
        for k, x in enumerate(sess, 1):
            f.write("%d %s\n" % (k, x))
    return path, sess


def drive(binary, v, plan, trace, threads, timeout=600, **extra):
    """Runs the harness.  Returns None, or a description of how the process died."""
    env = dict(os.environ, KEMDRIVE_VARIANT=v, **extra)
    try:
        r = subprocess.run([binary, plan, trace, str(SEED), str(threads)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness timeout " + v)
    if r.returncode == 0 and os.path.exists(trace):
        return None
    if r.returncode < 0:
        return "the process died with signal %d: %s" % (-r.returncode, r.stdout[-500:])
    if r.returncode not in (3, 101):        # the recorder's own ways to give up
        return "the process was ended within a call, exit status %d: %s" % (r.returncode, r.stdout[-500:])
    raise ToolError("harness %s: exit %d %s" % (v, r.returncode, r.stdout[-2000:]))


def validate(v, trace, props, work, workers, module="KemTrace"):
    """Returns (violation or None, generated, distinct, sessions, calls, tokens)."""
    sessions = calls = 0
    ops = {}
    with open(trace) as f:
        for l in f:
            sessions += 1
            n = 0
            for op in re.findall(r'"op":"([a-z]+)"', l):
                ops[op] = ops.get(op, 0) + 1
                n += 1
            calls += n
    c = os.path.join(work, os.path.basename(trace) + ".cfg")
    consts = dict(VARIANTS[v], Hash="<-SHA3_256", Props="{%s}" % ",".join('"%s"' % p for p in props)) if module == "KemTrace" else {}
    cfg(c, consts, ["INIT Init", "NEXT Next", "INVARIANT Accepted", "ALIAS Alias", "CHECK_DEADLOCK FALSE"])
    r = tlc(module, c, work, workers=workers, env={"TRACE": trace})
    gen, dist = tlc_stats(r.stdout)
    tok = {}
    for t in re.findall(r'^<<"T", "([^"]*)">>$', r.stdout, re.M):
        tok[t] = tok.get(t, 0) + 1
    if "Invariant Accepted is violated" in r.stdout:
        last = r.stdout[r.stdout.rindex("State "):]
        line = re.search(r"line \|-> (\d+)", last) or re.search(r"line = (\d+)", last)
        call = re.search(r"call \|-> (\d+)", last) or re.search(r"call = (\d+)", last)
        bad = re.search(r"bad (?:\|->|=) (\{.*?\})\s*(?:\n\n|\n/\\|\]|$)", last, re.S)
        return (dict(line=int(line.group(1)), call=int(call.group(1)), bad=" ".join(bad.group(1).split()) if bad else last[:500]),
                gen, dist, sessions, calls, tok, ops)
    if "Model checking completed. No error has been found." not in r.stdout:
        raise ToolError("TLC on %s\n%s" % (trace, r.stdout[-4000:]))
    if gen != sessions + calls:
        raise ToolError("not every recorded call was consumed: %d states, %d sessions, %d calls" % (gen, sessions, calls))
    return None, gen, dist, sessions, calls, tok, ops


def differing(a, b):
    """Keeps of recording b the sessions that differ from recording a; returns how many are the same."""
    same = 0
    with open(a) as f:
        known = {hash(l) for l in f}
    with open(b) as f, open(b + ".d", "w") as g:
        for l in f:
            if hash(l) in known:
                same += 1
            else:
                g.write(l)
    os.replace(b + ".d", b)
    return same


def split_trace(trace):
    parts, size, cur = [], 0, None
    with open(trace) as f:
        for l in f:
            if cur is None or size + len(l) > CHUNK:
                parts.append(trace + ".%d" % len(parts))
                if cur:
                    cur.close()
                cur, size = open(parts[-1], "w"), 0
            cur.write(l)
            size += len(l)
    if cur:
        cur.close()
    os.remove(trace)
    return parts


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.calls = self.repeated = 0
        self.samples, self.tokens, self.ops, self.models = [], {}, {}, []
        self.violation = None
        self.extra = {}


def model(res, name, work, workers=2, timeout=700):
    """A design-level model: must hold or, for a mutant of the design, must be refuted."""
    m = models.MODELS[name]
    c = os.path.join(work, name + ".cfg")
    spec = ["SPECIFICATION Spec", "PROPERTIES " + " ".join(m["temporal"])] if "temporal" in m else ["INIT Init", "NEXT Next"]
    cfg(c, m["consts"], spec + ["INVARIANTS " + " ".join(m["inv"])] * bool(m["inv"]) + ["CHECK_DEADLOCK FALSE"])
    if name[0] == "t":
        timeout = max(5, START + MODEL_END - time.time())
    try:
        r = tlc(m["module"], c, work, workers=workers, timeout=timeout, mem="4g")
    except Timeout:
        if name[0] != "t":
            raise
        res.models.append(dict(model=name, unfinished=True))
        return
    gen, dist = tlc_stats(r.stdout)
    broken = re.search(r"Invariant (\w+) is violated", r.stdout)
    if "expect" in m:
        if not broken and re.search(r"Temporal properties were violated|Action property .* is violated|property .* was violated", r.stdout):
            broken = re.match("(temporal)", "temporal")
        if not broken or broken.group(1) not in m["expect"]:
            raise ToolError("design mutant %s is not refuted: specification too weak\n%s" % (name, r.stdout[-3000:]))
        res.models.append(dict(model=name, refuted=broken.group(1)))
        return
    if "Model checking completed. No error has been found." not in r.stdout:
        raise ToolError("model %s does not hold: specification broken\n%s" % (name, r.stdout[-3000:]))
    res.states += dist
    res.transitions += gen
    res.models.append(dict(model=name, states=dist, transitions=gen))


def run_models(res, names, work):
    names = [n for n in names if n[0] == "q" or TIER == "thorough"]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda n: model(res, n, work), sorted(names)))


def save_replay(prop, v, info):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-%s-%s.json" % (prop, v))
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    return path


def conformance(prop, res, lanes, work, props, variants=None, threads=8, module="KemTrace", **env):
    bins = prepare(variants)
    vs = list(bins)
    with cf.ThreadPoolExecutor(4) as ex:
        plans = dict(zip(vs, ex.map(lambda v: make_plan(v, lanes, work), vs)))
    jobs = []
    for v in vs:
        trace = os.path.join(work, "trace-" + v)
        died = drive(bins[v][0], v, plans[v][0], trace, threads, **env) or drive(bins[v][1], v, plans[v][0], trace + "-plain", threads, **env)
        if died:
            res.violation = (v, save_replay(prop, v, dict(property=prop, variant=v, seed=SEED, what=died, plan=plans[v][1])), died)
            return
        res.repeated += differing(trace, trace + "-plain")
        jobs += [(v, t) for t in split_trace(trace) + split_trace(trace + "-plain")]
    workers = 2 if len(jobs) > 1 else 8

    errors, late = [], []
    jobs.sort(key=lambda j: int(j[1].rsplit(".", 1)[1]))         # first parts of all variants first

    def one(job):
        if res.violation:
            return None
        if time.time() > START + TRACE_END:
            late.append(job)
            return None
        try:
            return job, validate(job[0], job[1], props, work, workers, module)
        except ToolError as e:
            errors.append(e)
    with cf.ThreadPoolExecutor(4) as ex:
        for x in ex.map(one, jobs):
            if x is None:
                continue
            (v, t), (viol, gen, dist, sessions, calls, tok, ops) = x
            res.states += dist
            res.transitions += gen
            res.traces += sessions
            res.calls += calls
            for k, n in tok.items():
                res.tokens[k] = res.tokens.get(k, 0) + n
            for k, n in ops.items():
                res.ops[k] = res.ops.get(k, 0) + n
            if len(res.samples) < 8:
                s = plans[v][1][(SEED * 7 + len(res.samples) * 31) % len(plans[v][1])]
                res.samples.append("%s: %s" % (v, s[:300]))
            if viol and "PROBE" in viol["bad"]:
                raise ToolError("effects are not observed: " + viol["bad"])
            if viol and not res.violation:
                with open(t) as f:
                    rec = json.loads(f.readlines()[viol["line"] - 1])
                info = dict(property=prop, variant=v, seed=SEED, tier=TIER, session=plans[v][1][rec["id"] - 1], session_id=rec["id"],
                            failing_call=viol["call"], obligations=viol["bad"],
                            how="kemdrive with a plan of this one line '<id> <session>' and this seed re-creates the recording; "
                                "%s.tla with Props = {%s} judges it" % (module, prop), recording=rec)
                res.violation = (v, save_replay(prop, v, info), viol["bad"])
    if errors and not res.violation:
        raise errors[0]
    if late and not res.violation:
        if len(late) > len(jobs) // 2:
            raise ToolError("too slow: %d of %d recordings not judged" % (len(late), len(jobs)))
        res.extra["parts_left_out"] = "%d of %d" % (len(late), len(jobs))
    if not res.violation and module == "KemTrace":
        v = vs[SEED % len(vs)]
        doubt(prop, res, v, plans[v][1], [t for w, t in jobs if w == v], work)


def doubt(prop, res, v, sessions, traces, work):
    """Recordings in which one field was changed must all be rejected."""
    lines = []
    for t in traces:
        with open(t) as f:
            lines += f.readlines()
    forged, missing = forge.forge(prop, sessions, lines, SEED)
    if missing:
        raise ToolError("nothing to forge: %s" % missing)
    path = os.path.join(work, "forged")
    with open(path, "w") as f:
        f.write("".join(l + "\n" for l in forged))
    c = path + ".cfg"
    cfg(c, dict(VARIANTS[v], Hash="<-SHA3_256", Props='{"%s"}' % prop), ["INIT Init", "NEXT Next", "INVARIANT Rejected", "ALIAS Alias", "CHECK_DEADLOCK FALSE"])
    r = tlc("KemTrace", c, work, workers=4, env={"TRACE": path})
    if "Model checking completed. No error has been found." not in r.stdout:
        raise ToolError("a forged recording is accepted (%s)\n%s" % (v, r.stdout[-3000:]))
    res.extra["forged_recordings_rejected"] = len(forged)


import forge          # noqa: E402
import models         # noqa: E402
import props as P     # noqa: E402  (per-property configuration)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    if TIER not in ("quick", "thorough"):
        print("bad VERIF_TIER", TIER)
        return 2
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    work = tempfile.mkdtemp(dir=os.path.join(BUILD, "work"), prefix=prop + "-")
    res = Result()
    try:
        P.CHECKS[prop](sys.modules[__name__], prop, res, work)
    except ToolError as e:
        print("check error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(EVID, exist_ok=True)
    cov = dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
               samples=res.samples, calls_recorded=res.calls, sessions_same_without_overflow_checks=res.repeated, calls_by_operation=res.ops)
    if res.tokens:
        cov["classification"] = res.tokens
    if res.models:
        cov["models"] = res.models
    cov.update(res.extra)
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=P.ASSUMPTIONS, violations=1 if res.violation else 0)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if res.violation:
        v, path, what = res.violation
        print("%s: %s" % (v, what))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d recorded calls in %d sessions, %d model states, %.0f s" % (prop, res.calls, res.traces, res.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
