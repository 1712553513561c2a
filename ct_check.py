"""Secret independence (C16): recorded calls are repeated under valgrind's lackey, which prints every
instruction address and every data address; Leak.tla compares runs with equal public inputs."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, time

RND = 8192


class TooSlow(Exception):
    pass


def build(c, v):
    tgt = os.path.join(c.BUILD, "ct-" + v)
    return c.cargo_build("ctdrive", v, tgt, ["ntrust-native", "ctdrive"])


# Close to the program as written: loops are not split and selections are not turned into branches.
SOURCE = ("-Cno-prepopulate-passes -Cllvm-args=-x86-cmov-converter=false -Cpasses=always-inline,cgscc(inline),"
          "function(sroa,early-cse,adce,loop-simplify,lcssa,loop-mssa(loop-rotate,licm),loop(indvars,loop-deletion),gvn,dse,adce)")


def build_source(c, v):
    tgt = os.path.join(c.BUILD, "cs-" + v)
    return c.cargo_build("ctdrive", v, tgt, ["ntrust-native", "ctdrive"], "source", RUSTFLAGS=SOURCE)


def mark(c, d):
    """Address of the marker and sizes of the buffers of a build."""
    r = c.run(["valgrind", "--tool=lackey", "--basic-counts=no", "-q", os.path.join(d, "ctrun"), "x"], 120, env={"PATH": "/usr/bin:/bin"}, cwd=d)
    m = re.search(r"^([0-9a-f]+)\n(\d+) (\d+) (\d+)$", r.stdout, re.M)
    if not m:
        raise c.ToolError("ctrun: %s" % r.stdout[-1000:])
    return m.group(1), tuple(int(m.group(k)) for k in (2, 3, 4))


def fresh_stdin(work, data):
    p = os.path.join(work, "in-" + hashlib.sha256(data).hexdigest()[:24])
    with open(p, "wb") as f:
        f.write(data)
    return p


def observe(c, d, addr, data, work, filt=None, timeout=600):
    """One run under lackey: the digests of what an observer sees."""
    with open(fresh_stdin(work, data), "rb") as inp:
        r, w = os.pipe()
        flt = subprocess.Popen([filt or os.path.join(d, "ctfilt"), addr], stdin=r, stdout=subprocess.PIPE, text=True)
        os.close(r)
        vg = subprocess.Popen(["valgrind", "--tool=lackey", "--basic-counts=no", "--trace-mem=yes", "--log-fd=%d" % w,
                               os.path.join(d, "ctrun")], stdin=inp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              env={"PATH": "/usr/bin:/bin"}, cwd=d, pass_fds=[w])
        os.close(w)
        try:
            out, _ = flt.communicate(timeout=timeout)
            code = vg.wait(timeout=60)
        except subprocess.TimeoutExpired:
            vg.kill()
            flt.kill()
            raise TooSlow("lackey timeout")
    o = json.loads("{%s}" % out)
    o["exit"] = code
    return o


def runs_of(trace, sizes):
    """The calls of a recording as (operation, public inputs, stdin of ctrun, description)."""
    pkb, skb, ctb = sizes
    out = []
    for line in open(trace):
        ev = json.loads(line)["ev"]
        keys, encs, gens = {}, {}, {}
        for n, e in enumerate(ev, 1):
            pk = sk = ct = b""
            rnd, pub, op = b"", b"", None
            if e["op"] in ("kp", "kset"):
                keys[e["k"]] = e
            if e["op"] in ("rset", "rb", "rinit", "rnew"):
                st, gens[e["r"]] = gens.get(e["r"]), e["st"]
            if e["op"] == "kp":
                op, rnd = "k", b"".join(bytes(r["b"]) for r in e["req"])
            elif e["op"] == "enc":
                encs[e["e"]] = e
                op, pk = "e", bytes(keys[e["k"]]["pk"])
                rnd, pub = b"".join(bytes(r["b"]) for r in e["req"]), pk
            elif e["op"] == "dec":
                ct = bytes(encs[e["e"]]["ct"] if e["e"] else e["ct"])
                op, sk, pub = "d", bytes(keys[e["k"]]["sk"]), ct
            elif e["op"] == "rb":
                op, rnd = "b", bytes(st["key"]) + bytes(st["v"])
                ct = e["n"].to_bytes(2, "little")
                pub = ct + bytes(st["v"])        # the counter's carries are not secret
            elif e["op"] == "rinit":
                op, rnd = "s", bytes(48) + bytes(e["seed"])
            if op:
                data = op.encode() + pk.ljust(pkb, b"\0")[:pkb] + sk.ljust(skb, b"\0")[:skb] + ct.ljust(ctb, b"\0")[:ctb] + rnd.ljust(RND, b"\0")[:RND]
                out.append((op, hashlib.sha256(pub).hexdigest(), data, n))
    return out


def variant(c, v, bins, dirs, work, pool, plan):
    trace = os.path.join(work, "trace-" + v)
    died = c.drive(bins[v][0], v, plan[0], trace, 8)
    if died:
        raise c.ToolError("recording for %s: %s" % (v, died))
    d = dirs[v]
    addr, sizes = mark(c, d)
    runs = runs_of(trace, sizes)
    # the reference of each class once more at the end: the instrument itself must be deterministic
    seen, again = set(), []
    for x in runs:
        if x[:2] not in seen:
            seen.add(x[:2])
            if x[0] != "k":
                again.append(x[:3] + (0,))
    return [(x, pool.submit(observe, c, d, addr, x[2], work)) for x in runs + again], addr


def check(c, prop, res, work):
    start = time.time()
    c.build_java()
    bins = c.prepare()
    with c.Lock():
        dirs = c.build_all(lambda v: build(c, v), list(bins))
    vs = list(dirs)
    with cf.ThreadPoolExecutor(4) as ex:
        plans = dict(zip(vs, ex.map(lambda v: c.make_plan(v, ["Leak"], work), vs)))
    # the longest runs first
    with cf.ThreadPoolExecutor(8) as pool:
        jobs = {}
        for v in sorted(vs, key=lambda v: -c.VARIANTS[v]["N"]):
            jobs[v] = variant(c, v, bins, dirs, work, pool, plans[v])
        done = {v: [(x, f.result()) for x, f in js] for v, (js, _) in jobs.items()}
    instr, again = 0, []
    for v, rows in sorted(done.items(), key=lambda x: c.VARIANTS[x[0]]["N"]):
        kept, n = sort_out(c, v, rows)
        instr += n
        res.traces += len(kept)
        res.calls += len(kept)
        for x, o in kept:
            k = {"k": "kp", "e": "enc", "d": "dec", "b": "rb", "s": "rinit"}[x[0]]
            res.ops[k] = res.ops.get(k, 0) + 1
        res.samples.append("%s: %s" % (v, plans[v][1][0][:300]))
        confirmed, first = set(), {}
        while True:
            pair = compare(c, res, v, kept, work)
            if pair is None:
                break
            a, b, piece = pair
            (xa, oa), (xb, ob) = kept[a - 1], kept[b - 1]
            op = xa[0]
            what = "instructions %d/%d, accesses %d/%d" % (oa["ni"], ob["ni"], oa["nm"], ob["nm"])
            if op in confirmed:
                what = "operation '%s': two runs with equal public inputs differ (%s; optimised build: %s)" % (op, what, first[op])
                info = dict(property=prop, variant=v, seed=c.SEED, what=what, first_differing_piece=piece, inputs=[xa[2].hex(), xb[2].hex()],
                            how="each input is the stdin of ctrun (one letter, pk, sk, ct, random bytes); compare the outputs of "
                                "valgrind --tool=lackey --trace-mem=yes between the two stores to the address printed by 'ctrun x'",
                            session=plans[v][1][0], events=[xa[3], xb[3]])
                res.violation = (v, c.save_replay(prop, v, info), what)
                return
            # the optimiser may have made a branch of a selection: what counts is the program as written
            confirmed.add(op)
            first[op] = what
            again.append("%s %s" % (v, op))
            with c.Lock():
                d = build_source(c, v)
            addr, _ = mark(c, d)
            # of every class with differences, one run for each observation (few where a run takes long)
            mine, most = [], 2 if op == "k" else 15
            for cl in dict.fromkeys([xb[:2]] + [x[:2] for x, o in kept if x[0] == op]):
                seen, runs = [], []
                for x, o in kept:
                    if x[:2] == cl and o not in seen:
                        seen.append(o)
                        runs.append(x)
                if len(runs) > 1:
                    mine += runs[:most - len(mine)]
            if op != "k":
                mine.append(mine[0][:3] + (0,))
            left = 780 - (time.time() - start)
            try:
                with cf.ThreadPoolExecutor(8) as pool:
                    obs = [pool.submit(observe, c, d, addr, x[2], work, os.path.join(dirs[v], "ctfilt"), left) for x in mine]
                    rows = [(x, f.result()) for x, f in zip(mine, obs)]
            except TooSlow:
                # undecided
                res.extra.setdefault("unconfirmed", []).append("%s %s" % (v, op))
                kept = [(x, o) for x, o in kept if x[0] != op]
                continue
            new, n = sort_out(c, v, rows)
            instr += n
            kept = [(x, o) for x, o in kept if x[0] != op] + new
    res.extra["instructions_observed"] = instr
    res.extra["observed_again_as_written"] = again


def sort_out(c, v, rows):
    """The usable runs and the number of instructions; the repeated references (event 0) must agree."""
    kept, ref, instr = [], {}, 0
    for x, o in rows:
        if o["marks"] != 2 or o["exit"] not in (0, 4):
            raise c.ToolError("%s: run %s of event %d: marks %d, exit %d" % (v, x[0], x[3], o["marks"], o["exit"]))
        instr += o["ni"]
        ob = (o["ni"], o["nm"], o["ins"], o["mem"])
        if x[3] == 0:
            if ref[x[:2]] != ob:
                raise c.ToolError("the instrumentation is not deterministic (%s, %s)" % (v, x[0]))
            continue
        ref.setdefault(x[:2], ob)
        kept.append((x, o))
    return kept, instr


def compare(c, res, v, kept, work):
    """Leak.tla on the observations: None, or a run, its reference and the piece in which they differ."""
    path = os.path.join(work, "runs-" + v)
    with open(path, "w") as f:
        for x, o in kept:
            f.write(json.dumps(dict(op=x[0], pub=x[1], ni=o["ni"], nm=o["nm"], ins=o["ins"], mem=o["mem"])) + "\n")
    cfgf = path + ".cfg"
    c.cfg(cfgf, {}, ["INIT Init", "NEXT Next", "INVARIANT Indistinguishable", "ALIAS Alias", "CHECK_DEADLOCK FALSE"])
    r = c.tlc("Leak", cfgf, work, workers=4, env={"TRACE": path})
    gen, dist = c.tlc_stats(r.stdout)
    res.states += dist
    res.transitions += gen
    if re.search(r"Invariant Indistinguishable is violated", r.stdout):
        last = r.stdout[r.stdout.rindex("/\\ run") if "/\\ run" in r.stdout else r.stdout.rindex("State "):] if "State " in r.stdout or "/\\ run" in r.stdout else r.stdout
        return tuple(int(re.search(k + r" (?:\|->|=) (\d+)", last).group(1)) for k in ("run", "reference", "piece"))
    if "Model checking completed. No error has been found." not in r.stdout:
        raise c.ToolError("TLC on %s\n%s" % (path, r.stdout[-3000:]))
    want = sum(1 + 2 + len(o["ins"]) + len(o["mem"]) for x, o in kept)
    if gen != want:
        raise c.ToolError("not every observation was consumed: %d states, %d expected" % (gen, want))
    return None
