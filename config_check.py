"""C15: all subsets of the variant features are built; what comes out is recorded and validated."""
import itertools, json, os, re


def build_subset(c, feats, tgt):
    env = c.cargo_env({"CARGO_TARGET_DIR": tgt})
    cwd = os.path.join(c.VERIF, "harness")
    cmd = ["cargo", "build", "--offline", "--release"] + (["--features", ",".join(feats)] if feats else [])
    return c.run(cmd, 400, env=env, cwd=cwd)


def check(c, prop, res, work):
    with c.Lock():
        c.build_java()
    tgt = os.path.join(c.BUILD, "h-config")
    builds = []
    names = list(c.VARIANTS)
    sess = ["info", "kp 1 s:rand:1/rand:2/rnd:3 r;enc 1 1 s:rand:4/rand:5 r;dec 1 e:1 r;dec 1 e:1,flip:5 r",
            "rnew 1;rinit 1 rnd:1;kp 1 aes:1 r;enc 1 1 aes:1 r;dec 1 e:1 r"]
    with c.Lock():
        os.makedirs(tgt, exist_ok=True)
        stamp = os.path.join(tgt, "tree.sha256")
        h = c.tree_hash(c.REPO, os.path.join(c.VERIF, "harness"))
        if not os.path.exists(stamp) or open(stamp).read() != h:
            c.run(["cargo", "clean", "--offline", "--release", "-p", "ntrust-native", "-p", "kemdrive"], 300,
                  env=c.cargo_env({"CARGO_TARGET_DIR": tgt}), cwd=os.path.join(c.VERIF, "harness"))
        for k in range(5):
            for feats in itertools.combinations(names, k):
                r = build_subset(c, feats, tgt)
                e = dict(features=list(feats), built=r.returncode == 0, name="", pkb=0, skb=0, ctb=0, ssb=0)
                if r.returncode and not re.search(r"build script|panicked|error", r.stdout):
                    raise c.ToolError("cargo: " + r.stdout[-2000:])
                if e["built"] and k < 2:
                    want = feats[0] if len(feats) == 1 else "ntruhps2048509"
                    plan = os.path.join(work, "plan-c")
                    with open(plan, "w") as f:
                        for i, s in enumerate(sess, 1):
                            f.write("%d %s\n" % (i, s))
                    trace = os.path.join(work, "trace-%s-%d" % ("_".join(feats), k))
                    died = c.drive(os.path.join(tgt, "release", "kemdrive"), want, plan, trace, 2)
                    if died:
                        res.violation = (str(feats), c.save_replay(prop, "config", dict(features=feats, what=died)), died)
                        return
                    info = json.loads(open(trace).readline())["ev"][0]
                    e.update({x: info[x] for x in ("name", "pkb", "skb", "ctb", "ssb")})
                    e["trace"], e["want"] = trace, want
                builds.append(e)
        with open(stamp, "w") as f:
            f.write(h)
    rec = os.path.join(work, "builds")
    with open(rec, "w") as f:
        for e in builds:
            f.write(json.dumps({x: e[x] for x in e if x not in ("trace", "want")}) + "\n")
    cf = os.path.join(work, "config.cfg")
    c.cfg(cf, {}, ["INIT Init", "NEXT Next", "INVARIANT Accepted", "ALIAS Alias", "CHECK_DEADLOCK FALSE"])
    r = c.tlc("ConfigTrace", cf, work, env={"TRACE": rec})
    gen, dist = c.tlc_stats(r.stdout)
    res.states += dist
    res.transitions += gen
    res.traces += len(builds)
    res.samples += [{x: e[x] for x in e if x not in ("trace", "want")} for e in builds[:6]]
    res.extra["exhaustive"] = True
    res.extra["builds"] = len(builds)
    res.extra["refused"] = sum(not e["built"] for e in builds)
    if "Invariant Accepted is violated" in r.stdout:
        last = r.stdout[r.stdout.rindex("State "):]
        line = int(re.search(r"line (?:\|->|=) (\d+)", last).group(1))
        bad = " ".join(last.split())[-300:]
        e = builds[line - 1]
        res.violation = ("features %s" % e["features"], c.save_replay(prop, "config", dict(property=prop, build=e, what=bad)), bad)
        return
    if "Model checking completed. No error has been found." not in r.stdout or gen != 2 * len(builds):
        raise c.ToolError("TLC on builds\n" + r.stdout[-3000:])
    # the algorithm inside is the one the name says: its calls follow the scheme at that variant's parameters
    for e in builds:
        if "trace" in e:
            viol, gen, dist, sessions, calls, tok, ops = c.validate(e["want"], e["trace"], ["C15", "C08", "C01", "C02"], work, 4)
            res.states += dist
            res.transitions += gen
            res.traces += sessions
            res.calls += calls
            if viol:
                res.violation = ("features %s" % e["features"],
                                 c.save_replay(prop, "config", dict(property=prop, build=e, what=viol)), str(viol["bad"]))
                return
