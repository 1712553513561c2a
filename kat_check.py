"""C17: the tools.  katkem writes files and verifies files, simple shows an exchange; Kat.tla judges the recordings."""
import concurrent.futures as cf
import json, os, random, re


def lines_of(text):
    out = []
    for l in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        m = re.fullmatch(r"(count|seed|pk|sk|ct|ss) = ?([0-9A-F]*)", l)
        if l == "":
            out.append(dict(kind="blank"))
        elif re.fullmatch(r"# (.*)", l):
            out.append(dict(kind="name", text=l[2:]))
        elif m and m.group(1) == "count" and m.group(2).isdigit():
            out.append(dict(kind="count", num=int(m.group(2))))
        elif m and len(m.group(2)) % 2 == 0:
            out.append(dict(kind=m.group(1), bytes=list(bytes.fromhex(m.group(2)))))
        else:
            out.append(dict(kind="other"))
    return out


def edits(text, rnd, thorough):
    """Files made from a response file: (description, right, text)."""
    head, recs = text.split("\n\n", 1)[0], text.strip("\n").split("\n\n")[1:]

    def join(rs):
        return head + "\n\n" + "".join(r + "\n\n" for r in rs)
    yield "unchanged", True, text
    p = recs[:]
    rnd.shuffle(p)
    yield "records in another order", True, join(p)
    yield "lower case digits", True, join([re.sub(r"= ([0-9A-F]+)", lambda m: "= " + m.group(1).lower(), r) for r in recs])
    yield "comment lines inside records", True, join([r.replace("\npk", "\n# remark\npk") for r in recs])
    for field in ("seed", "pk", "sk", "ct", "ss"):
        for where in ([0, 99, rnd.randrange(1, 99)] if not thorough else [0, 99] + rnd.sample(range(1, 99), 8)):
            r = recs[:]
            m = re.search(r"^%s = ([0-9A-F]+)$" % field, r[where], re.M)
            if not m:
                continue
            n = len(m.group(1))
            k = m.start(1) + (0 if where == 0 else n - 1 if where == 99 else rnd.randrange(n))
            r[where] = r[where][:k] + "%X" % (int(r[where][k], 16) ^ (1 << rnd.randrange(4))) + r[where][k + 1:]
            yield "digit %d of %s in record %d" % (k - m.start(1), field, where), False, join(r)
    yield "last record missing", False, join(recs[:-1])
    yield "first record missing", False, join(recs[1:])
    yield "no records", False, join([])
    yield "secret of another record", False, join([re.sub(r"ss = .*", re.search(r"ss = .*", recs[1]).group(0), recs[0])] + recs[1:])
    yield "public key shortened", False, join(recs[:50] + [re.sub(r"(pk = [0-9A-F]*)[0-9A-F]{2}\n", r"\1\n", recs[50])] + recs[51:])


def check(c, prop, res, work):
    c.build_java()
    with c.Lock():
        dirs = c.build_all(lambda v: c.cargo_build("tooldrive", v, os.path.join(c.BUILD, "t-" + v), ["ntrust-native", "tooldrive"]), list(c.VARIANTS))

    def one(v):
        rnd = random.Random("%s %d" % (v, c.SEED))
        d = os.path.join(work, v)
        os.makedirs(d)
        tool = os.path.join(dirs[v], "katkem")
        req, rsp = os.path.join(d, "a.req"), os.path.join(d, "a.rsp")
        rec = []
        r = c.run([tool, req, rsp], 300, cwd=d)
        text = {f: open(p).read() if os.path.exists(p) else "" for f, p in (("req", req), ("rsp", rsp))}
        for f in text:
            rec.append(dict(op="write", file=f, variant=v, exit=r.returncode, lines=lines_of(text[f])))
        s = c.run([os.path.join(dirs[v], "simple")], 60, cwd=d)
        shown = {k: list(bytes.fromhex(m.group(1))) if (m := re.search(w + r" ([0-9A-F]*)$", s.stdout, re.M)) else [] for k, w in
                 (("pk", "generated public key"), ("sk", "generated secret key"), ("ct", "generated ciphertext"),
                  ("bob", "generated shared key"), ("alice", "decapsulated shared key"))}
        rec.append(dict(op="simple", exit=s.returncode, **shown))
        for k, (what, right, t) in enumerate(edits(text["rsp"], rnd, c.TIER == "thorough")):
            p = os.path.join(d, "e%d.rsp" % k)
            with open(p, "w") as f:
                f.write(t)
            x = c.run([tool, p], 300, cwd=d)
            rec.append(dict(op="verify", edit=what, right=right, exit=x.returncode, said="Verification successful." in x.stdout))
        trace = os.path.join(work, "kat-" + v)
        with open(trace, "w") as f:
            f.writelines(json.dumps(e) + "\n" for e in rec)
        cfgf = trace + ".cfg"
        c.cfg(cfgf, dict(c.VARIANTS[v], Hash="<-SHA3_256", Records=100),
              ["INIT Init", "NEXT Next", "INVARIANT Accepted", "ALIAS Alias", "CHECK_DEADLOCK FALSE"])
        t = c.tlc("Kat", cfgf, work, workers=2, env={"TRACE": trace})
        return v, rec, t.stdout
    with cf.ThreadPoolExecutor(4) as ex:
        for v, rec, out in ex.map(one, dirs):
            gen, dist = c.tlc_stats(out)
            res.states += dist
            res.transitions += gen
            res.traces += len(rec)
            res.calls += len(rec)
            for e in rec:
                res.ops[e["op"]] = res.ops.get(e["op"], 0) + 1
            res.samples += ["%s: %s %s" % (v, e["op"], e.get("edit", e.get("file", ""))) for e in rec[:6]]
            if "Invariant Accepted is violated" in out:
                last = out[out.rindex("State "):]
                n = int(re.search(r"run (?:\|->|=) (\d+)", last).group(1))
                bad = " ".join(last.split())[-300:]
                if not res.violation:
                    res.violation = (v, c.save_replay(prop, v, dict(property=prop, variant=v, seed=c.SEED, what=bad, recording=rec[n - 1])), bad)
                continue
            if "Model checking completed. No error has been found." not in out:
                raise c.ToolError("TLC on the recording of the tools\n" + out[-3000:])
            want = sum(1 + (len(e["lines"]) + 1 + (100 if e["file"] == "rsp" else 0) if e["op"] == "write" else 1) for e in rec)
            if gen != want:
                raise c.ToolError("not everything recorded was consumed: %d states, %d expected" % (gen, want))
