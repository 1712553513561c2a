"""Forged recordings: one recorded field is changed and the specification must notice.

A check that accepts a forgery does not look at what it claims to judge, and ends with status 2."""
import copy, json, random


def flip(b, rng, lo=0, hi=None):
    k = rng.randrange(lo, len(b) if hi is None else hi)
    b[k] ^= 1


def at(op, change, when=lambda e, s, evs: True):
    return op, change, when


def ok(e, s, evs):
    return e["res"] == "ok"


def ordinary(e, s, evs):          # polynomials that certainly make a key
    return ok(e, s, evs) and s.split(";")[0].startswith("kp 1 s:rand:") and s.split(";")[0].split("/")[1].startswith("rand:")


def garbage(e, s, evs):           # a ciphertext that is certainly rejected
    op = s.split(";")[evs.index(e)].split()
    return ok(e, s, evs) and op[0] == "dec" and op[2].startswith("rnd:")


def honest(e, s, evs):
    enc = next((x for x in evs if x["op"] == "enc" and x["e"] == e["e"]), None)
    return ordinary(e, s, evs) and enc is not None and enc["k"] == e["k"] == 1 and s.count("kp 1 ") == 1


def seeded(e, s, evs):
    return ok(e, s, evs) and e["r"] != 0


def faultless(e, s, evs):         # what a call does when its generator fails is C11's matter
    return e["r"] != 0 or e["fault"] == ""


def fails(e, s, evs):
    return e["r"] == 0 and e["fault"] != "" and e["res"] == e["fault"]


def put(key, val):
    def f(e, rng):
        e[key] = val
    return f


def byte(key, lo=0, hi=None):
    def f(e, rng):
        flip(e[key], rng, lo, hi)
    return f


def state(key):
    def f(e, rng):
        if key == "rc":
            e["st"]["rc"] += 1
        else:
            flip(e["st"][key], rng)
    return f


def value(e, rng):
    v = rng.choice(e["vals"])
    flip(v["y"], rng)


def digit(e, rng):
    k = rng.randrange(len(e["dec"]))
    e["dec"][k] = ("0" if e["dec"][k][0] != "0" else "1") + e["dec"][k][1:]


def fewer(e, rng):
    e["req"][rng.randrange(len(e["req"]))]["n"] -= 1


def more(e, rng):
    e["req"].append(dict(e["req"][-1]))


FORGERIES = {
    "C01": [at("dec", byte("ss"), honest), at("burst", digit)],
    "C02": [at("dec", byte("ss"), ok), at("dec", put("res", "no"), ok)],
    "C03": [at("dec", byte("ss"), garbage), at("again", byte("y"), lambda e, s, evs: e["res"] == "ok" and evs[e["of"] - 1]["op"] == "dec")],
    "C04": [at("dec", put("res", "panic")), at("kp", put("res", "panic"), faultless), at("enc", put("res", "no"), faultless), at("rb", put("res", "panic")), at("burst", put("res", "panic"))],
    "C05": [at("kp", byte("pk", 0, 600), ordinary), at("kp", byte("sk", 0, 600), ordinary), at("kp", lambda e, rng: flip(e["sk"], rng, len(e["sk"]) - 32), ordinary)],
    "C06": [at("kp", byte("sk", 0, 100), ordinary), at("kp", lambda e, rng: flip(e["sk"], rng, len(e["sk"]) - 32), ordinary)],
    "C07": [at("enc", byte("ct"), ok), at("enc", byte("ss"), ok)],
    "C08": [at("kp", byte("pk"), seeded), at("kp", byte("sk"), seeded), at("enc", byte("ct"), seeded), at("enc", byte("ss"), seeded), at("dec", byte("ss"), ok)],
    "C09": [at("rb", byte("out"), lambda e, s, evs: e["n"] > 0), at("rb", lambda e, rng: e["out"].append(0))],
    "C10": [at("rb", state("key")), at("rb", state("v")), at("rb", state("rc"), lambda e, s, evs: e["st"]["rc"] < 2**30), at("rinit", state("key")),
            at("rnew", state("v")), at("rclone", state("key")), at("req", lambda e, rng: e.update(eq=not e["eq"]))],
    "C11": [at("kp", put("res", "ok"), fails), at("enc", put("res", "ok"), fails), at("enc", put("res", "another"), fails), at("enc", put("clean", False), fails),
            at("kp", more, fails)],
    "C12": [at("kp", fewer, ok), at("kp", more, ok), at("enc", fewer, ok), at("enc", more, ok), at("enc", put("inits", 1), ok)],
    "C13": [at("kp", byte("pk"), ordinary), at("enc", byte("ct"), ok), at("dec", byte("ss"), ok)],
    "C14": [at("again", byte("y"), ok), at("par", value), at("nest", value), at("enc", put("intact", False), faultless), at("dec", put("intact", False))],
}
EACH = 4


def forge(prop, sessions, recordings, seed):
    """sessions: the plan; recordings: lines.  Returns the forged lines and what was not found."""
    rng = random.Random(seed)
    todo = {k: EACH for k in range(len(FORGERIES[prop]))}
    out = []
    recordings = list(recordings)
    rng.shuffle(recordings)
    for l in recordings:
        if not todo:
            break
        if len(l) > 3000000:
            continue
        rec = json.loads(l)
        for k in list(todo):
            op, change, when = FORGERIES[prop][k]
            cand = [n for n, e in enumerate(rec["ev"]) if e["op"] == op and when(e, sessions[rec["id"] - 1], rec["ev"])]
            if not cand:
                continue
            f = copy.deepcopy(rec)
            n = rng.choice(cand)
            f["ev"] = f["ev"][:n + 1]
            change(f["ev"][n], rng)
            out.append(json.dumps(f))
            todo[k] -= 1
            if not todo[k]:
                del todo[k]
    return out, [FORGERIES[prop][k][0] for k in todo if todo[k] == EACH]
