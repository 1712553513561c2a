"""Which plans and models belong to which property."""
ASSUMPTIONS = [
    "the library is exercised through its public API as built by the pinned toolchain in release mode with overflow checks and debug assertions",
    "the Java kernels agree with their TLA+ definitions (KernelCheck.tla)",
]


KEM_OK = ["q-hps-honest", "q-hrss-honest"]
MODELS = {
    "C01": KEM_OK + ["t-hps-honest", "t-hrss-honest", "q-noise-7", "q-noise-9", "t-noise-13", "q-mut-noise", "q-mut-smallq", "q-mut-centered", "q-mut-uncentered", "q-mut-lift", "q-mut-secret",
            "q-words-11", "q-words-12", "q-words-13", "q-mut-fold", "q-mut-centre"],
    "C02": ["q-hps-forge", "q-hps-craft", "q-hrss-forge", "t-hps-forge", "t-hrss-forge", "t-hps-craft", "t-hrss-craft", "q-mut-anymessage",
            "q-mut-equalcounts", "q-mut-totalweight", "q-mut-looser", "q-mut-firstr", "q-mut-nopadding", "q-words-11", "q-words-12", "q-words-13", "q-mut-rtest"],
    "C03": ["q-hps-forge", "q-mut-notail", "q-mut-nokey", "q-mut-shortkey"],
    "C04": ["q-api-live", "q-mut-stuck"],
    "C05": KEM_OK + ["q-sample-fields", "q-mut-notfield", "q-mut-g3", "q-inv3", "q-inv2", "q-inv3-few", "t-inv2", "t-inv2-few", "t-inv3-few",
                     "q-mut-steps", "q-mut-delta", "q-mut-sign", "q-newton-5", "t-newton-11", "q-mut-rounds"],
    "C06": ["q-sample-plus", "q-sample-words", "t-sample-words", "q-mut-unstable", "q-mut-unsigned", "q-mut-tag", "q-mut-plus",
            "q-sort-7", "q-sort-8", "q-sort-10", "t-sort-12", "t-sort-13", "q-mut-compare", "q-mut-net1", "q-mut-net9"],
    "C07": KEM_OK + ["q-mut-lift", "q-lift-5", "q-lift-7", "t-lift-11", "q-mut-weights"],
    "C09": ["q-rng-corners", "q-mut-saturate", "t-rng"],
    "C10": ["q-rng", "q-mut-noadvance", "q-mut-lazy", "q-mut-keyonly", "t-rng"],
    "C11": ["q-api", "t-api", "q-mut-retry", "q-mut-swallow", "q-api-live", "q-mut-again"],
    "C12": ["q-api", "t-api", "q-mut-retry"],
    "C13": ["q-codec-11", "q-codec-12", "q-codec-13", "q-codec-bytes", "q-codec-bytes5", "t-codec-5", "q-mut-unpackt", "q-mut-padding"],
    "C14": ["q-api", "t-api", "q-mut-shared", "q-api-live", "t-api-live", "q-mut-overlap"],
}


def trace_check(*lanes):
    def f(c, prop, res, work):
        c.build_java()
        c.run_models(res, MODELS.get(prop, ()), work)
        c.conformance(prop, res, lanes, work, [prop, "SPEC"])
        need(c, prop, res)
    return f


def effect_check(*lanes):
    def f(c, prop, res, work):
        c.build_java()
        c.conformance(prop, res, ("Probe",) + lanes, work, [prop], module="EffectTrace", KEMDRIVE_WATCH="1")
        if not res.violation and res.ops.get("probe", 0) < 20:
            raise c.ToolError("vacuous run")
    return f


def need(c, prop, res):
    """Vacuity: the run must have exercised what the property is about."""
    if res.violation:
        return
    want = {"C01": ("noise-9",), "C02": ("dec-valid", "dec-invalid"), "C03": ("dec-valid", "dec-invalid")}.get(prop, ())
    for t in want:
        if not res.tokens.get(t):
            raise c.ToolError("vacuous run: no %s" % t)


import config_check
import ct_check
import kat_check

CHECKS = {
    "C01": trace_check("Honest", "Bulk", "Noise", "Stuck"),
    "C02": trace_check("Tampers"),
    "C03": trace_check("Rejects", "Tampers"),
    "C04": trace_check("Total", "Stuck", "kem*10,100*40"),
    "C05": trace_check("Keys", "Stuck"),
    "C06": trace_check("Keys", "Honest", "Stuck"),
    "C07": trace_check("Encaps", "Stuck"),
    "C08": trace_check("Seeded", "kem*8,80*40"),
    "C09": trace_check("Rngs", "rng*20,300*60"),
    "C10": trace_check("Rngs", "rng*20,300*60"),
    "C11": trace_check("Faults"),
    "C12": trace_check("Draws", "kem*10,100*40"),
    "C13": trace_check("Codec"),
    "C14": trace_check("Pure", "kem*15,150*60"),
    "C15": config_check.check,
    "C16": ct_check.check,
    "C17": kat_check.check,
    "C18": effect_check("Honest", "Tampers", "Rejects", "Faults", "Rngs", "Keys", "Encaps", "Stuck", "Total", "Pure"),
}
