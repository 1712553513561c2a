"""Design-level models: instances that must hold and mutants of the design that must be refuted."""
HPS5 = dict(N=5, LOGQ=5, WEIGHT=2, FAMILY='"HPS"', Hash="<-SymHash")
HRSS5 = dict(N=5, LOGQ=6, WEIGHT=0, FAMILY='"HRSS"', Hash="<-SymHash")
KEM = ["KeysOk", "Agreement", "Rigidity", "Rejection"]
SAMPLE = ["Ternaries", "PlusSigns", "WordsRead", "FixedTypes", "QCodec", "QDecode", "TCodec", "TDecode", "Lifts", "Inverses"]
RNG = ["NoReuse", "CloneStays", "Prefix", "Moves", "Forgets"]
API = ["Pure", "Surfaced", "Untouched", "FixedDraws"]


def kem(base, f, g, forge, **over):
    return dict(module="KemMC", consts=dict(base, FSet="<-" + f, GSet="<-" + g, Forge="<-" + forge, **over), inv=KEM)


def sample(n, logq, weight, fam, kind, values, **over):
    return dict(module="SampleMC", consts=dict(dict(N=n, LOGQ=logq, WEIGHT=weight, FAMILY='"%s"' % fam, Hash="<-SHA3_256",
                                                    Kind='"%s"' % kind, Values="{%s}" % ",".join(map(str, values))), **over), inv=SAMPLE)


def rng(depth, lens, init, **over):
    return dict(module="DrbgMC", consts=dict(Depth=depth, ReqLens="{%s}" % ",".join(map(str, lens)), InitStates="<-" + init, **over), inv=RNG)


def api(threads, calls, cell="Own", **over):
    return dict(module="ApiMC", consts=dict(Threads="{%s}" % ",".join(map(str, range(1, threads + 1))), Calls=calls, Cell="<-" + cell, **over),
                inv=API)


def live(m, *which):
    return dict(m, temporal=list(which))


def divstep(n, p, inputs="All", steps="Full", bits=16, **over):
    return dict(module="DivStepMC", consts=dict(N=n, LOGQ=5, P=p, Steps="<-" + steps, DeltaBits=bits, Inputs="<-" + inputs, **over),
                inv=["Shape", "IsInverse", "Ends", "DeltaFits"])


def arith(part, n, logq, fam, rounds=4, **over):
    return dict(module="ArithMC", consts=dict(dict(N=n, LOGQ=logq, WEIGHT=2, FAMILY='"%s"' % fam, Hash="<-SHA3_256", Part='"%s"' % part, Rounds=rounds,
                                                   Parameters="<-NoParameters"), **over), inv=["WordsOk", "LiftOk", "NewtonOk"])


def noise(n, which="Plus", **over):
    return dict(module="NoiseMC", consts=dict(N=n, Selected="<-" + which, **over), inv=["SpreadOk", "OneOfTwo", "MarginOk"])


def sortnet(n, drop=0, **over):
    return dict(module="SortNetMC", consts=dict(Len0=n, Drop=drop, **over), inv=["InRange", "Permutes", "Sorted", "CompareBits"])


def fails(m, *which):
    return dict(m, expect=set(which))


WORDS = [0, 1, 5, 536870911, 536870912, 1073741823]
# name -> model; the name's first letter says when it runs: q quick and thorough, t thorough only
MODELS = {
    # the KEM game
    "q-hps-honest": kem(HPS5, "TwoF", "TwoG", "None"),
    "q-hrss-honest": kem(HRSS5, "OneF", "OneGPlus", "None"),
    "q-hps-forge": kem(HPS5, "OneF", "OneG", "ThinCt"),
    "q-hrss-forge": kem(HRSS5, "OneF", "OneGPlus", "FewCraft"),
    "q-hps-craft": kem(HPS5, "OneF", "OneG", "FewCraft"),
    "t-hps-honest": kem(HPS5, "AllTern", "FixedWeight", "None"),
    "t-hrss-honest": kem(HRSS5, "OneF", "Plus", "None"),
    "t-hps-forge": kem(HPS5, "OneF", "OneG", "AllCt"),
    "t-hrss-forge": kem(HRSS5, "OneF", "OneGPlus", "SliceCt"),
    "t-hps-craft": kem(HPS5, "TwoF", "TwoG", "CraftCt"),
    "t-hrss-craft": kem(HRSS5, "OneF", "TwoGPlus", "CraftCt"),
    # ... with a modulus too small for the noise
    "q-mut-smallq": fails(kem(dict(HPS5, LOGQ=4), "SomeTern", "TwoG", "None", Parameters="<-TrueParameters"), "Agreement", "Rigidity"),
    "q-mut-centered": fails(kem(HPS5, "OneF", "OneG", "None", Centered="<-MutCentered"), "Agreement", "Rigidity"),
    "q-mut-uncentered": fails(kem(HPS5, "OneF", "OneG", "None", RqToS3="<-MutRqToS3"), "Agreement", "Rigidity"),
    "q-mut-lift": fails(kem(HRSS5, "OneF", "OneGPlus", "None", Lift="<-MutLift"), "Agreement", "Rigidity"),
    "q-mut-secret": fails(kem(HPS5, "OneF", "OneG", "None", SecretOf="<-MutSecret"), "Agreement", "Rigidity"),
    "q-mut-anymessage": fails(kem(HPS5, "OneF", "OneG", "FewCraft", IsMessage="<-MutAnyMessage"), "Rigidity"),
    "q-mut-equalcounts": fails(kem(HPS5, "OneF", "OneG", "FewCraft", IsMessage="<-MutEqualCounts"), "Rigidity"),
    "q-mut-totalweight": fails(kem(HPS5, "BalF", "OneG", "FewCraft", IsMessage="<-MutTotalWeight"), "Rigidity"),
    "q-mut-looser": fails(kem(HPS5, "OneF", "OneG", "FewCraft", IsTernaryQ="<-MutLooseR"), "Rigidity"),
    "q-mut-firstr": fails(kem(HPS5, "OneF", "OneG", "FewCraft", IsTernaryQ="<-MutFirstR"), "Rigidity"),
    "q-mut-nopadding": fails(kem(HPS5, "OneF", "OneG", "FewCraft", PaddingClear="<-MutNoPadding"), "Rigidity"),
    "q-mut-notail": fails(kem(HPS5, "OneF", "OneG", "ThinCt", RejectOf="<-MutNoTail"), "Rejection"),
    "q-mut-nokey": fails(kem(HPS5, "OneF", "OneG", "ThinCt", RejectOf="<-MutNoKey"), "Rejection"),
    "q-mut-shortkey": fails(kem(HPS5, "OneF", "OneG", "ThinCt", RejectOf="<-MutShortKey"), "Rejection"),
    "q-mut-g3": fails(kem(HRSS5, "OneF", "OneGPlus", "None", PublicOf="<-MutPublicOf"), "KeysOk"),
    # samplers and encodings
    "q-sample-plus": sample(7, 6, 0, "HRSS", "ternary", [0, 1, 2, 255], Parameters="<-NoParameters"),
    "q-sample-fields": sample(5, 6, 0, "HRSS", "ternary", [0, 1, 2, 255]),
    "q-mut-notfield": fails(sample(7, 6, 0, "HRSS", "ternary", [0, 1, 2], Parameters="<-NoParameters", Fields="<-NoParameters"), "Inverses"),
    "q-sample-words": sample(5, 5, 2, "HPS", "words", WORDS),
    "t-sample-words": sample(7, 5, 4, "HPS", "words", WORDS, Parameters="<-NoParameters"),
    "q-codec-11": sample(5, 11, 2, "HPS", "coefficients", [0, 1, 2, 255, 256, 1023, 1024, 2046, 2047]),
    "q-codec-12": sample(5, 12, 2, "HPS", "coefficients", [0, 1, 2, 255, 256, 2047, 2048, 4094, 4095]),
    "q-codec-13": sample(5, 13, 0, "HRSS", "coefficients", [0, 1, 2, 255, 256, 4095, 4096, 8190, 8191]),
    "t-codec-5": sample(5, 5, 2, "HPS", "coefficients", range(32)),
    "q-codec-bytes": sample(7, 6, 0, "HRSS", "bytes", [0, 1, 128, 242, 243, 255], Parameters="<-NoParameters"),
    "q-codec-bytes5": sample(5, 11, 2, "HPS", "bytes", [0, 1, 15, 16, 31, 32, 128, 242, 243, 255]),
    "q-mut-unstable": fails(sample(5, 5, 2, "HPS", "words", WORDS, FixedType="<-MutDropTags"), "FixedTypes"),
    "q-mut-unsigned": fails(sample(5, 5, 2, "HPS", "words", WORDS, FixedType="<-MutUnsigned"), "FixedTypes"),
    "q-mut-tag": fails(sample(5, 5, 2, "HPS", "words", WORDS, Tag="<-MutTag"), "FixedTypes"),
    "q-mut-plus": fails(sample(7, 6, 0, "HRSS", "ternary", [0, 1, 2, 255], Parameters="<-NoParameters", TernaryPlus="<-MutPlus"), "PlusSigns"),
    "q-mut-unpackt": fails(sample(7, 6, 0, "HRSS", "bytes", [0, 1, 242, 243, 255], Parameters="<-NoParameters", UnpackT="<-MutUnpackT"), "TDecode"),
    "q-mut-padding": fails(sample(5, 11, 2, "HPS", "bytes", [0, 1, 15, 16, 128, 255], PaddingClear="<-MutPadding"), "QDecode"),
    # the algorithms of the library, against what they have to compute
    "q-noise-7": noise(7), "q-noise-9": noise(9), "t-noise-13": noise(13),
    "q-mut-noise": fails(noise(7, "MutAll"), "SpreadOk"),
    "q-inv3": divstep(7, 3),
    "q-inv2": divstep(11, 2),
    "q-inv3-few": divstep(17, 3, "Few"),
    "t-inv2": divstep(13, 2),
    "t-inv2-few": divstep(53, 2, "Few"),
    "t-inv3-few": divstep(43, 3, "Few"),
    "q-mut-steps": fails(divstep(7, 3, steps="OneLess"), "IsInverse"),
    "q-mut-delta": fails(divstep(11, 2, bits=4), "IsInverse", "Ends"),
    "q-mut-sign": fails(divstep(7, 3, SignFactor="<-MutSign"), "IsInverse", "Ends", "Shape"),
    "q-words-11": arith("words", 5, 11, "HPS"), "q-words-12": arith("words", 5, 12, "HPS"), "q-words-13": arith("words", 5, 13, "HRSS"),
    "q-lift-5": arith("lift", 5, 13, "HRSS"), "q-lift-7": arith("lift", 7, 13, "HRSS"), "t-lift-11": arith("lift", 11, 13, "HRSS"),
    "q-newton-5": arith("newton", 5, 13, "HRSS"), "t-newton-11": arith("newton", 11, 12, "HPS"),
    "q-mut-rounds": fails(arith("newton", 5, 11, "HPS", 3), "NewtonOk"),
    "q-mut-fold": fails(arith("words", 5, 11, "HPS", Fold3="<-MutFold"), "WordsOk"),
    "q-mut-rtest": fails(arith("words", 5, 11, "HPS", RTest="<-MutRTest"), "WordsOk"),
    "q-mut-centre": fails(arith("words", 5, 12, "HPS", CentreFlag="<-MutCentre"), "WordsOk"),
    "q-mut-weights": fails(arith("lift", 5, 13, "HRSS", T0="<-MutT0"), "LiftOk"),
    "q-sort-7": sortnet(7), "q-sort-8": sortnet(8), "q-sort-10": sortnet(10),
    "t-sort-12": sortnet(12), "t-sort-13": sortnet(13),
    "q-mut-compare": fails(sortnet(4, Correct="<-MutCorrect"), "CompareBits"),
    "q-mut-net1": fails(sortnet(7, 1), "Sorted"),
    "q-mut-net9": fails(sortnet(7, 9), "Sorted"),
    # the generator
    "q-rng": rng(3, [0, 1, 16, 17, 48], "Seeded"),
    "q-rng-corners": rng(2, [0, 1, 16, 33, 80], "Corners"),
    "t-rng": rng(5, [0, 1, 15, 16, 17, 64, 300], "Seeded"),
    "q-mut-noadvance": fails(rng(2, [0, 1, 16], "Seeded", DrbgNext="<-MutNextNoAdvance"), "NoReuse", "Prefix"),
    "q-mut-lazy": fails(rng(2, [0, 1, 16], "Seeded", DrbgNext="<-MutNextLazy"), "Moves", "Prefix", "NoReuse"),
    "q-mut-keyonly": fails(rng(2, [0, 1, 16], "Seeded", DrbgNext="<-MutNextKeyOnly"), "Moves", "NoReuse"),
    "q-mut-saturate": fails(rng(2, [0, 1, 16, 80], "Corners", AddV="<-MutAddNoWrap"), "NoReuse", "Prefix"),
    # calls and threads
    "q-api": api(2, 2),
    "t-api": api(3, 2),
    "q-api-live": live(api(2, 2), "Returns", "Refines"),
    "t-api-live": live(api(2, 3), "Returns", "Refines"),
    "q-mut-stuck": fails(live(api(1, 1, OnFailure="<-MutStuck"), "Returns"), "temporal"),
    "q-mut-overlap": fails(live(dict(api(2, 1, "MutShared"), inv=[]), "Refines"), "temporal"),
    "q-mut-again": fails(live(dict(api(1, 1, OnFailure="<-MutSwallow"), inv=[]), "Refines"), "temporal"),
    "q-mut-shared": fails(api(2, 1, "MutShared"), "Pure"),
    "q-mut-retry": fails(api(1, 1, OnFailure="<-MutRetry"), "FixedDraws", "Pure", "Surfaced"),
    "q-mut-swallow": fails(api(1, 1, OnFailure="<-MutSwallow"), "Pure", "Surfaced", "FixedDraws"),
}
