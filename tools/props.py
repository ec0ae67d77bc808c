"""Which stages decide which property (see DESIGN.md)."""


def arr(cmd, ops, reps=2, thorough_reps=12, **kw):
    return dict(kind="trace", cmd=cmd, spec="VxArrayTrace", targets=set(ops) if ops else None,
                args={"reps": reps, **kw}, thorough_args={"reps": thorough_reps, "big": 0.15})


def st(cmd, reps=2, thorough_reps=12, **kw):
    return dict(kind="trace", cmd=cmd, spec="VxStreamTrace", targets=None,
                args={"reps": reps, **kw}, thorough_args={"reps": thorough_reps, "big": 0.15})


def tab(cmd, reps=2, thorough_reps=12, **kw):
    return dict(kind="trace", cmd=cmd, spec="VxTableTrace", targets=None,
                args={"reps": reps, **kw}, thorough_args={"reps": thorough_reps, "big": 0.15})


def stats_model(cfg, thorough=None):
    replay = dict(kind="trace", cmd="A10beh", spec="VxStatsTrace", targets=None, thorough_args={"allkinds": 1})
    return dict(kind="model", spec="VxStatsMC", cfg=f"VxStatsMC_{cfg}.cfg",
                **({"thorough_cfg": f"VxStatsMC_{thorough}.cfg"} if thorough else {}), replay=replay)


def array_model(prop, ops, cfg=None, pairs=10, thorough_pairs=60, tier=None, stretch=8):
    """every history of a small model of arrays, into the library's encodings"""
    cfg = cfg or prop.lower()
    replay = dict(kind="trace", cmd="Abeh", spec="VxArrayTrace", targets=set(ops) if ops else None,
                  args={"for": prop, "pairs": pairs}, thorough_args={"pairs": thorough_pairs}, rounds=1)
    if stretch:
        replay["then"] = dict(replay, args={"for": prop, "pairs": 1, "stretch": 1, "every": stretch}, thorough_args={"pairs": 3, "every": 1})
    return dict(kind="model", spec="VxArrayMC", cfg=f"VxArrayMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def scan_model(prop, cfg, every=1, thorough_every=1, tier=None):
    """every file, scan, order of reads and fault of a small model, into the reader"""
    replay = dict(kind="trace", cmd="Fbeh", spec="VxTableTrace", targets=None,
                  args={"for": prop, "every": every}, thorough_args={"every": thorough_every}, rounds=1)
    return dict(kind="model", spec="VxScanMC", cfg=f"VxScanMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def stream_model(cfg, every=1, tier=None):
    """every stream, consumer and failing transport of a small model, into the reader"""
    replay = dict(kind="trace", cmd="Sbeh", spec="VxStreamTrace", targets=None,
                  args={"every": every}, thorough_args={"every": 1}, rounds=1)
    return dict(kind="model", spec="VxStreamMC", cfg=f"VxStreamMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def rows_model(cfg, every=1, tier=None):
    """every array of chunks and list of rows of a small model, into take_rows"""
    replay = dict(kind="trace", cmd="Rbeh", spec="VxStreamTrace", targets=None,
                  args={"every": every}, thorough_args={"every": 1}, rounds=1)
    return dict(kind="model", spec="VxRowsMC", cfg=f"VxRowsMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def expr_model(cfg, kinds=1, every=1, tier=None):
    """every expression of a small grammar, into the evaluators"""
    replay = dict(kind="trace", cmd="Ebeh", spec="VxTableTrace", targets=None,
                  args={"every": every, "kinds": kinds}, thorough_args={"every": 1}, rounds=1)
    return dict(kind="model", spec="VxExprMC", cfg=f"VxExprMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def query_model(cfg, every=1, thorough_every=1, tier=None):
    """every WHERE of a small grammar, into the engine over the table providers"""
    replay = dict(kind="trace", crate="dfharness", cmd="D01beh", spec="VxQueryTrace", targets=None,
                  args={"every": every}, thorough_args={"every": thorough_every}, rounds=1)
    return dict(kind="model", spec="VxQueryMC", cfg=f"VxQueryMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def types_model(cfg, tier=None):
    replay = dict(kind="trace", cmd="T01beh", spec="VxTypesTrace", targets=None)
    return dict(kind="model", spec="VxTypesMC", cfg=f"VxTypesMC_{cfg}.cfg", replay=replay, **({"tier": tier} if tier else {}))


def conc_model(cfg, every=1, tier=None, export=True):
    replay = dict(kind="trace", crate="concharness", cmd="M01beh", spec="VxConcTrace", targets=None,
                  args={"every": every}, thorough_args={"every": 1})
    return dict(kind="model", spec="VxConcMC", cfg=f"VxConcMC_{cfg}.cfg", **({"replay": replay} if export else {}),
                **({"tier": tier} if tier else {}))


PROPS = {
    "A01": dict(level="model_checking", stages=[arr("A01", ["enc", "id"]), array_model("A01", ["enc", "id"], pairs=40, stretch=4)]),
    "A02": dict(level="model_checking", stages=[arr("A02", ["sat", "satx"]), array_model("A02", ["sat", "satx"])]),
    "A03": dict(level="model_checking", stages=[arr("A03", ["slice"]), array_model("A03", ["slice"])]),
    "A04": dict(level="model_checking", stages=[arr("A04", ["take"]), array_model("A04", ["take"])]),
    "A05": dict(level="model_checking", stages=[arr("A05", ["filter"]), array_model("A05", ["filter"])]),
    "A06": dict(level="model_checking", stages=[arr("A06", ["ss"]), array_model("A06", ["ss"])]),
    "A07": dict(level="model_checking", stages=[arr("A07", ["cmp"]), array_model("A07", ["cmp"], pairs=6), array_model("A07", ["cmp"], cfg="a07b")]),
    "A08": dict(level="model_checking", stages=[arr("A08", ["and", "or", "inv"], reps=6, thorough_reps=30), array_model("A08", ["and", "or", "inv"], pairs=0)]),
    "A09": dict(level="model_checking", stages=[arr("A09", ["stat"]), array_model("A09", ["stat"])]),
    "A10": dict(level="model_checking", stages=[
        stats_model("quick", "thorough"), stats_model("pairs", "deep"),
        dict(arr("A10", None, reps=3), spec="VxStatsTrace")]),
    "A11": dict(level="model_checking", stages=[arr("A11", ["cast", "ff", "sub"]), array_model("A11", ["ff"])]),
    "A12": dict(level="model_checking", stages=[arr("A12", None), array_model("A12", None, pairs=5)]),
    "A13": dict(level="model_checking", stages=[arr("A13", None), array_model("A13", None, pairs=6)]),
    "A14": dict(level="model_checking", stages=[arr("A14", None), array_model("A14", None, pairs=4, stretch=4)]),
    "A15": dict(level="model_checking", stages=[arr("A15", None), array_model("A15", None, pairs=4, thorough_pairs=30)]),
    "S01": dict(level="model_checking", stages=[st("S01"), arr("S01ops", None), stream_model("s01", every=2), stream_model("s01b", every=2)]),
    "S02": dict(level="model_checking", stages=[st("S02"), stream_model("s02")]),
    "S03": dict(level="model_checking", stages=[st("S03"), rows_model("s03"), rows_model("s03b"), rows_model("s03deep", tier="thorough")]),
    "F01": dict(level="model_checking", stages=[tab("F01", reps=3), scan_model("F01", "f01", every=3)]),
    "F02": dict(level="model_checking", stages=[tab("F02", reps=6, thorough_reps=20), scan_model("F02", "f02", every=2), scan_model("F02", "f02b", every=2),
        scan_model("F02", "f02deep", tier="thorough")]),
    "F03": dict(level="model_checking", stages=[tab("F03", reps=3, thorough_reps=6)]),
    "F04": dict(level="model_checking", stages=[tab("F04", reps=4), scan_model("F04", "f04", every=8)]),
    "T01": dict(level="model_checking", stages=[
        types_model("quick", "quick"), types_model("thorough", "thorough"), types_model("deep", "thorough"),
        dict(arr("T01", None, reps=2), spec="VxTypesTrace")]),
    "M01": dict(level="model_checking", stages=[
        conc_model("leaf"), conc_model("chunked1"), conc_model("leaf3", every=4), conc_model("shared", every=8),
        conc_model("deep2", export=False), conc_model("twice", export=False, tier="thorough"),
        conc_model("deep3", export=False, tier="thorough"), conc_model("nested", export=False, tier="thorough"),
        dict(kind="trace", cmd="M01", crate="concharness", spec="VxConcTrace", targets=None, args={"reps": 40}, thorough_args={"reps": 200})]),
    "D01": dict(level="model_checking", stages=[
        dict(kind="trace", cmd="D01", crate="dfharness", spec="VxQueryTrace", targets=None, args={"reps": 6}, thorough_args={"reps": 30}),
        query_model("atoms"), query_model("pairs", every=2), query_model("trees", every=40, thorough_every=4, tier="thorough")]),
    "E01": dict(level="model_checking", stages=[tab("E01"), expr_model("atoms", kinds=10), expr_model("pairs"), expr_model("three"),
        expr_model("deep", tier="thorough"), expr_model("trees", tier="thorough")]),
}

NOT_APPLICABLE = {}
NOTES = ("Every recorded call of the real library is checked by TLC against the TLA+ definition of the operation; "
         "coverage is the recorded sample (all encodings x dtypes x seeded inputs), not every input. Trusts TLC, the "
         "recorder's reading of contents through canonical buffers, and the token mapping of values to ranks.")
