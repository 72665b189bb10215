"""What is analysed for each property."""
NONE, STD, SC, STDSC, EVERY = (), ("std",), ("supports-color",), ("std", "supports-color"), ("std", "supports-color", "strip-colors")
QUICK = [NONE, STD, STDSC, EVERY]
# std implies alloc, so these are all the distinct feature subsets
ALL = [
    NONE, ("alloc",), STD, SC, ("alloc", "supports-color"), STDSC,
    ("strip-colors",), ("alloc", "strip-colors"), ("std", "strip-colors"), ("supports-color", "strip-colors"),
    ("alloc", "supports-color", "strip-colors"), EVERY,
]
EXPLAIN = (
    "Abstract interpretation of the type-checked program (MIR) of colorz as it is in /repo now, with MIR of core/std for callees: "
    "every entry point below is analysed for all values of its inputs over finite abstract domains, one abstract path per "
    "combination of branch outcomes; generic colours and values stay opaque terms. An obligation is one rule evaluated on one "
    "abstract path. Nothing is executed and no solver is used."
)
ASSUMPTIONS = [
    "rustc's MIR construction, type checker and trait resolution are right",
    "the transfer functions of the analyser (driver/src) model MIR, core::fmt, atomics and the environment correctly",
]


def P(configs=QUICK, analyses=("interp",), needs=None, release=True, **kw):
    return dict(configs=configs, analyses=analyses, needs=needs, release=release, **kw)


ABS = "abstract interpretation of MIR (path-sensitive dataflow over finite domains)"
TWO = [NONE, EVERY]
PLAN = {
    "C01": P([NONE, STD, SC, STDSC, EVERY]),
    "C02": P(analyses=("interp", "writers02"), technique=ABS + " of every set/get sequence against a two-cell reference, plus call-graph effect analysis of who writes the settings"),
    "C03": P([STD, STDSC, EVERY], needs="std"),
    "C04": P([NONE, STD, SC, STDSC, EVERY]),
    "C05": P(),
    "C06": P(),
    "C07": P(TWO + [STD]),
    "C08": P(TWO + [STD]),
    "C09": P(TWO + [STD]),
    "C10": P(TWO),
    "C11": P(TWO),
    "C12": P(TWO),
    "C13": P(TWO),
    "C14": P(TWO),
    "C15": P(TWO),
    "C16": P([NONE, STD, STDSC]),
    "C17": P(TWO),
    "C18": P(TWO),
    "C19": P(TWO),
    "C20": P(TWO),
    "C21": P(TWO),
    "C22": P(TWO),
    "C23": P(TWO),
    "C24": P(TWO),
    "C25": P(TWO + [STD]),
    "C26": P(release=False, analyses=("interp", "coverage26"),
             technique=ABS + ": panic reachability from every public operation, plus a call-graph coverage rule over all bodies with panic sites"),
    "C27": P(ALL, analyses=("effects27",), technique="effect analysis of the type-checked program: every resolved call, type and drop of every body classified by origin; crate graph",
             note="Sound for the source given rustc's resolution; what std and supports-color do inside the allowed environment and probing calls is trusted."),
    "C28": P(analyses=("witnesses28",), technique="trait-reachability fixpoint over the compiler's trait facts, macro-arm enumeration, and compile-fail witnesses with legal twins",
             note="The sealing argument covers every foreign type; the compile-fail programs are one per forbidden shape."),
    "C29": P(TWO, technique=ABS + " of const-evaluated items compared with the run-time calls; the constants themselves are compile-time witnesses"),
    "C30": P(),
    "C31": P(ALL, analyses=("features31",), technique="public-interface extraction from the compiler in all 16 feature sets, compared over the inclusion order",
             note="Complete over feature sets and nameable items; what supports-color does inside is trusted."),
    "C32": P([NONE, STDSC, EVERY]),
    "C33": P(TWO),
    "C34": P(TWO),
    "C35": P(TWO, analyses=("interp", "values35"), technique=ABS + " of ==, !=, clone and hash over all pairs, plus type-level witnesses of the marker traits"),
    "C36": P(TWO),
    "C37": P(ALL, analyses=("unsafe37",), technique="compiler lint (unsafe_code, forced) over the type-checked crate in every feature set and both profiles; macro-arm scan",
             note="Complete for code compiled on this target; code under a cfg for another platform is not seen."),
    "C38": P(analyses=("programs38",), technique="compile-pass and compile-fail witnesses, type-checked and borrow-checked against the library",
             note="One witness per documented kind of program or capability; not exhaustive over programs."),
}


def applies(p, feats):
    return p["needs"] is None or p["needs"] in feats


def extra(name):
    import extras
    return getattr(extras, name)

TECHNIQUE = "abstract interpretation of MIR (path-sensitive dataflow over finite domains) against an independent reference"
NOTE = (
    "Every input of the entry points is covered symbolically within the bounds stated in DESIGN.md; trusts rustc's MIR and the "
    "analyser's transfer functions; code the analyser cannot treat exactly gives no verdict instead of a pass."
)
NOT_APPLICABLE = {
    "N01": "what a real terminal renders is outside the source; no static argument about this crate can decide it",
    "N02": "the reference X11 palette is not in the repository and closeness of colours is a matter of a numeric metric over data the code does not carry",
    "N03": "cost and timing are run-time quantities that no static rule in reach bounds meaningfully",
}
