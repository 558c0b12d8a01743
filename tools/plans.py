"""What each property's check runs: model checking of the specification, histories generated from
the specification and replayed into the library, and recorded random histories, all judged by the
trace specifications."""
import json

PLANS = {}


# ---- the crease graph ------------------------------------------------------------------------

def graph_constants(points="{}", nd="{}", ed="{}", mn=0, me=0):
    op = "<-" if not points.startswith("{") else "="
    return ["Points %s %s" % (op, points), "NodeData = %s" % nd, "EdgeData = %s" % ed,
            "MaxNodes = %d" % mn, "MaxEdges = %d" % me]


GRAPH_ASSUME = [
    "drawings on a lattice of 240 x 240 points (17 placements and scales of it): crossings fall on lattice points, "
    "and features are at least 1/8 lattice unit apart",
    "drawings with nodes at any position: requests of which it is clear what they mean whatever rounding does "
    "(see FreeGraph: points coincide up to 2^-20 of the drawing's size or are 2^-13 of it apart, edges cross at a "
    "sine of at least 2^-5 unless they share a node)",
    "node data are read through the Debug form of Node (there is no accessor)",
]


def graph_plan(prop):
    def run(c):
        judge_const = graph_constants() + ['Prop = "%s"' % prop]

        def validate(trace, what, cmd):
            c.judge(trace, "GraphTrace", "TraceSpec", judge_const, what, command=cmd)

        # 1. the specification itself
        c.design("MC_CreaseGraph", "Spec",
                 graph_constants("Quincunx" if c.quick else "QuincunxC", "{1}", "{1}" if c.quick else "{1, 2}", 5, 8),
                 ["CONSTRAINT Small", "INVARIANTS AlwaysPlanar AddNodePreserves AddEdgePreserves RemovePreserves"],
                 "CreaseGraph: every drawing on the corners of a square (and its centre), all operations")
        inv = ["CONSTRAINT ISmall", "VIEW View", "ACTION_CONSTRAINT ContractHolds", "INVARIANTS Planar"]
        c.design("MC_CreaseGraphIndexed", "ISpec",
                 graph_constants("Triangle", "{1}", "{1}", 5, 8) + ["OutOfRange = TRUE"],
                 inv + ["PROPERTIES RefinesCreaseGraph"],
                 "CreaseGraphIndexed: the algorithm satisfies the contract and refines CreaseGraph (3 points)")
        if not c.quick:
            c.design("MC_CreaseGraphIndexed", "ISpec",
                     graph_constants("Row", "{1}", "{1}", 4, 4) + ["OutOfRange = FALSE"], inv,
                     "CreaseGraphIndexed: three points in a row and one beside it")

        # 2. from the specification to the code
        sets = [("Corners", "{1}"), ("Row", "{1, 2}")]
        if not c.quick:
            sets += [("Plus", "{1}"), ("Corners", "{1, 2}")]
        for pts, ed in sets:
            h = c.generate("CreaseGraphGen", "GSpec", graph_constants(pts, "{1}", ed, 5, 8),
                           ["CONSTRAINT Small", "VIEW GView", "ACTION_CONSTRAINT GPrint"],
                           "one history per transition of CreaseGraph on %s" % pts)
            cmd = "graph-replay (histories of CreaseGraphGen, %s, edge data %s)" % (pts, ed)
            t = c.execute("graph-replay", "--in", h, "--seed", c.seed, "--queries", int(prop == "G07"))
            validate(t, "replayed histories of CreaseGraph on %s" % pts, cmd)
        h = c.generate("MC_CreaseGraphIndexed", "ISpec",
                       graph_constants("Triangle", "{1}", "{1}", 5, 8) + ["OutOfRange = TRUE"],
                       ["CONSTRAINT ISmall", "VIEW View", "ACTION_CONSTRAINT PrintHistory"],
                       "one history per transition of CreaseGraphIndexed, indices out of range included")
        t = c.execute("graph-replay", "--in", h, "--seed", c.seed, "--queries", int(prop == "G07"))
        validate(t, "replayed histories of CreaseGraphIndexed", "graph-replay (histories of CreaseGraphIndexed)")

        # 3. from the code to the specification
        n, big = (2500, 60) if c.quick else (40000, 1500)
        for k in range(0, n, 10000):
            a = ["graph-random", "--seed", c.seed + 7919 * (k // 10000), "--n", min(10000, n - k), "--ops", 50]
            validate(c.execute(*a), "random histories", "kami-exec " + " ".join(map(str, a)))
        a = ["graph-large", "--seed", c.seed, "--n", big]
        validate(c.execute(*a), "random histories of large drawings", "kami-exec " + " ".join(map(str, a)))
        a = ["graph-comb", "--seed", c.seed, "--n", 60 if c.quick else 1500]
        validate(c.execute(*a), "bundles of parallel edges cut by long ones", "kami-exec " + " ".join(map(str, a)))

        # 4. nodes at any position
        c.design("MC_FreeGraph", "Spec",
                 graph_constants("Quincunx" if c.quick else "QuincunxC", "{1}", "{1}", 5, 8)
                 + ["Base = 4096", "Scale = 4194304"],
                 ["CONSTRAINT Small", "INVARIANT FreeAgrees"],
                 "FreeGraph: for every drawing of CreaseGraph on those points and every request, it accepts what "
                 "CreaseGraph says and nothing that lacks a part of it")
        exact = prop in ("G01", "G02")
        runs = [(600 if exact else 300, 30, -1), (1500 if exact else 200, 30, 9)] if c.quick else \
               [(12000, 40, -1), (30000 if exact else 6000, 30, 9), (600, 300, -1)]
        for k, (n, ops, profile) in enumerate(runs):
            for j in range(0, n, 4000):
                a = ["graph-free", "--seed", c.seed + 104729 * (j // 4000), "--n", min(4000, n - j), "--ops", ops,
                     "--profile", profile]
                c.judge(c.execute(*a), "FreeTrace", "TraceSpec", ["Base = 4096", 'Prop = "%s"' % prop],
                        "nodes at any position", start_ops=("init",), shard_events=3000,
                        command="kami-exec " + " ".join(map(str, a)))
        return c.finish(assumptions=GRAPH_ASSUME)
    return run


for _p in ["G01", "G02", "G03", "G04", "G05", "G06", "G07"]:
    PLANS[_p] = graph_plan(_p)

# ---- polygons --------------------------------------------------------------------------------

POLY_ASSUME = [
    "polygons with more than 12 vertices have integer coordinates up to 10000 (13000 with offsets), times a power of "
    "two; those with fewer have all 24 bits of single precision numbers as well, at scales from 2^-120 to 2^90; polygons "
    "with decimal coordinates are judged up to the rounding of their vertices",
]


def poly_plan(prop):
    mode = {"P01": "tri", "P02": "diag", "P03": "new", "P04": "ops"}[prop]

    def run(c):
        def validate(trace, what, cmd, shard=3000):
            c.judge(trace, "PolyTrace", "TraceSpec", ['Prop = "%s"' % prop, "Base = 4096"], what, start_ops=None,
                    shard_events=shard, command=cmd)

        def grid(w, h, n):
            return ["W = %d" % w, "H = %d" % h, "MaxLen = %d" % n]

        def fine():
            if mode != "ops":
                c.design("MC_PolyFine", "FSpec",
                         ["W = 3", "H = %d" % (2 if c.quick else 3), "N = %d" % (4 if c.quick else 5), "Stretch = 4500",
                          "Base = 64", "Coarse <- Sixteen"], ["INVARIANT Agree"],
                         "PolyFine: the definitions on integers of any size against those of Polygon, for all polygons "
                         "on a small grid, stretched and shaken")
            n = {"tri": 2500, "diag": 1000, "new": 6000, "ops": 3000}[mode]
            for i in range(1 if c.quick else 12):
                cmd = ["poly-fine-" + mode, "--n", n if c.quick else 3 * n, "--seed", c.seed + 104729 * i]
                validate(c.execute(*cmd), "polygons with all 24 bits of single precision numbers, at any scale",
                         "kami-exec " + " ".join(map(str, cmd)), {"tri": 320, "diag": 130, "new": 1000, "ops": 1500}[mode])

        if mode == "ops":
            mc = ["Shapes <- TwoShapes", "Shifts <- SomeShifts", "Factors <- SomeFactors",
                  "MaxOps = %d" % (4 if c.quick else 5)]
            c.design("MC_PolyMoves", "MSpec", mc,
                     ["INVARIANTS AreaScales StaysSimple CenterMoves CenterScales Undo"],
                     "PolyMoves: all histories of translations and scalings of two polygons")
            h = c.generate("MC_PolyMoves", "MSpec", mc, ["ACTION_CONSTRAINT PrintMoves"],
                           "all histories of translations and scalings of that length")
            validate(c.execute("poly-ops-replay", "--in", h), "replayed histories of PolyMoves", "poly-ops-replay")
            for cmd in (["poly-ops", "--n", 4000 if c.quick else 60000],
                        ["poly-regular", "--n", 3000 if c.quick else 40000]):
                cmd += ["--seed", c.seed]
                validate(c.execute(*cmd), cmd[0], "kami-exec " + " ".join(map(str, cmd)))
            fine()
            return c.finish(assumptions=POLY_ASSUME)

        if prop in ("P01", "P02"):
            w, h, m = (3, 3, 9) if c.quick else (4, 3, 7)
            c.design("EarClip", "ESpec", grid(w, h, m),
                     ["INVARIANTS FlagsRight NeverStuck RestSimple Partition DiagonalSymmetric"],
                     "EarClip: every simple polygon with up to %d vertices on a %dx%d grid, ears clipped in every order"
                     % (m, w, h))
        for (w, h, m), every in ([((3, 3, 9), 1), ((4, 3, 6), 0)] if c.quick else
                                 [((3, 3, 9), 1), ((4, 3, 9), 1), ((4, 4, 6), 0)]):
            f = c.generate("EarClip", "DrawSpec", grid(w, h, m), [],
                           "every simple polygon with up to %d vertices on a %dx%d grid" % (m, w, h))
            cmd = ["poly-" + mode, "--n", 0, "--seed", c.seed, "--all", every, "--in", f]
            validate(c.execute(*cmd), "polygons on a %dx%d grid%s" % (w, h, ", from every first vertex" if every else ""),
                     "poly-%s (polygons printed by EarClip)" % mode)
        n = {"tri": 12000, "diag": 8000, "new": 12000}[mode]
        for i in range(1 if c.quick else 12):
            cmd = ["poly-" + mode, "--n", n, "--max", 30, "--seed", c.seed + 104729 * i]
            validate(c.execute(*cmd), "random polygons with up to 30 vertices", "kami-exec " + " ".join(map(str, cmd)))
        cmd = ["poly-" + mode, "--n", 300 if c.quick else 3000, "--max", 80, "--seed", c.seed + 5]
        validate(c.execute(*cmd), "random polygons with up to 80 vertices", "kami-exec " + " ".join(map(str, cmd)), 40)
        n, most = {"tri": (40, 220), "diag": (12, 130), "new": (60, 400)}[mode]
        cmd = ["poly-" + mode, "--n", n if c.quick else 10 * n, "--max", most, "--seed", c.seed + 11]
        validate(c.execute(*cmd), "random polygons with up to %d vertices" % most,
                 "kami-exec " + " ".join(map(str, cmd)), 6)
        fine()
        return c.finish(assumptions=POLY_ASSUME)
    return run


for _p in ["P01", "P02", "P03", "P04"]:
    PLANS[_p] = poly_plan(_p)

# ---- geometric utilities ----------------------------------------------------------------------

UTIL_ASSUME = [
    "points are integers scaled by powers of two (2^-20 to 2^20), with offsets up to 1000 times the resolution, and "
    "random numbers of up to 22 bits; real results are compared up to a few rounding errors of the inputs' magnitude",
    "decisions that rounding can affect are judged where the deciding quantity is at least 16 times the rounding error",
]


def util_plan(prop):
    def run(c):
        w, h = (4, 4) if c.quick else (5, 4)
        if prop != "S05":
            c.design("Segments", "SSpec", ["W = %d" % w, "H = %d" % h],
                     ["INVARIANTS PredicatesRight IntersectionsRight OnSegmentRight FootRight"],
                     "Segments: formulas of the library against their definitions for all 4 points on a %dx%d grid" % (w, h))
        else:
            c.design("Spaces", "Spec", ["R = %d" % (2 if c.quick else 3)], ["INVARIANT ContainsRight"],
                     "Spaces: the zero-area test against the definition by multiples, for all small lines and points")
        for i in range(1 if c.quick else 10):
            cmd = ["util-" + prop.lower(), "--n", 20000 if c.quick else 40000, "--side", 3 if c.quick or i else 4,
                   "--seed", c.seed + 15485863 * i]
            c.judge(c.execute(*cmd), "UtilTrace", "TraceSpec", ['Prop = "%s"' % prop, "Base = 4096"],
                    "exhaustive small configurations and random ones", start_ops=None, shard_events=30000,
                    command="kami-exec " + " ".join(map(str, cmd)))
        c.design("MC_FineGeo", "GSpec", ["W = 3", "H = %d" % (2 if c.quick else 3), "Base = 8"],
                 ["INVARIANTS Agree Clear Judged"], "FineGeo: exact predicates and margins against Geom2D on a small grid")
        for i in range(1 if c.quick else 10):
            cmd = ["util-fine-" + prop.lower(), "--n", 3000 if c.quick else 20000, "--seed", c.seed + 15485863 * i]
            c.judge(c.execute(*cmd), "UtilTrace", "TraceSpec", ['Prop = "%s"' % prop, "Base = 4096"],
                    "points of any position, near special cases", start_ops=None, shard_events=2500,
                    command="kami-exec " + " ".join(map(str, cmd)))
        return c.finish(assumptions=UTIL_ASSUME)
    return run


for _p in ["S01", "S02", "S03", "S04", "S05"]:
    PLANS[_p] = util_plan(_p)

# ---- geometric algebra ------------------------------------------------------------------------

ALG_ASSUME = [
    "operands are integers scaled by powers of two, in i64, f32 and f64; results that are not integers are compared "
    "in fixed point (thousandths to millionths), far above the rounding error of the scales used",
    "the component of a trivector is read from its Debug form (there is no accessor)",
]


def alg_plan(prop):
    laws = {"A01": "Associative Distributive OuterAssociative Reversal VectorsSplit",
            "A02": "Distributive", "A03": "Norms Reversal", "A04": "Rotations Formulas FromVectors WideTurn",
            "A05": "Reflections Norms", "A06": ""}[prop]

    def run(c):
        if prop == "A06":
            c.design("Blades", "BSpec", ["MaxDim = %d" % (12 if c.quick else 16), "Base = 16"],
                     ["INVARIANTS CountsSubsets Symmetric Pascal SumsUp Judged"],
                     "Blades: the counting formula against the sets of basis vectors themselves")
        elif c.quick:
            c.design("AlgLaws", "LSpec", ["C = {0, 1}", "D = {0, 1}", "Base = 4"], ["INVARIANTS " + laws],
                     "AlgLaws: laws of the geometric product over all multivectors with components 0, 1")
        else:
            c.design("AlgLaws", "LSpec", ["C = {-1, 0, 1}", "D = {0, 1}", "Base = 4"], ["INVARIANTS " + laws],
                     "AlgLaws: laws of the geometric product over all multivectors with components -1, 0, 1")
        if prop in ("A03", "A04", "A05", "A06"):
            c.design("MC_Wide", "WSpec", ["Base = %d" % (3 if c.quick else 7), "Range = %d" % (40 if c.quick else 150)],
                     ["INVARIANT Right"], "Wide: arithmetic on limbs against TLC's integers")
        n = {"A01": 6000, "A02": 1500, "A03": 10000, "A04": 6000, "A05": 15000, "A06": 1500}[prop]
        for i in range(1 if c.quick or prop == "A06" else 12):
            cmd = ["alg-" + prop.lower(), "--n", n if c.quick else 2 * n, "--seed", c.seed + 7368787 * i]
            c.judge(c.execute(*cmd), "AlgTrace", "TraceSpec", ['Prop = "%s"' % prop, "Base = 4096"],
                    "recorded operations of the math module", start_ops=None, shard_events=15000,
                    command="kami-exec " + " ".join(map(str, cmd)))
        for i in range(0 if prop not in ("A03", "A04", "A05") else 1 if c.quick else 12):
            cmd = ["alg-fine-" + prop.lower(), "--n", 800 if c.quick else 4000, "--seed", c.seed + 7368787 * i]
            c.judge(c.execute(*cmd), "AlgTrace", "TraceSpec", ['Prop = "%s"' % prop, "Base = 4096"],
                    "operations on operands near special cases and of all sizes, to the last digits",
                    start_ops=None, shard_events=1000, command="kami-exec " + " ".join(map(str, cmd)))
        return c.finish(assumptions=ALG_ASSUME)
    return run


for _p in ["A01", "A02", "A03", "A04", "A05", "A06"]:
    PLANS[_p] = alg_plan(_p)

# ---- .FOLD documents -------------------------------------------------------------------------

FOLD_ASSUME = [
    "numbers are compared as single precision numbers (the fields are f32): literals are generated from the number they "
    "stand for; an object names no recognized key twice",
    "unreadable means missing, a directory, or a dangling or circular link (permissions do not apply to the superuser)",
]


def fold_plan(prop):
    def run(c):
        def validate(trace, what, cmd):
            c.judge(trace, "FoldTrace", "TraceSpec", ['Prop = "%s"' % prop], what, start_ops=("new",),
                    shard_events=2500, command=" ".join(map(str, cmd)))

        mc = ["Objects <- SomeObjects", "Damages <- SomeDamages", "MaxOps = %d" % (5 if c.quick else 6)]
        c.design("MC_FoldLife", "Spec", mc,
                 ["VIEW View", "INVARIANTS Lossless OrderFree UnknownIgnored RoundTrip Sane TableSane",
                  "PROPERTIES DamagedRefused"],
                 "FoldLife: every history of writing, damaging, importing and exporting a file of that length")
        h = c.generate("MC_FoldLife", "Spec", mc, ["VIEW View", "ACTION_CONSTRAINT PrintLife"],
                       "one history per transition of FoldLife")
        cmd = ["fold-replay", "--in", h, "--seed", c.seed]
        validate(c.execute(*cmd), "replayed histories of FoldLife", cmd)
        h = c.generate("FoldCases", "CasesSpec", [], ["ACTION_CONSTRAINT PrintCase"],
                       "every recognized key with values of every kind, alone and beside others; all ordered pairs of keys")
        cmd = ["fold-replay", "--in", h, "--seed", c.seed]
        validate(c.execute(*cmd), "replayed cases of FoldCases", cmd)
        for i in range(1 if c.quick else 12):
            cmd = ["fold-random", "--n", 600 if c.quick else 1500, "--seed", c.seed + 1299709 * i]
            validate(c.execute(*cmd), "random documents", ["kami-exec"] + cmd)
        if prop == "F03":
            cmd = ["fold-cuts", "--n", 12 if c.quick else 120, "--seed", c.seed]
            validate(c.execute(*cmd), "files cut short at every byte", ["kami-exec"] + cmd)
        return c.finish(assumptions=FOLD_ASSUME)
    return run


for _p in ["F01", "F02", "F03"]:
    PLANS[_p] = fold_plan(_p)

NOTES = {
    "G": ("TLC explores the specification exhaustively on small lattices (every transition satisfies the "
          "contract); the real library is bound to it by replaying one history per explored transition and by "
          "validating every call of thousands of random histories against the same contract, full state after "
          "every call. Trusted: the recorder (public accessors, Debug of node data), TLC, lattice positions.",
          "TLA+ specification of the crease graph (TLC), spec-generated histories replayed into the code, trace validation"),
    "P": ("Exact integer oracle in TLA+; inputs are recorded from the real code and judged by TLC; the ear-clipping "
          "design itself is model checked. Polygons have integer coordinates times a power of two, of up to 24 bits.",
          "TLA+ specification of polygons and ear clipping (TLC), trace validation of recorded calls"),
    "S": ("Exact integer oracle in TLA+ over exhaustive small configurations and random ones at several scales; "
          "irrational results are compared in fixed point.",
          "TLA+ geometry specification (TLC), trace validation of recorded calls"),
    "A": ("Geometric algebra specified in TLA+ from the multiplication of basis blades; laws checked by TLC; every "
          "recorded operation compared component by component.",
          "TLA+ specification of the geometric algebra (TLC), trace validation of recorded calls"),
    "F": ("Document specification in TLA+; files are written, imported and exported by the real code and every "
          "field is compared by TLC with the field the specification derives from the JSON object.",
          "TLA+ specification of FOLD documents (TLC), trace validation of recorded imports and exports"),
}
