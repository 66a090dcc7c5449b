"""Whole-program runs: argument vectors, input files and what the program left behind."""
from hypothesis import strategies as st
from pbt import enc_s, req

SHORT = {"mode": "m", "dimensions": "d", "iterations": "r", "pipeline": "p", "inputFile": "i", "outputFile": "o", "epsilon": "e",
         "lambda": "l", "debug": "x", "complexType": "c", "clusters": "k", "preprocessor": "pre", "upscale": "u"}
HEAD = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount"
KIND = {"distMatrix": "DistMatrix", "neighGraph": "neighGraph", "rips": "ripsPipe", "fastPersistence": "FastPersistence", "fast": "FastPersistence",
        "persistence": "PersistencePairs"}
FAST = ["distMatrix", "neighGraph", "rips", "fastPersistence"]


@st.composite
def argv(draw, opts):
    """The options in a drawn order and spelling."""
    out = []
    for k in draw(st.permutations(sorted(opts))):
        out += [draw(st.sampled_from(["--" + k, "-" + SHORT[k]])), opts[k]]
    return out


def csv_text(pts, sep=",", end="\n", last=True):
    return end.join(sep.join(repr(float(x)) for x in p) for p in pts) + (end if last else "")


def call(drv, files, runs):
    return drv["cli"].call("cli %d %s %d %s" % (len(files), " ".join(enc_s(n) + " " + enc_s(t) for n, t in files.items()), len(runs),
                                                " ".join("%d %s" % (len(a), " ".join(enc_s(x) for x in a)) for a in runs)))["runs"]


def bars_of(text):
    ls = text.split("\n")
    req(ls[0] == "dimension,birth,death", "the barcode file starts with %r", ls[0])
    req(ls[-1] == "", "the barcode file does not end with a line end")
    ls = ls[1:-1]
    if ls and ls[0] == "dim,birth,death":      # the persistence-pairs stage brings a header of its own
        ls = ls[1:]
    out = []
    for l in ls:
        f = l.split(",")
        req(len(f) == 3, "barcode line %r", l)
        out.append((int(f[0]), float(f[1]), float(f[2])))
    return out


def stats_of(text):
    ls = text.split("\n")
    req(ls[0] == HEAD, "the statistics file starts with %r", ls[0])
    req(ls[-1] == "", "the statistics file does not end with a line end")
    out = []
    for l in ls[1:-1]:
        f = l.split(",")
        req(float(f[1]) >= 0, "statistics line %r", l)
        out.append(f)
    return out
