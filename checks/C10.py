import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt
from pbt import Check, Facet, enc_s, req

SHORT = {"mpi": "a", "mode": "m", "dimensions": "d", "iterations": "r", "pipeline": "p", "inputFile": "i", "outputFile": "o", "epsilon": "e",
         "lambda": "l", "debug": "x", "complexType": "c", "clusters": "k", "preprocessor": "pre", "upscale": "u", "twist": "t", "collapse": "z"}
DEFAULT = {"mpi": "0", "mode": "standard", "dimensions": "1", "iterations": "250", "pipeline": "", "inputFile": "None", "outputFile": "output.csv",
           "epsilon": "5", "lambda": ".25", "debug": "0", "complexType": "simplexTree", "clusters": "20", "preprocessor": "", "upscale": "false",
           "twist": "false", "collapse": "false"}
FAST = "distMatrix.neighGraph.rips.fastPersistence"
MODES = ["standard", "reduced", "upscaleBound", "stream", "sw", "slidingwindow", "fast", "naive", "naivewindow"]


def model(argv):
    raw = {}
    for i in range(0, len(argv) - 1, 2):
        a = argv[i]
        if a.startswith("--"):
            raw[a[2:]] = argv[i + 1]
        elif a.startswith("-"):
            raw[a[1:]] = argv[i + 1]
    out = {k: v for k, v in raw.items() if k not in SHORT.values()}
    for l, s in SHORT.items():
        if s in raw:
            out[l] = raw[s]
        elif l not in out:
            out[l] = DEFAULT[l]
    return out


def pipeline(a):
    a = dict(a)
    pre = a["preprocessor"]
    if a["mpi"] == "1":
        a.update(pipeline=FAST, preprocessor=pre or "kmeans++", upscale="true")
        return a
    if a["pipeline"]:
        return a
    m = a["mode"]
    if m == "standard":
        a["pipeline"] = FAST
    elif m == "reduced":
        a.update(pipeline=FAST, preprocessor=pre or "kmeans++", upscale="false", complexType="simplexTree")
    elif m == "upscaleBound":
        a.update(pipeline="distMatrix.neighGraph.rips.persistence.boundary.upscale", preprocessor=pre or "kmeans++", upscale="true")
    elif m == "stream":
        a.update(pipeline=FAST, preprocessor=pre or "streamingkmeans")
    elif m in ("sw", "slidingwindow"):
        a.update(pipeline="slidingwindow", preprocessor="", upscale="false", complexType="simplexTree")
    elif m == "fast":
        a.update(pipeline=FAST, upscale="false", complexType="simplexTree")
    elif m in ("naive", "naivewindow"):
        a.update(pipeline="naivewindow", preprocessor="", upscale="false", complexType="simplexTree")
    return a


VALUE = {"mode": st.sampled_from(MODES + ["", "Standard", "mpi"]), "mpi": st.sampled_from(["0", "1", "2", "true"]),
         "pipeline": st.sampled_from(["", "distMatrix", "distMatrix.neighGraph.rips.persistence", "naive", "x.y"]),
         "preprocessor": st.sampled_from(["", "kmeans++", "denStream", "none"]), "upscale": st.sampled_from(["true", "false", "1"]),
         "complexType": st.sampled_from(["simplexTree", "simplexArrayList", "indSimplexTree", "q"])}
ANY = st.one_of(st.sampled_from(["5", "0.25", "-3", "--", "-", "", "out.csv", "a b", "-e", "1e-3"]), st.text(alphabet="abc/.-=_ 019", max_size=8),
                st.builds(lambda w, k: w * k, st.sampled_from(["a", "/dir", "0", "x.y."]), st.sampled_from([16, 40, 64, 130, 300])))


@st.composite
def gen(draw, tier):
    argv = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 11))
        if k == 0:
            name, val = draw(st.sampled_from(["foo", "Mode", "epsilonn", "b", "q-x", "kk"])), draw(ANY)
        elif k == 1:        # not an option at all
            argv += [draw(st.sampled_from(["file.csv", "mode", "e", "", "5"])), draw(ANY)]
            continue
        else:
            l = draw(st.sampled_from(list(SHORT) + ["mode", "mpi", "pipeline", "preprocessor"]))
            name = draw(st.sampled_from([l, SHORT[l]]))
            val = draw(VALUE.get(l, ANY))
        argv += [draw(st.sampled_from(["--", "-"])) + name, val]
    if draw(st.integers(0, 4)) == 0:
        argv.append(draw(st.sampled_from(["-e", "--mode", "-x", "--inputFile", "stray", "-"])))
    return {"argv": argv}


def run(c, drv):
    argv = c["argv"]
    r = drv["util"].call("args %d %s" % (len(argv) + 1, " ".join([enc_s("LHF")] + [enc_s(a) for a in argv])))
    want = model(argv)
    diff = {k: (r["args"].get(k), want.get(k)) for k in set(want) | set(r["args"]) if r["args"].get(k) != want.get(k)}
    req(not diff, "arguments %s: (got, expected) %s", argv, diff)
    bad = any(not a.startswith("-") for a in argv[0::2]) or len(argv) % 2
    req(bool(bad) == ("Usage" in r["console"]), "arguments %s: usage %sprinted", argv, "not " if bad else "")
    want = pipeline(want)
    for k in ("piped", "again"):
        diff = {x: (r[k].get(x), want.get(x)) for x in set(want) | set(r[k]) if r[k].get(x) != want.get(x)}
        req(not diff, "pipeline settings for %s: (got, expected) %s", argv, diff)
    for l in r["args"]:
        req(("\t" + l + " (") in r["printed"] and r["args"][l] in r["printed"], "argument %s is not printed", l)
    return len(argv) >= 4, ["mode:" + want["mode"]] + (["mpi"] if want["mpi"] == "1" else []) + (["stray"] if bad else [])


CHECK = Check("C10", [Facet("argv", lambda t: gen(t), run, 5000, 60000)], {"util": {"dirs": ["Utils"]}},
              rule="A case is an argument vector mixing long, short, repeated, unknown and stray arguments, parsed and expanded by the real parser "
                   "and by a model of the option and mode tables. Non-trivial: at least two arguments.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
