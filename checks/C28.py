import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_pts, enc_s, req

KIND = {"distMatrix": "DistMatrix", "neighGraph": "neighGraph", "rips": "ripsPipe", "fastPersistence": "FastPersistence", "fast": "FastPersistence",
        "persistence": "PersistencePairs", "upscale": "Upscale"}


@st.composite
def gen(draw, tier):
    t = draw(st.sampled_from(lhf.TYPES))
    pipes = ["distMatrix", "neighGraph", "rips", "fastPersistence"]
    if t != "indSimplexTree" and draw(st.booleans()):
        pipes[3] = "persistence"
    pipes = pipes[:draw(st.integers(1, 4))]
    for _ in range(draw(st.integers(0, 2))):
        pipes.insert(draw(st.integers(0, len(pipes))), draw(st.sampled_from(["distMatrix", "upscale", "bogus"])))
    pts = draw(ph.cloud(nmin=1, nmax=10))
    wide = draw(st.sampled_from([0, 0, 0, 10, 60])) if "persistence" not in pipes else 0
    pts = [p + [0.0] * wide for p in pts]
    return {"type": t, "pipes": pipes, "pts": pts, "eps": draw(ph.eps_for(pts)), "dim": draw(st.integers(1, 3))}


def scaled(b):
    for k, u in ((1e9, "GB"), (1e6, "MB"), (1e3, "KB")):
        if b > k:
            return b / k, u
    return b, "B"


def check_line(line, kind, size, nv, ns, took=None):
    f = line.split(",")
    req(len(f) == 6, "statistics line %r does not have six fields", line)
    req(f[0] == kind, "statistics line %r is for %s", line, kind)
    req(float(f[1]) >= 0, "negative time in %r", line)
    if took:
        # the same clock around the call; a call that computed for long spent that time in the stage
        req(float(f[1]) <= took["wall"] + 2e-6, "%r reports more than the %r seconds the call took", line, took["wall"])
        req(took["cpu"] < 0.25 or float(f[1]) >= 0.05 * took["cpu"], "%r reports less than the %r seconds of computing the call took", line, took["cpu"])
    v, u = scaled(size)
    req(f[3] == u and abs(float(f[2]) - v) <= 1e-6, "the packet takes %r bytes, reported as %s %s", size, f[2], f[3])
    req(int(f[4]) == nv and int(f[5]) == ns, "%d vertices and %d simplices, reported as %s and %s", nv, ns, f[4], f[5])


def run(c, drv):
    cf = lhf.conf(c["type"], c["eps"], c["dim"], outputFile="log")
    s = Script()
    s("new", enc_s(c["type"]), enc_conf(cf))("data", enc_pts(c["pts"]))
    for p in c["pipes"]:
        s("run", enc_s(p), enc_conf(cf))("counts")("snap")
    r = drv.script(s)
    want = []
    prev = ""
    for k, p in enumerate(c["pipes"]):
        made, cnt, snap = r[3 * k], r[3 * k + 1], r[3 * k + 2]
        req(snap["stats"].startswith(prev), "stage %s rewrote the statistics of the earlier stages", p)
        add = snap["stats"][len(prev):]
        prev = snap["stats"]
        if p == "bogus":
            req(not made["made"] and add == "", "an unknown stage added statistics %r", add)
            continue
        req(add.endswith("\n") and add.count("\n") == 1, "stage %s added %r, not one line", p, add)
        bytes_ = 8 * sum(len(x) for x in c["pts"]) + cnt["size"]
        req(cnt["psize"] == bytes_, "packet size is %r, its data and complex take %r", cnt["psize"], bytes_)
        check_line(add[:-1], KIND[p], cnt["psize"], cnt["vertices"], cnt["simplices"], made)
    return len(c["pipes"]) >= 2 and len(c["pts"]) >= 2, [c["type"]] + list(c["pipes"][-1:])


@st.composite
def gbig(draw, tier):
    n = draw(st.sampled_from([0, 1, 124, 125, 126, 127, 1000, 124999, 125000, 125001, 130000]))
    return {"type": draw(st.sampled_from(lhf.TYPES)), "n": n}


def run_big(c, drv):
    # n coordinates in rows of at most 1000 and nothing in the complex
    n = c["n"]
    pts = [[0.5] * min(1000, n - k) for k in range(0, n, 1000)]
    cf = lhf.conf(c["type"], 1.0, 1, outputFile="log")
    r = drv.script(Script()("new", enc_s(c["type"]), enc_conf(cf))("data", enc_pts(pts))("run", enc_s("upscale"), enc_conf(cf))("counts")("snap"))
    cnt, st_ = r[1], r[2]["stats"]
    req(cnt["psize"] == 8 * n + cnt["size"], "packet size is %r, its data and complex take %r", cnt["psize"], 8 * n + cnt["size"])
    check_line(st_.rstrip("\n"), "Upscale", cnt["psize"], 0, 0)
    return True, [scaled(cnt["psize"])[1]]


def run_huge(c, drv):
    # around 100 MB and 1 GB
    n, w = c["n"], c["w"]
    cf = lhf.conf("simplexTree", 1.0, 1, outputFile="log")
    r = drv.script(Script()("new", enc_s("simplexTree"), enc_conf(cf))("fill", str(n), str(w))("run", enc_s("upscale"), enc_conf(cf))("counts")("stats"), "fast")
    cnt, st_ = r[1], r[2]["stats"]
    req(cnt["psize"] == 8 * n * w + cnt["size"], "packet size is %r, its data and complex take %r", cnt["psize"], 8 * n * w + cnt["size"])
    check_line(st_.rstrip("\n"), "Upscale", cnt["psize"], 0, 0)
    return True, [scaled(cnt["psize"])[1]]


def gen_huge(tier):
    return st.fixed_dictionaries({"n": st.integers(10, 40), "w": st.sampled_from([10 ** 5, 250000])})


def gen_large(tier):
    return ph.scattered(sizes=(40, 300), types=["simplexTree", "indSimplexTree", "simplexArrayList"])


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    if c["type"] == "simplexArrayList":
        pts = pts[:60]
    return run({"type": c["type"], "pipes": ["distMatrix", "neighGraph", "rips", "fastPersistence"], "pts": pts, "eps": eps, "dim": 2}, drv)


CHECK = Check("C28", [Facet("stages", lambda t: gen(t), run, 5000, 40000), Facet("sizes", lambda t: gbig(t), run_big, 40, 200), Facet("huge", gen_huge, run_huge, 8, 24, fixed=[{"n": 13, "w": 10 ** 6}, {"n": 65, "w": 10 ** 6}, {"n": 125, "w": 10 ** 6}, {"n": 126, "w": 10 ** 6}]), Facet("large", gen_large, run_large, 120, 1200)], {"core": {}, "fast": {"src": "core", "san": False}},
              rule="A case runs a random sequence of stages, some repeated or unknown, and after each compares the one statistics line it added with the "
                   "packet's own size and the complex's counts; sizes range across the byte, KB and MB borders. Non-trivial: two stages and two points.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
