import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf, cli
from pbt import Check, Facet, Script, enc_conf, enc_s, req

SIZE = 50


@st.composite
def gen(draw, tier):
    n = draw(st.one_of(st.sampled_from([0, 1, 49, 50, 50, 50, 51, 52, 99, 100, 100, 101, 150, 199, 200, 201]), st.integers(0, 330), st.integers(331, 1300) if tier == "thorough" else st.integers(331, 600)))
    n2 = draw(st.sampled_from([None, None, 0, 1, 50, 60, 120]))
    return {"n": n, "n2": n2, "dim": draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9])), "wide": draw(st.sampled_from([0, 2, 8, 30])), "pick": draw(st.floats(0, 1)),
            "D": draw(st.sampled_from([1, 1, 2])), "seed": draw(st.integers(0, 10 ** 6))}


def points(r, c, n):
    return [[r.randint(-c["wide"], c["wide"]) * 0.5 for _ in range(c["dim"])] for _ in range(n)]


def run(c, drv, name="core"):
    r = random.Random(c["seed"])
    streams = [points(r, c, c["n"])] + ([points(r, c, c["n2"])] if c["n2"] is not None else [])
    # squared distances are multiples of a quarter: a cutoff between two of them, low enough to keep triangles few
    sq = sorted({round(4 * ph.dist(a, b) ** 2) for i, a in enumerate(streams[0][:SIZE]) for b in streams[0][:i]} or {0})
    eps = math.sqrt(sq[int(c["pick"] * ((len(sq) - 1) // (4 if c["D"] == 2 else 1)))] + 0.5) / 2
    s = Script()
    tags = []
    for q, pts in enumerate(streams):
        cf = lhf.conf("simplexTree", eps, c["D"], inputFile="s%d.csv" % q, pipeline="naivewindow", outputFile="log")
        s("put", enc_s("s%d.csv" % q), enc_s(cli.csv_text(pts)))
        s("new", enc_s("simplexTree"), enc_conf(cf))("run", enc_s("naivewindow"), enc_conf(cf))("snap")
        if len(pts) == SIZE:
            s("counts")("edges", repr(eps))
    rec = drv.script(s, name)
    for q, pts in enumerate(streams):
        snap = rec[1]
        n = len(pts)
        req(rec[0]["made"] and rec[0]["cfg"], "the stage could not be configured")
        want = pts[-SIZE:] if n >= SIZE else []
        got = snap["data"]
        req(got == want, "run %d of %d points: the window holds %d points, the first being %s, instead of the last %d, the first being %s",
            q + 1, n, len(got), got[:1], len(want), want[:1])
        rec = rec[2:]
        if n != SIZE:
            continue
        tags.append("filled")
        cx = ph.rips(pts, eps, 1)
        cnt, edges = rec[0], rec[1]["edges"]
        dm = ph.dmat(pts)
        sd = snap["dist"]
        req(len(sd) == n, "the window's distances have %d rows", len(sd))
        req(all(abs(sd[i][j] - dm[i][j]) <= 1e-9 for i in range(n) for j in range(i + 1, n)), "a distance of the window is wrong")
        req(cnt["vertices"] == n, "the complex of the full window has %d vertices", cnt["vertices"])
        for d in (0, 1):
            a = sorted((tuple(x), w) for x, w in (edges[d] if d < len(edges) else []))
            b = sorted(cx[d])
            req([x for x, _ in a] == [x for x, _ in b], "dimension %d of the full window's complex: %d simplices instead of %d", d, len(a), len(b))
            req(all(abs(x[1] - y[1]) <= 1e-9 for x, y in zip(a, b)), "a weight of the full window's complex is wrong")
        rec = rec[2:]
    return c["n"] >= SIZE and c["wide"] > 0, tags + ["mult" if c["n"] % 100 == 0 else "rest"] + (["twice"] if c["n2"] is not None else [])


@st.composite
def gen_endless(draw):
    c = draw(gen("quick"))
    return dict(c, n=draw(st.sampled_from([32767, 32768, 32769, 32836, 32936, 32836, 40001, 65535, 65536, 65537, 65636, 65700])), n2=None, dim=1, D=1)


def run_endless(c, drv):
    return run(c, drv, "fast")


# the same through the program: the last window is dumped when debugging
@st.composite
def gen_cli(draw):
    return {"n": draw(st.one_of(st.sampled_from([0, 1, 49, 50, 51, 99, 100, 101, 150, 200]), st.integers(0, 250))), "dim": draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9])), "wide": draw(st.sampled_from([2, 8, 30])),
            "seed": draw(st.integers(0, 10 ** 6)), "mode": draw(st.sampled_from(["naive", "naivewindow", "pipeline"]))}


def run_cli(c, drv):
    r = random.Random(c["seed"])
    pts = points(r, c, c["n"])
    argv = ["--pipeline", "naivewindow"] if c["mode"] == "pipeline" else ["-m", c["mode"]]
    text = cli.csv_text(pts)
    x = cli.call(drv, {"in.csv": text}, [argv + ["-e", "0.3", "-i", "in.csv", "-o", "out", "-x", "1"]])[0]
    req(x["rc"] == 0, "the program returned %r", x["rc"])
    fs = x["files"]
    req(fs["in.csv"] == text, "the input file changed")
    if not pts:
        req("Usage" in x["out"], "no usage shown for an input without data")
        return False, ["empty"]
    want = (["DistMatrix", "neighGraph"] if len(pts) >= SIZE else []) + ["NaiveWindow"]
    got = [f[0] for f in cli.stats_of(fs["out_stats.csv"])]
    req(got == want, "the statistics list the stages %s for %d points", got, len(pts))
    req(cli.bars_of(fs["out.csv"]) == [], "a barcode was written: %r", fs["out.csv"])
    win = pts[-SIZE:] if len(pts) >= SIZE else pts
    text = fs.get("output/NaiveWindow_0_output.csv", "")
    rows = [[float(v) for v in l.rstrip(",").split(",")] for l in text.split("\n") if l.strip()]
    req(rows == win, "the dumped window holds %d points, the first being %s, instead of the last %d, the first being %s", len(rows), rows[:1], len(win), win[:1])
    return len(pts) > SIZE, [c["mode"]]


CHECK = Check("C19", [Facet("window", lambda t: gen(t), run, 500, 10000), Facet("endless", lambda t: gen_endless(), run_endless, 8, 60), Facet("program", lambda t: gen_cli(), run_cli, 80, 1500)], {"core": {}, "fast": {"src": "core", "san": False}, "cli": {"main": "LHFmain/main.cpp"}},
              rule="A case is one or two random streams run through the naive-window stage; the final window is compared with the last 50 points and, when the "
                   "stream just fills it, the complex with the neighborhood graph. Non-trivial: the window fills with points that differ.",
              assumptions=["Coordinates are multiples of one half."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
