import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import numpy as np
import pbt, ph, lhf, cli
from pbt import Check, Facet, Script, enc_conf, enc_s, req

SIZE = 200
EDGE = 1e-9


class Close(Exception):
    pass


def le(a, b):
    """a <= b, unless it hangs on rounding (only averages are rounded)"""
    if abs(a - b) <= EDGE * max(1.0, abs(b)):
        raise Close
    return a <= b


@st.composite
def gen(draw, big, segs=9, top=70):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9]))
    seg = [[draw(st.sampled_from([0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7])), draw(st.one_of(st.integers(1, top), st.integers(1, 4))), draw(st.sampled_from([0, 1, 1, 2, 4]))] for _ in range(draw(st.integers(0, segs if big else 4)))]
    return {"dim": dim, "first": draw(st.sampled_from([SIZE] * 6 + [0, 1, 150, 199, 203])) if big else draw(st.sampled_from([SIZE, SIZE, SIZE + 1, 0, 3, 199])),
            "start": draw(st.sampled_from([0, 0, 1, 3])), "wide": draw(st.sampled_from([2, 6, 40])), "seg": seg,
            "sc": draw(st.sampled_from([1.0, 1.0, 0.5, 0.25])), "seed": draw(st.integers(0, 10 ** 6)), "runs": draw(st.sampled_from([1, 1, 2])),
            "real": draw(st.sampled_from([0, 2, 10 ** 6]))}


def build(c):
    r = random.Random(c["seed"])
    places = [[r.randrange(-12, 13) * 5 for _ in range(c["dim"])] for _ in range(6)]
    pts = []
    for k in range(c["first"]):
        w = places[r.randrange(c["start"] + 1)]
        pts.append([(x + r.randint(-c["wide"], c["wide"])) * c["sc"] for x in w])
    for w, n, spread in c["seg"]:
        for _ in range(n):
            if w == 7:
                pts.append(Probe(r, c["sc"]))
                continue
            if w == 6:          # strays, far from everything and each other
                pts.append([float(40 * (len(pts) + 100))] * c["dim"])
                continue
            pts.append([(x + r.randint(-spread, spread)) * c["sc"] for x in places[w]])
    if c.get("real"):       # off the grid: no ties but those of repeated points
        seen = {}
        pts = [seen.setdefault(tuple(p) + (r.randrange(c["real"]),), [x + r.uniform(-0.1, 0.1) for x in p]) if not isinstance(p, Probe) else p for p in pts]
    if c.get("repeat"):
        pts[c["first"]:c["first"]] = [pts[7]] * c["repeat"]
    return pts


@st.composite
def gen_returns(draw, more):
    """Partitions left alone until outdated, then visited again and probed."""
    c = draw(gen(True))
    c.update(first=SIZE, start=0, sc=draw(st.sampled_from([1.0, 0.25, 0.25])), dim=draw(st.sampled_from([1, 2, 3])), runs=1)
    busy, *small = draw(st.lists(st.integers(1, 5), min_size=2, max_size=4, unique=True))
    seg = [[w, draw(st.integers(3, 20)), draw(st.sampled_from([1, 2, 4]))] for w in small]
    for _ in range(draw(st.integers(2, 14 if more else 8))):
        seg += [[0 if draw(st.integers(0, 9)) == 0 else busy, draw(st.sampled_from([24, 25, 26, 26, 27, 30])), draw(st.sampled_from([1, 2, 4]))]]
        w = draw(st.sampled_from(small))
        seg += [[w, draw(st.integers(1, 5)), draw(st.sampled_from([1, 2, 2, 4]))], [7, draw(st.integers(0, 3)), 0]]
    return dict(c, seg=seg)


class Probe:
    """A point placed, when its turn comes, so that the average of a partition decides."""
    def __init__(self, r, sc):
        self.recent, self.u, self.axis, self.sign, self.sc = r.random() < 0.6, r.random(), r.randrange(9), r.choice([-1, 1]), sc
        self.f = 4 * r.choice([0.9, 0.97, 0.99, 1.01, 1.03, 1.1]) if r.random() < 0.7 else r.choice([0.1, 0.5, 0.9, 1.0, 1.5])

    def place(self, win, lab, avg, last):
        ok = [l for l in sorted(avg) if avg[l] > 0]
        if not ok:
            return [x + self.sc for x in win[-1]]
        l = max(ok, key=lambda k: last[k]) if self.recent else ok[int(self.u * len(ok))]
        k = self.axis % len(win[0])
        p = list(max((w for w, x in zip(win, lab) if x == l), key=lambda w: self.sign * w[k]))
        p[k] += self.sign * self.f * avg[l]
        return [float("%.12g" % x) for x in p]


def dists(a, p):
    return np.sqrt(((np.array(a, dtype=float) - np.array(p, dtype=float)) ** 2).sum(axis=1))


def averages(D, lab):
    out = {}
    for l in sorted(set(lab)):
        ix = [i for i, x in enumerate(lab) if x == l]
        if len(ix) == 1:
            out[l] = -1.0
            continue
        sub = D[np.ix_(ix, ix)].copy()
        np.fill_diagonal(sub, np.inf)
        out[l] = float(sub.min(axis=1).mean())
    return out


def model(pts):
    """The window after every point; statistics are recomputed from scratch. Probes in `pts` become points."""
    win, lab, last, key = [], [], {}, 0
    seen = {"accept": 0, "reject": 0, "outdated": 0, "split": 0, "other": 0, "parts": 1}
    D, avg, hist = None, None, []
    dim = max([len(p) for p in pts if not isinstance(p, Probe)], default=1)
    for at, p in enumerate(pts):
        if isinstance(p, Probe):
            p = pts[at] = p.place(win, lab, avg, last) if avg else [1.0] * dim
        if len(win) < SIZE:
            win.append(p)
            lab.append(0)
            key += 1
            if len(win) == SIZE:
                D = np.array([dists(win, q) for q in win])
                avg = averages(D, lab)
                last = {0: key - 1}
            hist.append(list(win) if len(win) == SIZE else None)
            continue
        if len(avg) == 1 and p in win:
            seen["reject"] += 1
            hist.append(hist[-1])
            continue
        d = dists(win, p)
        near = int(d.argmin())
        nn = float(d[near])
        out = None
        if len(avg) == 1:
            a = avg[lab[0]]
            if nn == 0 or (nn <= 1 and le(a, 0.25)) or (a > 0 and not (nn > 8 * a) and le(nn / a, 4)):
                seen["reject"] += 1
                hist.append(list(win))
                continue
            out, target = 0, lab[0] + 1
            seen["split"] += 1
        else:
            L = lab[near]
            if nn == 0:
                target = L
            elif nn > 5:
                target = max(lab) + 1
            elif avg[L] == -1:
                target = L
            elif nn <= 1 and le(avg[L], 0.25):
                target = L
            elif avg[L] > 0 and not nn > 8 * avg[L] and le(nn / avg[L], 4):
                target = L
            else:
                target = max(lab) + 1
            old = sorted((lab.count(l), l) for l in last if key - last[l] > 25)
            if old:
                out = lab.index(old[0][1])
                seen["outdated"] += 1
            elif target != L:
                out = 0
            else:
                out = next(i for i, l in enumerate(lab) if l != target)
                seen["other"] += 1
        seen["accept"] += 1
        gone = lab[out]
        del win[out], lab[out]
        if gone not in lab:
            del last[gone]
        keep = [i for i in range(SIZE) if i != out]
        D = D[np.ix_(keep, keep)]
        d = d[keep]
        D = np.block([[D, d[:, None]], [d[None, :], np.zeros((1, 1))]])
        win.append(p)
        lab.append(target)
        last[target] = key
        key += 1
        avg = averages(D, lab)
        seen["parts"] = max(seen["parts"], len(avg))
        hist.append(list(win))
    return hist, D, seen


def printed(win):
    """As the window files hold them: six significant digits."""
    return [[float("%g" % x) for x in p] for p in win]


def show(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "position %d holds %s, expected %s" % (i, x, y)
    return "%d points, expected %d" % (len(a), len(b))


def run(c, drv):
    pts = build(c)
    try:
        hist, D, seen = model(pts)
    except Close:
        return False, ["close"]
    n = len(pts)
    cf = lhf.conf("simplexTree", 0.001, 1, inputFile="stream.csv", pipeline="slidingwindow", outputFile="log")
    dumps = [k for k in range(1, n + 1) if k % 100 == 0 and k > SIZE] + ([n] if n % 100 and n >= SIZE else [])
    s = Script()
    s("put", enc_s("stream.csv"), enc_s(cli.csv_text(pts)))
    for _ in range(c["runs"]):
        s("new", enc_s("simplexTree"), enc_conf(cf))("run", enc_s("slidingwindow"), enc_conf(cf))("snap")
        for k in range(len(dumps) + 1):
            s("cat", enc_s("output/SlidingWindow_%d_output.csv" % k))
    r = drv.script(s, "fast" if n > SIZE + 50 else "core")
    per = 3 + len(dumps)
    for q in range(c["runs"]):
        x = r[per * q:per * q + per]
        snap = x[1]
        want = hist[(n if n % 100 else n - n % 100 if n > SIZE else SIZE) - 1] if n >= SIZE else []
        req(snap["data"] == want, "run %d: the final window is wrong: %s", q + 1, show(snap["data"], want))
        if n >= SIZE:
            got = np.array(snap["dist"], dtype=float)
            req(got.shape == (SIZE, SIZE), "the distance matrix of the window has shape %s", got.shape)
            if n % 100 or n == SIZE or True:
                up = np.triu_indices(SIZE, 1)
                bad = np.nonzero(np.abs(got[up] - D[up]) > 1e-9)[0]
                req(len(bad) == 0, "%d of the window's distances are wrong", len(bad))
        for j, k in enumerate(dumps):
            e = x[2 + j]
            req(e["exists"], "no window was written after point %d", k)
            rows = [[float(v) for v in l.rstrip(",").split(",")] for l in e["text"].split("\n") if l.strip()]
            req(rows == printed(hist[k - 1]), "the window after point %d is wrong: %s", k, show(rows, printed(hist[k - 1])))
        req(not x[2 + len(dumps)]["exists"], "more windows written than the %d expected", len(dumps))
    return seen["accept"] >= 3, ["parts%d" % min(seen["parts"], 5)] + [k for k in ("reject", "outdated", "split", "other") if seen[k]] + (["short"] if n < SIZE else [])


@st.composite
def gen_first(draw):
    return {"dim": draw(st.integers(1, 3)), "first": SIZE, "start": draw(st.sampled_from([0, 1, 3, 5])), "wide": draw(st.sampled_from([0, 2, 6, 40])), "seg": [],
            "sc": draw(st.sampled_from([1.0, 0.5, 0.25])), "seed": draw(st.integers(0, 10 ** 6)), "pick": draw(st.floats(0, 1))}


def run_first(c, drv):
    """The complex, distances and weights when the window has just been filled."""
    pts = build(c)
    sq = sorted({round((ph.dist(a, b) / c["sc"]) ** 2) for i, a in enumerate(pts) for b in pts[:i]})
    eps = math.sqrt(sq[int(c["pick"] * (len(sq) - 1) / (2 if len(sq) > 40 else 1))] + 0.5) * c["sc"]
    cf = lhf.conf("simplexTree", eps, 1, inputFile="stream.csv", pipeline="slidingwindow", outputFile="log")
    s = Script()
    s("put", enc_s("stream.csv"), enc_s(cli.csv_text(pts)))
    s("new", enc_s("simplexTree"), enc_conf(cf))("run", enc_s("slidingwindow"), enc_conf(cf))("snap")("counts")("edges", repr(eps))
    r = drv.script(s)
    snap, cnt, edges = r[1], r[2], r[3]["edges"]
    req(snap["data"] == pts, "the window just filled is wrong: %s", show(snap["data"], pts))
    cx = ph.rips(pts, eps, 1)
    req(cnt["vertices"] == SIZE, "the complex of the full window has %d vertices", cnt["vertices"])
    for d in (0, 1):
        a = sorted((tuple(x), w) for x, w in (edges[d] if d < len(edges) else []))
        b = sorted(cx[d])
        req([x for x, _ in a] == [x for x, _ in b], "dimension %d of the full window's complex: %d simplices instead of %d", d, len(a), len(b))
        req(all(abs(x[1] - y[1]) <= 1e-9 for x, y in zip(a, b)), "a weight of the full window's complex is wrong")
    want = sorted({w for _, w in cx[1]} | {0.0, eps})
    got = sorted(snap["weights"])
    req(len(got) == len(want) and all(abs(x - y) <= 1e-9 for x, y in zip(got, want)), "%d filtration weights instead of %d", len(got), len(want))
    return len(cx[1]) > 10, ["edges"] if cx[1] else []


@st.composite
def gen_endless(draw):
    """More points than fit two bytes, nearly all of them refused as repeats."""
    c = draw(gen(True, 3, 40))
    return dict(c, first=SIZE, start=0, wide=6, dim=draw(st.integers(1, 2)), real=10 ** 6, runs=1, repeat=draw(st.sampled_from([32400, 32500, 32560, 32565, 65200, 65330, 40000])))


def run_endless(c, drv):
    return run(c, drv)


# the same through the program
@st.composite
def gen_cli(draw):
    c = draw(gen(True))
    c["mode"] = draw(st.sampled_from(["sw", "slidingwindow", "pipeline"]))
    return c


def run_cli(c, drv):
    pts = build(c)
    try:
        hist, D, seen = model(pts)
    except Close:
        return False, ["close"]
    n, text = len(pts), cli.csv_text(pts)
    argv = ["--pipeline", "slidingwindow"] if c["mode"] == "pipeline" else ["-m", c["mode"]]
    x = cli.call(drv, {"in.csv": text}, [argv + ["-e", "0.001", "-i", "in.csv", "-o", "out"]])[0]
    req(x["rc"] == 0, "the program returned %r", x["rc"])
    fs = x["files"]
    req(fs["in.csv"] == text, "the input file changed")
    got = [f[0] for f in cli.stats_of(fs["out_stats.csv"])]
    req(got[-1:] == ["SlidingWindow"], "the statistics list the stages %s", got)
    dumps = [k for k in range(1, n + 1) if k % 100 == 0 and k > SIZE] + ([n] if n % 100 and n >= SIZE else [])
    names = {"output/SlidingWindow_%d_output.csv" % j for j in range(len(dumps))}
    req(names == {k for k in fs if k.startswith("output/SlidingWindow")}, "windows written: %s, expected %s", sorted(fs), sorted(names))
    for j, k in enumerate(dumps):
        rows = [[float(v) for v in l.rstrip(",").split(",")] for l in fs["output/SlidingWindow_%d_output.csv" % j].split("\n") if l.strip()]
        req(rows == printed(hist[k - 1]), "the window after point %d is wrong: %s", k, show(rows, printed(hist[k - 1])))
    return seen["accept"] >= 3, [c["mode"]]


CHECK = Check("C20", [Facet("streams", lambda t: gen(True), run, 400, 6000), Facet("short", lambda t: gen(False), run, 150, 1500), Facet("long", lambda t: gen(True, 30, 120), run, 24, 600),
                      Facet("endless", lambda t: gen_endless(), run_endless, 8, 60),
                      Facet("returns", lambda t: gen_returns(t != "quick"), run, 150, 3000),
                      Facet("first", lambda t: gen_first(), run_first, 60, 800), Facet("program", lambda t: gen_cli(), run_cli, 60, 1200)],
              {"core": {}, "fast": {"src": "core", "san": False}, "cli": {"main": "LHFmain/main.cpp", "san": False}},
              rule="A case is a stream described by a few segments (places, spreads), run once or twice through the sliding-window stage; every window it "
                   "writes, the final window and its distances are compared with a reference model that recomputes all statistics at every point. When it first "
                   "fills, the complex, distances and weights are compared with the neighborhood graph. Cases whose "
                   "decisions depend on less than 1e-9 are left out. Non-trivial: at least three points entered a full window.",
              assumptions=["Coordinates on a dyadic grid, so that distances compare exactly, or off it, so that none tie."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
