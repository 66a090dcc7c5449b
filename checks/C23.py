import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf, cli
from pbt import Check, Facet, req
from C24 import means, marginal


@st.composite
def gen(draw, tier):
    D = draw(st.sampled_from([1, 1, 2, 2, 2, 2, 2, 3, 3, 4]))
    k = draw(st.integers(1, 6))
    shape = draw(st.integers(0, 2))
    nmax = {1: 18, 2: 12, 3: 8, 4: 7}[D]
    if shape:
        # loops far apart: partitions with features of their own
        pts, j = [], 0
        for j in range(draw(st.integers(1, 3))):
            m, R = draw(st.integers(4, 6)), draw(st.sampled_from([3, 5]))
            if len(pts) + m > nmax + 4:
                break
            pts += [[60 * j + round(R * math.cos(2 * math.pi * i / m), 1), round(R * math.sin(2 * math.pi * i / m), 1)] for i in range(m)]
        pts = list(draw(st.permutations(pts)))
    else:
        pts = draw(ph.cloud(nmin=2, nmax=nmax))
    opts = {"inputFile": "in.csv", "outputFile": draw(st.sampled_from(["out", "out", "console"])), "mode": "reduced", "clusters": str(k), "dimensions": str(D),
            "epsilon": repr(draw(st.sampled_from([1.3, 4.3, 7.7, 21.3, 1000.1])))}
    if draw(st.integers(0, 3)) == 0:
        opts["preprocessor"] = draw(st.sampled_from(["kmeans++", "kmeans"]))
    if draw(st.integers(0, 3)) == 0:
        opts["iterations"] = draw(st.sampled_from(["1", "2"]))
    return {"pts": pts, "opts": opts, "argv": draw(cli.argv(opts))}


def entries(text):
    out = []
    for l in text.split("\n"):
        if l.strip():
            f = l.split(",\t")
            req(len(f) == 4 or len(f) == 3 and l.rstrip().endswith(","), "printed feature %r", l)
            out.append((int(f[0]), float(f[1]), float(f[2].rstrip(",\t")), sorted(int(v) for v in (f[3] if len(f) == 4 else "").split(",") if v.strip())))
    return out


def near(a, b):
    return abs(a - b) <= 2e-5 * max(1.0, abs(a), abs(b))


def run(c, drv):
    pts, o = c["pts"], c["opts"]
    eps, D = float(o["epsilon"]), int(o["dimensions"])
    x = cli.call(drv, {"in.csv": cli.csv_text(pts)}, [c["argv"]])[0]
    req(x["rc"] == 0, "the program returned %r", x["rc"])
    fs = x["files"]
    lab = [int(v) for v in fs["output/k-means++_label_output.csv"].split()]
    cen = [[float(v) for v in l.rstrip(",").split(",")] for l in fs["output/k-means++_centroid_output.csv"].split("\n") if l]
    req(len(lab) == len(pts) and all(0 <= v < len(cen) for v in lab), "labels %s for %d points and %d centroids", lab, len(pts), len(cen))
    cen = [a or b for a, b in zip(means(pts, lab, len(cen)), cen)]
    rad = 2 * max(ph.dist(p, cen[l]) for p, l in zip(pts, lab))
    parts = []
    for ce in cen:
        d = [ph.dist(p, ce) for p in pts]
        if any(abs(e - rad) < 1e-6 and (rad > 0 or e > 0) for e in d):
            return False, ["marginal"]
        parts.append([i for i, e in enumerate(d) if e < rad])
    if 0 < rad < 1e-6 or marginal(pts, eps) or marginal(cen, eps):
        return False, ["marginal"]
    parts = [p for p in parts if p]
    head, mark, tail = x["out"].partition("_______BETTIS_______")
    req(mark, "no table of features printed")
    got = entries(tail)
    total = list(got)
    inner = 0
    for p in parts:
        sub = [pts[i] for i in p]
        tab = lhf.run_pipeline(drv, "simplexTree", sub, eps, D)["table"]
        for d, b, e, B in tab:
            want = (d, b, e, sorted(p[i] for i in B))
            hit = [g for g in total if g[0] == d and near(g[1], b) and near(g[2], e) and g[3] == want[3]]
            req(hit, "feature %s of the partition of points %s is not printed: %s", want, p, got)
            total.remove(hit[0])
            inner += d > 0
    bars = ph.barcode(cen, eps, D - 1)
    closed = [(d, b, eps if e is None else e) for d, b, e in bars]
    if marginal(cen, eps, closed):
        return False, ["marginal"]
    ref = ph.norm(bars, eps)
    tol = 2e-5 * max(1.0, eps if eps < 100 else 1000.1)
    req(all(0 <= v < len(cen) for g in total for v in g[3]), "the remaining features %s name points that are no centroids", total)
    m = ph.match(ph.norm([g[:3] for g in total], eps), ref, tol=tol)
    req(m is None, "the features besides the partitions' are not those of the centroids: %s", m)
    if o["outputFile"] != "console":
        st_ = [f[0] for f in cli.stats_of(fs["out_stats.csv"])]
        req(st_ == ["k-means++"] + [cli.KIND[q] for q in cli.FAST] * (len(parts) + 1), "the statistics list %s for %d partitions", st_, len(parts))
        m = ph.match(ph.norm(cli.bars_of(fs["out.csv"]), eps), ref, tol=2e-5)
        req(m is None, "the written barcode is not that of the centroids: %s", m)
    return len(parts) >= 2 and len(pts) >= 4, ["parts%d" % len(parts)] + (["cycles"] if inner else [])


def gen_large(tier):
    return ph.scattered(sizes=(60, 160), dmax=2)


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    o = {"inputFile": "in.csv", "outputFile": "out", "mode": "reduced", "clusters": str(2 + c["seed"] % 19), "dimensions": "2", "epsilon": repr(eps)}
    return run({"pts": pts, "opts": o, "argv": [x for a, b in o.items() for x in ("--" + a, b)]}, drv)


# many partitions of loops, or few crowded ones
def gen_parts(tier):
    return st.fixed_dictionaries({"k": st.sampled_from([2, 3, 8, 21, 40, 66]), "big": st.sampled_from([0, 0, 1]), "seed": st.integers(0, 10 ** 6)})


def run_parts(c, drv):
    r = random.Random(c["seed"])
    pts, k = [], min(c["k"], 3) if c["big"] else c["k"]
    for j in range(k):
        m, R = (r.choice([130, 210, 270]), 300) if c["big"] else (r.choice([1, 4, 5]), 5)
        pts += [[(9000.0 if c["big"] else 100.0) * j + round(R * math.cos(2 * math.pi * i / m), 1), round(R * math.sin(2 * math.pi * i / m), 1)] for i in range(m)]
    r.shuffle(pts)
    o = {"inputFile": "in.csv", "outputFile": "out", "mode": "reduced", "clusters": str(k + r.choice([0, 0, 1])), "dimensions": "2", "epsilon": "21.3" if c["big"] else r.choice(["4.3", "7.7"])}
    return run({"pts": pts, "opts": o, "argv": [x for a, b in o.items() for x in ("--" + a, b)]}, drv)


CHECK = Check("C23", [Facet("runs", lambda t: gen(t), run, 1500, 20000), Facet("large", gen_large, run_large, 64, 1000), Facet("parts", gen_parts, run_parts, 48, 600)], {"cli": {"main": "LHFmain/main.cpp"}, "core": {}},
              rule="A case is a run of the whole program in reduced mode; the printed features must be those of the stand-alone pipeline on every partition "
                   "that the run's labels define, in original numbering, plus those of the centroids. Non-trivial: two partitions and four points.",
              assumptions=["Cases whose result hangs on rounding (a distance within 1e-6 of the partition radius or 1e-4 of the threshold) are left out."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
