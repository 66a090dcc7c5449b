import itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf, cli
from pbt import Check, Facet, req

NAMES = {"kmeans": ["kmeansplusplus", "kmeans++", "kmeans"], "den": ["denStream", "denstream", "DenStream"]}


def means(pts, lab, k):
    out = []
    for j in range(k):
        own = [p for p, l in zip(pts, lab) if l == j]
        out.append([math.fsum(p[d] for p in own) / len(own) for d in range(len(pts[0]))] if own else None)
    return out


def marginal(pts, eps, bars=()):
    """Does the comparison hang on rounding?"""
    return any(abs(ph.dist(a, b) - eps) < 1e-4 for a, b in itertools.combinations(pts, 2)) or any(1e-6 < e - b < 1e-4 for _, b, e in bars)


@st.composite
def gen(draw, kind):
    D = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    t = draw(st.sampled_from(lhf.TYPES))
    if kind == "kmeans":
        k = draw(st.integers(1, {1: 14, 2: 9, 3: 7, 4: 7}[D]))
        pts = draw(ph.cloud(nmin=2, nmax=24))
        eps = draw(st.sampled_from([0.7, 2.3, 5.1, 11.3, 37.7, 1000.1]))
        opts = {"clusters": str(k)}
        it = draw(st.sampled_from([None, "1", "3"]))
        if it:
            opts["iterations"] = it
    else:
        # dense spots far apart on a circle: the centres form a cycle
        n, per, R = draw(st.integers(1, 7)), 21, draw(st.sampled_from([4, 8]))
        jit = draw(st.lists(st.integers(-20, 20), min_size=12, max_size=12))
        pts = []
        for k in range(per):
            for j in range(n):
                a = 2 * math.pi * j / n
                pts.append([R * math.cos(a) + jit[(k + 5 * j) % 12] / 100, R * math.sin(a) + jit[(3 * k + j) % 12] / 100])
        pts += [[100.0 + 50 * draw(st.integers(0, 3)), 3.0]] * draw(st.integers(0, 2))
        eps = draw(st.sampled_from([1.1, 2.3, 3.3, 5.7]))
        opts = {"lambda": draw(st.sampled_from(["0.25", "1"]))}
    opts.update({"inputFile": "in.csv", "outputFile": "out", "epsilon": repr(eps), "dimensions": str(D), "complexType": t,
                 "preprocessor": draw(st.sampled_from(NAMES[kind]))})
    if draw(st.booleans()):
        opts["mode"] = "standard"
    pipes = list(cli.FAST)
    if t != "indSimplexTree" and draw(st.integers(0, 5)) == 0:
        pipes[3] = "persistence"
        opts["pipeline"] = ".".join(pipes)
    return {"pts": pts, "opts": opts, "argv": draw(cli.argv(opts)), "pipes": pipes, "kind": kind}


def run(c, drv):
    pts, o, kind = c["pts"], c["opts"], c["kind"]
    eps, D = float(o["epsilon"]), int(o["dimensions"])
    x = cli.call(drv, {"in.csv": cli.csv_text(pts)}, [c["argv"]])[0]
    req(x["rc"] == 0, "the program returned %r", x["rc"])
    nm = "k-means++" if kind == "kmeans" else "DenStream"
    fs = x["files"]
    cf, lf = "output/%s_centroid_output.csv" % nm, "output/%s_label_output.csv" % nm
    req(cf in fs and lf in fs and "out.csv" in fs and "out_stats.csv" in fs, "files missing: %s", sorted(fs))
    cen = [[float(v) for v in l.rstrip(",").split(",")] for l in fs[cf].split("\n") if l]
    lab = [int(v) for v in fs[lf].split()]
    if kind == "kmeans":
        req(len(lab) == len(pts) and all(0 <= v < len(cen) for v in lab), "labels %s for %d points and %d centroids", lab, len(pts), len(cen))
        req(len(cen) == min(int(o["clusters"]), len({tuple(p) for p in pts})), "%d centroids for %s clusters", len(cen), o["clusters"])
        exact = means(pts, lab, len(cen))
        for a, b in zip(exact, cen):
            req(a is None or all(abs(u - v) <= 1e-6 for u, v in zip(a, b)), "centroid %s in the file, the mean of its points is %s", b, a)
        cen = [a or b for a, b in zip(exact, cen)]
    st_ = cli.stats_of(fs["out_stats.csv"])
    req([f[0] for f in st_] == [nm] + [cli.KIND[p] for p in c["pipes"]], "the statistics list the stages %s", [f[0] for f in st_])
    if not cen:
        return False, ["none"]
    # (the stage refreshes its counts once the points are in the complex)
    req(int(st_[2][4]) == len(cen), "%s vertices for %d centroids", st_[2][4], len(cen))
    bars = ph.barcode(cen, eps, D - 1)
    ref = ph.norm(bars, eps)
    if marginal(cen, eps, [(d, b, eps if e is None else e) for d, b, e in bars]):
        return False, ["marginal"]
    m = ph.match(ph.norm(cli.bars_of(fs["out.csv"]), eps), ref, tol=2e-5)
    req(m is None, "the barcode is not that of the centroids %s: %s", cen, m)
    return len(cen) >= 3 and len(cen) < len(pts) and len(ref) >= 2, ["D%d" % D, "H1"] if any(d for d, _, _ in ref) else ["D%d" % D]


# many points, many clusters
def gen_large(tier):
    return ph.scattered(sizes=(60, 400), types=lhf.TYPES)


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    k = min({"simplexArrayList": 30}.get(c["type"], 90), c["n"] // 2)
    k -= c["seed"] % (k // 2)
    o = {"clusters": str(k), "inputFile": "in.csv", "outputFile": "out", "epsilon": repr(eps), "dimensions": "2", "complexType": c["type"], "preprocessor": "kmeans++"}
    return run({"pts": pts, "opts": o, "argv": [x for a, b in o.items() for x in ("--" + a, b)], "pipes": list(cli.FAST), "kind": "kmeans"}, drv)


# a run that is to split the work counts the points of every cluster
@st.composite
def gen_split(draw, tier):
    k = draw(st.integers(1, 12))
    pts = draw(ph.cloud(nmin=1, nmax=30))
    if draw(st.integers(0, 5)) == 0:        # many points, or many clusters
        k = draw(st.sampled_from([1, 2, 5, 40, 130, 257]))
        pts = [[float((i * i) % 1009), float(i % 7)] for i in range(draw(st.integers(100, 700)))]
    opts = {"inputFile": "in.csv", "outputFile": "out", "clusters": str(k), "preprocessor": draw(st.sampled_from(NAMES["kmeans"]))}
    how = draw(st.integers(0, 2))
    if how == 0:
        opts["mpi"] = "1"
        if draw(st.booleans()):
            del opts["preprocessor"]
    else:
        opts["upscale"] = "true"
    argv = []
    for o in draw(st.permutations(sorted(opts))):
        argv += ["--" + o, opts[o]]
    return {"pts": pts, "k": k, "argv": argv}


def run_split(c, drv):
    x = cli.call(drv, {"in.csv": cli.csv_text(c["pts"])}, [c["argv"]])[0]
    req(x["rc"] == 0, "the program returned %r", x["rc"])
    lab = [int(v) for v in x["files"]["output/k-means++_label_output.csv"].split()]
    head, mark, tail = x["out"].partition("Partitions: ")
    req(mark and "Counts: " in tail, "no partitions reported: %r", x["out"][-300:])
    a, b = tail.split("Counts: ")
    req(int(a) == c["k"], "%d partitions for %d clusters", int(a), c["k"])
    want = [lab.count(j) for j in range(c["k"])]
    req([int(v) for v in b.split()] == want, "the partitions hold %s points, the labels say %s", b.split(), want)
    return sum(1 for v in want if v) >= 2, ["k%d" % c["k"]]


CHECK = Check("C24", [Facet("kmeans", lambda t: gen("kmeans"), run, 2000, 30000), Facet("denstream", lambda t: gen("den"), run, 300, 4000), Facet("large", gen_large, run_large, 120, 1500), Facet("split", lambda t: gen_split(t), run_split, 200, 2000)],
              {"cli": {"main": "LHFmain/main.cpp"}},
              rule="A case is a run of the whole program with clustering first; the written barcode is compared with an independent computation on the centroids "
                   "that the run's own labels or centre file define. Non-trivial: at least three centroids, fewer than points, and two bars.",
              assumptions=["Cases whose result hangs on rounding (a centroid distance within 1e-4 of the threshold, a bar shorter than 1e-4) are left out."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
