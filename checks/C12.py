import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_conf, enc_pts, enc_s, req


@st.composite
def gen(draw, tier):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5, 7, 9]))
    n = draw(st.integers(1, 24 if tier == "quick" else 60))
    kind = draw(st.sampled_from(["grid", "grid", "blobs", "real"]))
    sc = draw(st.sampled_from([1.0, 1.0, 0.125, 64.0]))
    if kind == "real":
        pts = [[draw(st.floats(-10, 10, width=32)) for _ in range(dim)] for _ in range(n)]
    elif kind == "grid":
        hi = draw(st.sampled_from([1, 3, 9]))
        pts = [[draw(st.integers(-hi, hi)) * sc for _ in range(dim)] for _ in range(n)]
    else:
        cs = [[draw(st.integers(-4, 4)) * 20 * sc for _ in range(dim)] for _ in range(draw(st.integers(1, 4)))]
        pts = [[x + draw(st.integers(-2, 2)) * sc for x in draw(st.sampled_from(cs))] for _ in range(n)]
    return {"pts": pts, "k": draw(st.integers(1, draw(st.sampled_from([3, 6, n + 3])))), "it": draw(st.sampled_from([1, 2, 3, 10, 300, 300])),
            "runs": 3, "reuse": draw(st.integers(0, 1)), "name": draw(st.sampled_from(["kmeansplusplus", "kmeans++", "kmeans"]))}


def run(c, drv, name="prep"):
    pts, k, n = c["pts"], c["k"], len(c["pts"])
    cf = {"clusters": str(k), "iterations": str(c["it"]), "debug": "0", "outputFile": "out"}
    rs = drv[name].call("pre %s %s %s %d %d" % (enc_s(c["name"]), enc_conf(cf), enc_pts(pts), c["runs"], c["reuse"]))["runs"]
    m = len({tuple(p) for p in pts})
    big = max([1e-9] + [abs(x) for p in pts for x in p])
    moved = 0
    for r in rs:
        cen, lab = r["cent"], r["labels"]
        req(r["cfg"] is True, "a complete configuration was refused")
        req(r["full"] == pts, "the kept copy of the input changed")
        req(len(cen) == min(k, m), "%d centroids for %d clusters of %d distinct points", len(cen), k, m)
        req(all(len(x) == len(pts[0]) and all(isinstance(v, (int, float)) and math.isfinite(v) for v in x) for x in cen), "centroids %s", cen)
        req(len(lab) == n, "%d labels for %d points", len(lab), n)
        req(all(0 <= x < len(cen) for x in lab), "labels %s for %d centroids", lab, len(cen))
        for j, x in enumerate(cen):
            own = [p for p, l in zip(pts, lab) if l == j]
            if own:
                mean = [math.fsum(p[d] for p in own) / len(own) for d in range(len(x))]
                req(all(abs(a - b) <= 1e-11 * big for a, b in zip(x, mean)), "centroid %d is %s, the mean of its %d points is %s", j, x, len(own), mean)
            else:
                lo, hi = [min(p[d] for p in pts) for d in range(len(x))], [max(p[d] for p in pts) for d in range(len(x))]
                req(all(a - 1e-11 * big <= v <= b + 1e-11 * big for a, b, v in zip(lo, hi, x)), "the empty cluster's centroid %s is outside the data", x)
        if c["it"] >= 300:
            for p, l in zip(pts, lab):
                d = [ph.dist(p, x) for x in cen]
                req(d[l] <= min(d) + 1e-10 * big, "after convergence point %s belongs to centroid %d at %r, there is one at %r", p, l, d[l], min(d))
        moved += len(set(lab)) > 1
        req(r["stats"].startswith("before\n"), "the statistics collected before are gone: %r", r["stats"])
        rest = r["stats"][7:].split("\n")
        req(len(rest) == 2 and rest[1] == "" and rest[0].count(",") == 1 and float(rest[0].split(",")[1]) >= 0, "statistics %r", r["stats"])
        req([int(x) for x in r["lfile"].split()] == lab, "the label file holds %r, the labels are %s", r["lfile"], lab)
        rows = [[float(v) for v in l.rstrip(",").split(",")] for l in r["cfile"].split("\n") if l]
        req(len(rows) == len(cen) and all(len(a) == len(b) and all(abs(x - y) <= 5.1e-7 + 1e-12 * big for x, y in zip(a, b)) for a, b in zip(rows, cen)),
            "the centroid file holds %s, the centroids are %s", rows, cen)
    return moved > 0 and n > min(k, m), ["more" if k > m else "fewer", "it%d" % c["it"]]


def gen_large(tier):
    return ph.many(60, 600, 4, k=st.one_of(st.integers(1, 12), st.integers(13, 70), st.sampled_from([255, 256, 257])), it=st.sampled_from([1, 5, 300, 300]), name=st.just("kmeans++"),
                   copies=st.sampled_from([0, 0, 0, 500, 1500]))


def run_large(c, drv):
    r, pts = ph.place(c)
    if c["copies"]:         # long runs of the same few points, with others at the end
        pts = [list(x) for x in pts[:r.randint(1, 5)] for _ in range(c["copies"] // 5)] + pts[-r.randint(1, 12):]
    return run({"pts": pts, "k": c["k"], "it": c["it"], "runs": 1, "reuse": 0, "name": c["name"]}, drv)


# spread points: the centroids move for many iterations
def gen_slow(tier):
    return st.fixed_dictionaries({"n": st.integers(150, 1500), "k": st.integers(2, 30), "axes": st.sampled_from([1, 1, 1, 2]), "kind": st.integers(0, 2), "seed": st.integers(0, 10 ** 6)})


def run_slow(c, drv):
    r = random.Random(c["seed"])
    f = [lambda: r.randint(0, 100000), lambda: int(100000 * r.random() ** 0.2), lambda: int(math.exp(12 * r.random()) * 64)][c["kind"]]
    pts = [[f() / 64 for _ in range(c["axes"])] for _ in range(c["n"])]
    return run({"pts": pts, "k": c["k"], "it": 3000, "runs": 1, "reuse": 0, "name": "kmeans++"}, drv, "fast")


@st.composite
def gen_cfg(draw, tier):
    cf = {"clusters": "2", "iterations": "3", "debug": "0", "outputFile": "out"}
    for k in draw(st.sets(st.sampled_from(sorted(cf)))):
        del cf[k]
    return {"cf": cf, "pts": [[float(draw(st.integers(-5, 5)))] for _ in range(draw(st.integers(1, 6)))]}


def run_cfg(c, drv):
    r = drv["prep"].call("pre %s %s %s 1 0" % (enc_s("kmeans"), enc_conf(c["cf"]), enc_pts(c["pts"])))["runs"][0]
    ok = "clusters" in c["cf"] and "iterations" in c["cf"]
    req(r["cfg"] is ok, "configuration %s %s", c["cf"], "refused" if ok else "accepted")
    if not ok:
        req(r["cent"] == c["pts"] == r["full"] and r["labels"] == [] and r["stats"] == "before\n", "an unconfigured preprocessor changed its input: %s", r)
    return not ok, []


CHECK = Check("C12", [Facet("clusters", lambda t: gen(t), run, 4000, 50000), Facet("config", lambda t: gen_cfg(t), run_cfg, 300, 2000), Facet("large", gen_large, run_large, 250, 2500), Facet("slow", gen_slow, run_slow, 160, 2000)], {"prep": {}, "fast": {"src": "prep", "san": False}},
              rule="A case is a point set with a cluster count and iteration limit, clustered three times (the seeding is random); every run's centroids, "
                   "labels and files are checked against the definition. Non-trivial: several clusters in use and more points than centroids, or an incomplete configuration.",
              assumptions=["At least one point and one cluster; at least one iteration."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
