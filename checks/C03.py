import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import math
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, req

LIM = {"simplexTree": {1: 60, 2: 26, 3: 14}, "indSimplexTree": {1: 60, 2: 26, 3: 14}, "simplexArrayList": {1: 26, 2: 13, 3: 10}}


def bars(drv, t, pts, eps, D):
    return ph.norm(ph.parse_bars(lhf.run_pipeline(drv, t, pts, eps, D)["betti"]), eps)


def same(a, b, what, tol=ph.TOL, short=ph.SHORT):
    m = ph.match(a, b, tol, short)
    req(m is None, "%s: %s", what, m)


def relation(kind):
    def strategy(tier):
        @st.composite
        def case(draw):
            t = draw(st.sampled_from(lhf.TYPES))
            D = draw(st.sampled_from([1, 2, 2, 2, 3]))
            nmax = LIM[t][D] if kind != "across" else LIM["simplexArrayList"][D]
            shapes = ["circle", "circle", "thin", "thin", "gridring", "wide", "clusters", "real", "dup", "octa", "line", "lattice", "lattice", "rings", "rings"]
            pts = draw(ph.cloud(nmin=3, nmax=nmax, shapes=shapes + ["thin"] * 12 if kind == "scale" else shapes))
            eps = draw(ph.eps_for(pts))
            c = {"pts": pts, "eps": eps, "dim": D, "type": t}
            n = len(pts)
            if kind == "order":
                c["perm"] = list(draw(st.permutations(range(n))))
            if kind == "motion":
                d = len(pts[0])
                c["axes"] = list(draw(st.permutations(range(d))))
                c["sign"] = draw(st.lists(st.sampled_from([1, -1]), min_size=d, max_size=d))
                c["shift"] = draw(st.lists(st.one_of(st.integers(-64, 64), st.sampled_from([2 ** 17, -2 ** 22, 2 ** 27, -2 ** 27])), min_size=d, max_size=d))
                c["pad"] = draw(st.integers(0, 2))
            if kind == "scale":
                c["k"] = draw(st.sampled_from([2.0 ** -10, 0.01, 0.25, 0.5, 2, 3, 8, 10, 1000]))
                c["base"] = draw(st.sampled_from([1, 1, 2 ** 20, 1e5]))
            if kind == "cutoff":
                c["eps2"] = draw(ph.eps_for(pts))
            if kind == "far":
                c["copies"] = draw(st.integers(2, 3)) if n * 2 <= nmax else 2
                c["pts"] = pts[:max(3, nmax // c["copies"])]
                c["eps"] = draw(ph.eps_for(c["pts"]))
            if kind == "double":
                c["who"] = draw(st.integers(0, n - 1))
            return c
        return case()
    return strategy


def run(kind):
    def go(c, drv):
        pts, eps, D, t = c["pts"], c["eps"], c["dim"], c["type"]
        a = bars(drv, t, pts, eps, D)
        if kind == "order":
            same(bars(drv, t, [pts[i] for i in c["perm"]], eps, D), a, "reordering the points changed the barcode")
        elif kind == "motion":
            q = [[c["sign"][k] * p[c["axes"][k]] + c["shift"][k] for k in range(len(p))] + [0.0] * c["pad"] for p in pts]
            same(bars(drv, t, q, eps, D), a, "a rigid motion changed the barcode")
        elif kind == "scale":
            k, base = c["k"], c.get("base", 1)
            if base != 1:
                pts, eps = [[base * x for x in p] for p in pts], eps * base
                a = bars(drv, t, pts, eps, D)
            q = [[k * x for x in p] for p in pts]
            b = [(d, x / k, y / k) for d, x, y in ph.parse_bars(lhf.run_pipeline(drv, t, q, eps * k, D)["betti"])]
            # both sides are rounded to six decimals
            tol = 4e-6 * max(1, 1 / k) + 1e-12 * eps
            same(ph.norm(b, eps, 2 * tol), ph.norm(a, eps, 2 * tol), "scaling by %s did not scale the barcode" % k, tol, 4 * tol)
        elif kind == "cutoff":
            e2 = min(eps, c["eps2"])
            e1 = max(eps, c["eps2"])
            big = a if eps == e1 else bars(drv, t, pts, e1, D)
            small = a if eps == e2 else bars(drv, t, pts, e2, D)
            same(small, ph.norm([(d, b, min(e, e2)) for d, b, e in big if b < e2], e2), "lowering the threshold from %r to %r did not just cut the barcode" % (e1, e2))
        elif kind == "across":
            for u in lhf.TYPES:
                if u != t:
                    same(bars(drv, u, pts, eps, D), a, "%s and %s disagree" % (u, t))
        elif kind == "dimension":
            D2 = D + 1 if len(pts) <= LIM[t].get(D + 1, 0) or len(pts) > 60 else max(1, D - 1)
            b, m = bars(drv, t, pts, eps, D2), min(D, D2)
            same([x for x in b if x[0] < m], [x for x in a if x[0] < m], "the maximum dimension changed the features below it")
        elif kind == "far":
            gap = 4 * (eps + max(abs(x) for p in pts for x in p) + 1)
            q = [[p[0] + gap * k] + list(p[1:]) for k in range(c["copies"]) for p in pts]
            same(bars(drv, t, q, eps, D), sorted(a * c["copies"]), "%d far copies do not repeat the barcode" % c["copies"])
        elif kind == "double":
            q = pts + [list(pts[c["who"]])]
            same(bars(drv, t, q, eps, D), a, "repeating a point changed the barcode")
        hs = {d for d, b, e in a if d > 0}
        return len(pts) >= 8 and (bool(hs) or D == 1 and len(a) >= 4), ["D%d" % D, t, "n%d" % (len(pts) // 10 * 10)] + ["H%d" % h for h in hs]
    return go


# the same laws on many points
def gen_large(tier):
    @st.composite
    def case(draw):
        t = draw(st.sampled_from(["simplexTree", "simplexTree", "indSimplexTree", "simplexArrayList"]))
        kind = draw(st.sampled_from(KINDS))
        c = draw(ph.scattered(sizes=(40, 90) if t == "simplexArrayList" or kind in ("across", "far") else (60, 300)))
        c.update(type=t, kind=kind, dim=draw(st.sampled_from([1, 2, 2, 3])))
        if kind == "dimension":
            c["dim"], c["deg"] = min(c["dim"], 2), min(c["deg"], 3.0)
        if t == "simplexArrayList" or kind == "across":
            c["dim"], c["deg"] = min(c["dim"], 2), min(c["deg"], 2.0)
            if c["shape"] == "shell":
                c["n"] = min(c["n"], 80)
        if kind == "dimension" and c["shape"] == "shell":
            c["n"] = 60
        return c
    return case()


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    r, n, d = random.Random(c["seed"] + 1), len(pts), len(pts[0])
    x = {"pts": pts, "eps": eps, "dim": c["dim"], "type": c["type"], "perm": r.sample(range(n), n), "axes": r.sample(range(d), d), "sign": [r.choice([1, -1]) for _ in range(d)],
         "shift": [r.choice([r.randint(-64, 64), 2 ** 17, -2 ** 27]) for _ in range(d)], "pad": r.randint(0, 2), "k": r.choice([2.0 ** -10, 0.25, 0.5, 2, 3, 8, 1000]), "base": r.choice([1, 2 ** 20]),
         "eps2": math.sqrt(r.randint(1, round(eps * eps + 1.5)) + 0.5), "copies": 2, "who": r.randrange(n)}
    nt, tags = run(c["kind"])(x, drv)
    return nt, tags + [c["kind"]]


KINDS = ["order", "motion", "scale", "cutoff", "across", "dimension", "far", "double"]
CHECK = Check("C03", [Facet(k, relation(k), run(k), 350 if k == "scale" else 200, 2500) for k in KINDS] + [Facet("large", gen_large, run_large, 200, 2500)], {"core": {}},
              rule="A case is a point cloud of up to 60 points with a transformation (reordering, rigid motion, scaling, lower threshold, "
                   "other complex type, other maximum dimension, far copies, a repeated point); the two barcodes are compared by the exact "
                   "law that relates them. Non-trivial: at least 8 points and a feature of dimension >= 1 (dimension 1 runs: >= 4 bars).",
              assumptions=["thresholds away from any pairwise distance"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
