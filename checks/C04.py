import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, req


def gen(tier):
    @st.composite
    def case(draw):
        t = draw(st.sampled_from(lhf.TYPES))
        pts = draw(ph.cloud(nmax=40 if tier == "thorough" else 25, dmax=6, far=True))
        kind = draw(st.integers(0, 3))
        if kind == 0:       # a threshold that is exactly one of the distances
            g = [ph.dist(a, b) for i, a in enumerate(pts) for b in pts[i + 1:]]
            eps = draw(st.sampled_from(g)) if g else 1.0
        else:
            eps = draw(ph.eps_for(pts))
        return {"pts": pts, "eps": float(eps), "type": t, "runs": draw(st.integers(1, 2))}
    return case()


def run(c, drv):
    pts, eps, t = c["pts"], c["eps"], c["type"]
    r = drv.script(lhf.pipeline_script(t, pts, eps, 2, pipes=["distMatrix"] * c["runs"]))[-1]
    D, n = r["dist"], len(pts)
    req(len(D) == n and all(len(x) == n for x in D), "the distance matrix is not %d x %d", n, n)
    for i in range(n):
        for j in range(n):
            e = ph.dist(pts[i], pts[j]) if j > i else 0.0
            req(abs(D[i][j] - e) <= 1e-9 * (1 + e), "entry (%d,%d) is %r, the distance is %r", i, j, D[i][j], e)
    up = {D[i][j] for i in range(n) for j in range(i + 1, n)}
    exp = sorted({x for x in up if x < eps} | {0.0, eps}, reverse=True)
    req(r["weights"] == exp, "weights %s, expected %s", r["weights"][:20], exp[:20])
    req(r["data"] == pts and r["full"] == pts, "the point cloud was changed")
    return n >= 3 and len(exp) >= 4, ["dim%d" % len(pts[0]), "n%d" % (n // 10 * 10), "tie" if eps in up else "no-tie"]


def gen_large(tier):
    return ph.many(40, 330, 5, type=st.sampled_from(lhf.TYPES), pick=st.integers(0, 10 ** 9), exact=st.booleans())


def run_large(c, drv):
    r, pts = ph.place(c)
    i, j = c["pick"] % c["n"], (c["pick"] // 331) % c["n"]
    e = ph.dist(pts[i], pts[j])
    return run({"pts": pts, "eps": e if c["exact"] and e else e * 0.75 + 1e-3, "type": c["type"], "runs": 1}, drv)


CHECK = Check("C04", [Facet("matrix", gen, run, 8000, 80000), Facet("large", gen_large, run_large, 200, 1500)], {"core": {}},
              rule="A case is a point cloud (1-6 coordinates, up to 40 points, duplicates included) and a threshold, which a quarter of the time "
                   "is exactly one of the distances. Non-trivial: at least 3 points and at least two distances below the threshold.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
