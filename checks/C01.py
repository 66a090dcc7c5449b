import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, req


def gen(ctype):
    lst = ctype == "simplexArrayList"

    def strategy(tier):
        @st.composite
        def case(draw):
            big = tier == "thorough"
            dim = draw(st.sampled_from([1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 4, 5, 6]))
            nmax = {1: 24, 2: 13, 3: 10, 4: 10, 5: 8, 6: 8}[dim] if not lst else {1: 20, 2: 11, 3: 8, 4: 9, 5: 7, 6: 7}[dim]
            if big:
                nmax += {1: 16, 2: 5, 3: 2, 4: 1, 5: 1, 6: 1}[dim] if not lst else {1: 10, 2: 3, 3: 2, 4: 0, 5: 0, 6: 0}[dim]
            shapes = {1: None, 2: ph.SHAPES + ["thin", "thin"], 3: ["thin", "octa", "octa", "octa", "sphere", "sphere", "circle", "gridring", "wide", "dense", "clusters", "dup", "real", "cube"],
                      4: ["octa", "octa", "octa", "wide", "dense", "sphere", "real", "cube"]}.get(dim, ["octa", "octa", "dense", "dup", "cube", "ring"])
            pts = draw(ph.cloud(nmax=nmax, shapes=shapes, far=True))
            return {"pts": pts, "eps": draw(ph.eps_for(pts)), "dim": dim, "type": ctype}
        return case()
    return strategy

def run(case, drv, name="core", tol=ph.TOL):
    pts, eps, dim = case["pts"], case["eps"], case["dim"]
    r = lhf.run_pipeline(drv, case["type"], pts, eps, dim, name)
    got = ph.norm(ph.parse_bars(r["betti"]), eps)
    ref = ph.barcode(pts, eps, dim - 1)
    exp = ph.norm(ref, eps)
    m = ph.match(got, exp, tol)
    req(m is None, "barcode wrong: %s", m)
    hs = {d for d, b, e in exp if d > 0}
    ess = [b for b in ref if b[2] is None]
    tags = ["D%d" % dim] + ["H%d" % h for h in hs]
    if sum(1 for b in ess if b[0] == 0) > 1:
        tags.append("disconnected")
    if any(b[0] > 0 for b in ess):
        tags.append("essential-cycle")
    return len(pts) >= 3 and (bool(hs) or dim == 1 and len(exp) >= 3 or len(ess) > 1), tags


SQ = [[1, 0], [0, 1], [-1, 0], [0, -1]]
FIXED = [(SQ, 3, 2), (SQ, 1.7, 2), (SQ, 1.0, 2), ([[0, 0], [5, 0], [5, 5], [0, 5]], 6.0355, 2), ([[0.0]], 1, 1), ([[0.0]], 1, 2),
         ([[0, 0], [9, 9]], 1, 2), ([[0, 0], [9, 9]], 20, 2), ([[0.0, 0.0]] * 4, 1, 2),
         ([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], 3, 3),
         ([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], 1.7, 3),
         ([[0], [1], [3], [6], [10], [15]], 3.5, 1)]


def facet(t):
    fx = [{"pts": [[float(x) for x in p] for p in a], "eps": float(e), "dim": d, "type": t} for a, e, d in FIXED]
    return Facet(t, gen(t), run, 2500, 24000, fixed=fx)


@st.composite
def gen_crowd(draw):
    c = draw(ph.crowd(["full", "full", "tube", "tube", "squares"], full=(60, 77)))
    c["type"] = draw(st.sampled_from(["simplexTree", "indSimplexTree", "simplexTree", "simplexArrayList"] if c["kind"] == "squares" else ["simplexTree", "indSimplexTree"]))
    return c


def run_crowd(c, drv):
    pts, eps = ph.crowded(c)
    ok, tags = run({"pts": pts, "eps": eps, "dim": 2, "type": c["type"]}, drv, "fast")
    return ok, tags + [c["kind"]]


def run_tiny(c, drv):
    return run(c, drv, tol=8e-7)


LARGE, run_large = ph.large(run, lhf.TYPES)
CHECK = Check("C01", [facet(t) for t in lhf.TYPES] + [Facet("large", lambda t: LARGE(), run_large, 300, 4000), Facet("tiny", lambda t: ph.tiny(lhf.TYPES), run_tiny, 500, 6000), Facet("crowded", lambda t: gen_crowd(), run_crowd, 12, 200, fixed=[{"kind": "full", "n": 77, "seed": 3, "axes": 3, "side": 1000, "all": True, "type": "simplexTree"}])], {"core": {}, "fast": {"src": "core", "san": False}},
              rule="A case is a point cloud (grids, rings, circles, hollow cross-polytopes, clusters, duplicates, lines, reals), a threshold "
                   "kept away from every distance, a maximum dimension 1-6 and a complex type (or up to 320 scattered points with few neighbours each), run through the full pipeline and compared "
                   "with an independent column reduction of the flag complex. Non-trivial: at least 3 points and the expected barcode has a "
                   "feature of dimension >= 1, or several essential components, or (dimension 1 only) at least three bars.",
              assumptions=["thresholds at least 5e-8 away from any pairwise distance (the two complexes treat equality differently)",
                           "bars shorter than 1e-5 are ignored: output carries six decimals"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
