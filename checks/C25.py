import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, req
from C01 import FIXED

PIPES = ["distMatrix", "neighGraph", "rips", "persistence"]


def gen(ctype):
    lst = ctype == "simplexArrayList"

    def strategy(tier):
        @st.composite
        def case(draw):
            D = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
            nmax = {1: 14, 2: 10, 3: 8, 4: 9}[D] if not lst else {1: 13, 2: 9, 3: 7, 4: 8}[D]
            if tier == "thorough":
                nmax += 2
            pts = draw(ph.cloud(nmax=nmax, far=True))
            return {"pts": pts, "eps": draw(ph.eps_for(pts)), "dim": D, "type": ctype}
        return case()
    return strategy


def run(c, drv, name="core", tol=ph.TOL):
    pts, eps, D = c["pts"], c["eps"], c["dim"]
    out = lhf.run_pipeline(drv, c["type"], pts, eps, D, name, pipes=PIPES)["betti"]
    head, _, body = out.partition("\n")
    req(head == "dim,birth,death", "the output starts with %r", head)
    ref = ph.barcode(pts, eps, D - 1)
    exp = ph.norm(ref, eps)
    m = ph.match(ph.norm([b for b in ph.parse_bars(body)], eps), exp, tol)
    req(m is None, "barcode wrong: %s", m)
    hs = {d for d, b, e in exp if d > 0}
    ess = [b for b in ref if b[2] is None]
    return len(pts) >= 3 and (bool(hs) or D == 1 and len(exp) >= 3 or len(ess) > 1), ["D%d" % D] + ["H%d" % h for h in hs]


def facet(t):
    fx = [{"pts": [[float(x) for x in p] for p in a], "eps": float(e), "dim": d, "type": t} for a, e, d in FIXED]
    return Facet(t, gen(t), run, 2400, 20000, fixed=fx)


@st.composite
def gen_crowd(draw):
    return dict(draw(ph.crowd(["squares", "squares", "tube", "full"], full=(14, 24), tube=(80, 200))), type=draw(st.sampled_from(["simplexTree", "simplexArrayList"])))


def run_crowd(c, drv):
    pts, eps = ph.crowded(c)
    ok, tags = run({"pts": pts, "eps": eps, "dim": 2, "type": c["type"]}, drv, "fast")
    return ok, tags + [c["kind"]]


def run_tiny(c, drv):
    return run(c, drv, tol=8e-7)


LARGE, run_large = ph.large(run, ("simplexTree", "simplexArrayList"), hi=270, lo=110)
CHECK = Check("C25", [facet(t) for t in ("simplexTree", "simplexArrayList")] + [Facet("large", lambda t: LARGE(), run_large, 200, 2500), Facet("tiny", lambda t: ph.tiny(["simplexTree", "simplexArrayList"]), run_tiny, 500, 6000), Facet("crowded", lambda t: gen_crowd(), run_crowd, 8, 120)], {"core": {}, "fast": {"src": "core", "san": False}},
              rule="A case is a point cloud, threshold, maximum dimension and complex type run through the persistence-pairs pipeline and compared "
                   "with an independent column reduction of the flag complex. Non-trivial: at least 3 points and the expected barcode has a feature "
                   "of dimension >= 1, or several essential components, or (dimension 1 only) at least three bars.",
              assumptions=["thresholds at least 5e-8 away from any pairwise distance", "bars shorter than 1e-5 are ignored: output carries six decimals",
                           "not run on the indexed tree (see DESIGN.md)"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
