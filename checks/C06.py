import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import itertools
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, req


def gen(ctype):
    lst = ctype == "simplexArrayList"

    def strategy(tier):
        @st.composite
        def case(draw):
            D = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
            nmax = {1: 20, 2: 13, 3: 10, 4: 11}[D] if not lst else {1: 16, 2: 11, 3: 8, 4: 9}[D]
            if tier == "thorough":
                nmax += 2
            shapes = ["circle", "rings", "rings", "lattice", "lattice", "gridring", "ring", "octa", "octa", "clusters", "wide", "dense", "dup", "real", "line", "cube"]
            pts = draw(ph.cloud(nmax=nmax, shapes=shapes))
            return {"pts": pts, "eps": draw(ph.eps_for(pts)), "dim": D, "type": ctype}
        return case()
    return strategy


def run(c, drv, name="core"):
    pts, eps, D, t = c["pts"], c["eps"], c["dim"], c["type"]
    r = lhf.run_pipeline(drv, t, pts, eps, D, name)
    bars, tab = ph.parse_bars(r["betti"]), r["table"]
    # one entry per reported feature (output is rounded to six decimals)
    req(len(tab) == len(bars), "%d table entries for %d reported intervals", len(tab), len(bars))
    m = ph.match(sorted((d, b, e) for d, b, e, _ in tab), sorted(bars))
    req(m is None, "the feature table and the reported barcode differ: %s", m)
    dm = ph.dmat(pts)
    n, tol = len(pts), 1e-9
    inner = 0
    for d, b, e, B in tab:
        req(all(0 <= v < n for v in B), "boundary %s of a feature holds ids that are no points (%d points)", B, n)
        req(len(set(B)) == len(B), "boundary %s repeats a point", B)
        ess = abs(e - eps) <= 1e-9
        if d == 0:
            if not ess:
                req(len(B) in (1, 2), "a merge of two components at %r has boundary %s", e, B)
                req(any(abs(dm[i][j] - e) <= tol for i in B for j in range(n) if i != j and set(B) <= {i, j}),
                    "no edge of length %r meets the merge boundary %s", e, B)
            continue
        inner += 1
        req(len(B) >= d + 1, "boundary %s of a dimension-%d feature is too small", B, d)
        # the points come from d-simplices already there at birth, the youngest of which appears exactly then
        hit, cover = False, set()
        for s in itertools.combinations(sorted(B), d + 1):
            w = max(dm[i][j] for i, j in itertools.combinations(s, 2))
            if w <= b + tol:
                cover |= set(s)
                hit = hit or abs(w - b) <= tol
            if hit and len(cover) == len(B):
                break
        req(hit, "no %d-simplex of the boundary %s appears at the birth %r", d, B, b)
        req(len(cover) == len(B), "boundary points %s are in no %d-simplex present at birth %r", sorted(set(B) - cover), d, b)
    return len(pts) >= 4 and (inner > 0 or D == 1 and len(tab) >= 3), ["D%d" % D, "cycles%d" % min(inner, 5)]


@st.composite
def gen_crowd(draw):
    return dict(draw(ph.crowd(["tube", "tube", "squares", "full"], full=(45, 77), squares=(250, 1100))), type=draw(st.sampled_from(["simplexTree", "indSimplexTree"])))


def run_crowd(c, drv):
    pts, eps = ph.crowded(c)
    ok, tags = run({"pts": pts, "eps": eps, "dim": 2, "type": c["type"]}, drv, "fast")
    return ok, tags + [c["kind"]]


LARGE, run_large = ph.large(run, lhf.TYPES)
CHECK = Check("C06", [Facet(t, gen(t), run, 1400, 12000) for t in lhf.TYPES] + [Facet("large", lambda t: LARGE(), run_large, 150, 2000), Facet("crowded", lambda t: gen_crowd(), run_crowd, 10, 150)], {"core": {}, "fast": {"src": "core", "san": False}},
              rule="A case is a point cloud, threshold, maximum dimension and complex type run through the full pipeline; the feature table is "
                   "compared with the printed barcode and each boundary with the point distances. Non-trivial: >= 4 points and a feature of "
                   "dimension >= 1 in the table (dimension 1 runs: >= 3 entries).",
              assumptions=["thresholds away from any pairwise distance"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
