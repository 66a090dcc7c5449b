import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_d, enc_pts, enc_s, enc_vd, req


def compare(edges, ref, D, what):
    """edges as returned per dimension against the flag complex."""
    for d in range(max(len(edges), D + 1)):
        got = edges[d] if d < len(edges) else []
        exp = ref.get(d, []) if d <= D else []
        sets = [tuple(s) for s, w in got]
        req(len(set(sets)) == len(sets), "%s: a simplex appears twice in dimension %d", what, d)
        e = dict(exp)
        missing, extra = set(e) - set(sets), set(sets) - set(e)
        req(not missing and not extra, "%s, dimension %d: missing %s, unexpected %s", what, d, sorted(missing)[:6], sorted(extra)[:6])
        for s, w in got:
            req(abs(w - e[tuple(s)]) <= 1e-9 * (1 + w), "%s: simplex %s has weight %r, diameter %r", what, s, w, e[tuple(s)])
        ws = [w for s, w in got]
        req(all(a <= b for a, b in zip(ws, ws[1:])), "%s: dimension %d is not sorted by weight", what, d)


def counts(c, ref, D, n, what):
    tot = sum(len(ref[d]) for d in ref if d <= D)
    req(c["vertices"] == n, "%s: %s vertices reported for %d points", what, c["vertices"], n)
    req(c["simplices"] == tot, "%s: %s simplices reported, the complex has %d", what, c["simplices"], tot)


def sizes(ctype, dim, big):
    lst = ctype == "simplexArrayList"
    n = {1: 22, 2: 14, 3: 10, 4: 9, 5: 8, 6: 8, 7: 9, 8: 10}[dim] if not lst else {1: 18, 2: 11, 3: 8, 4: 7, 5: 7, 6: 7, 7: 8, 8: 9}[dim]
    return n + (3 if big and dim < 7 else 1 if big else 0)


def gen_pipe(ctype):
    def strategy(tier):
        @st.composite
        def case(draw):
            dim = draw(st.sampled_from([1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6, 7, 8]))
            pts = draw(ph.cloud(nmin=dim if dim > 6 else 1, nmax=sizes(ctype, dim, tier == "thorough"), far=True))
            eps = draw(ph.eps_for(pts))
            if dim > 5 and draw(st.booleans()):     # everything within reach
                eps = 2.0 * (ph.gaps(pts) or [1.0])[-1] + 0.5
            return {"pts": pts, "eps": eps, "dim": dim, "type": ctype}
        return case()
    return strategy


def run_pipe(case, drv, name="core"):
    pts, eps, D, t = case["pts"], case["eps"], case["dim"], case["type"]
    s = lhf.pipeline_script(t, pts, eps, D, pipes=["distMatrix", "neighGraph"], snap=False)
    s("counts")("edges", enc_d(eps))
    s("run", enc_s("rips"), enc_conf(lhf.conf(t, eps, D)))
    s("counts")("edges", enc_d(eps))("edges", enc_d(eps))
    r = drv.script(s, name)
    r = [x for x in r if "made" not in x]
    ref = ph.rips(pts, eps, D)
    D1 = 1 if t == "simplexArrayList" else D      # the list grows above the graph in the expansion step only
    counts(r[0], ref, D1, len(pts), "neighbourhood graph")
    compare(r[1]["edges"], ref, D1, "neighbourhood graph")
    counts(r[2], ref, D, len(pts), "expanded complex")
    compare(r[3]["edges"], ref, D, "expanded complex")
    req(r[3] == r[4], "reading the complex twice gives different answers")
    top = max(d for d in ref if ref[d])
    return top >= 1 and len(pts) >= 3, ["D%d" % D, "top%d" % top]


def gen_inc(ctype):
    def strategy(tier):
        @st.composite
        def case(draw):
            dim = draw(st.sampled_from([1, 2, 2, 3, 2, 3, 4, 5]))
            pts = draw(ph.cloud(nmin=2, nmax=sizes(ctype, dim, tier == "thorough"), far=True))
            # after which points the complex is read
            reads = draw(st.lists(st.booleans(), min_size=len(pts), max_size=len(pts)))
            expand = draw(st.booleans()) if ctype == "simplexArrayList" else False
            return {"pts": pts, "eps": draw(ph.eps_for(pts)), "dim": dim, "type": ctype, "reads": reads, "expand": expand}
        return case()
    return strategy


def run_inc(case, drv):
    pts, eps, D, t = case["pts"], case["eps"], case["dim"], case["type"]
    lst = t == "simplexArrayList"
    s = Script()
    s("new", enc_s(t), enc_conf(lhf.conf(t, eps, D)))
    dm = ph.dmat(pts)
    s("dist", enc_pts([[dm[i][j] if j > i else 0.0 for j in range(len(pts))] for i in range(len(pts))]))
    at = []
    for k, p in enumerate(pts):
        s("insert", enc_vd(p))
        if case["reads"][k] or k == len(pts) - 1:
            if lst and case["expand"]:
                s("expand", str(D))
            s("counts")("edges", enc_d(eps))
            if t == "indSimplexTree":
                s("iedges", enc_d(eps))
            at.append(k + 1)
    r = drv.script(s)
    i = 0
    for k in at:
        ref = ph.rips(pts[:k], eps, D)
        Dk = 1 if lst and not case["expand"] else D
        counts(r[i], ref, Dk, k, "after %d insertions" % k)
        compare(r[i + 1]["edges"], ref, Dk, "after %d insertions" % k)
        i += 2
        if t == "indSimplexTree":
            compare(r[i]["edges"], ref, Dk, "indexed view after %d insertions" % k)
            for d, row in enumerate(r[i]["pos"]):
                req(row == list(range(len(row))), "after %d insertions the nodes of dimension %d carry positions %s", k, d, row[:20])
            i += 1
    ref = ph.rips(pts, eps, D)
    return len(at) >= 2 and len(ref.get(1, [])) >= 2, ["reads%d" % min(len(at), 5)] + (["triangles"] if ref.get(2) else [])


@st.composite
def gen_crowd(draw):
    t = draw(st.sampled_from(lhf.TYPES))
    D = draw(st.sampled_from([2, 2, 2, 3])) if t != "simplexArrayList" else 2
    lst = t == "simplexArrayList"
    return dict(draw(ph.crowd(["full", "full", "full", "squares"], full=(28, 36) if lst else (26, 32) if D == 3 else (55, 77), squares=(900, 1100))), type=t, dim=D)


def run_crowd(c, drv):
    pts, eps = ph.crowded(c)
    ok, tags = run_pipe({"pts": pts, "eps": eps, "dim": c["dim"], "type": c["type"]}, drv, "fast")
    return ok, tags + [c["kind"]]


LARGE, run_large = ph.large(run_pipe, lhf.TYPES)
CHECK = Check("C02", [Facet("large", lambda t: LARGE(), run_large, 400, 4000), Facet("crowded", lambda t: gen_crowd(), run_crowd, 60, 600)] + [Facet("pipeline-" + t, gen_pipe(t), run_pipe, 800, 9000) for t in lhf.TYPES] +
              [Facet("incremental-" + t, gen_inc(t), run_inc, 800, 9000) for t in lhf.TYPES], {"core": {}, "fast": {"src": "core", "san": False}},
              rule="A case is a point cloud, threshold, maximum dimension and complex type, built through the pipeline or point by point "
                   "with reads in between; the simplices, diameters, order and counts are compared with the enumerated flag complex. "
                   "Non-trivial: pipeline cases with >= 3 points and an edge; incremental cases read at least twice with >= 2 edges.",
              assumptions=["thresholds at least 5e-8 away from any pairwise distance"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
