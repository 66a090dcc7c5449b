import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, enc_d, enc_vu, req


def gen(ctype):
    def strategy(tier):
        @st.composite
        def case(draw):
            D = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
            pts = draw(ph.cloud(nmax={1: 14, 2: 10, 3: 8, 4: 7}[D]))
            eps = draw(ph.eps_for(pts))
            n = len(pts)
            ref = ph.rips(pts, eps, D)
            simp = [list(s) for d in ref for s, w in ref[d]]
            q = []
            for _ in range(draw(st.integers(1, 8))):
                k = draw(st.integers(0, 4))
                if k <= 1:
                    q.append(draw(st.sampled_from(simp)))
                elif k == 4:        # a member with one point exchanged, often the last
                    s = draw(st.sampled_from(simp[-40:]))
                    q.append(sorted(set(s) - {s[draw(st.sampled_from([-1, -1, 0, len(s) // 2]))]} | {draw(st.integers(0, n))}))
                elif k == 2:
                    q.append(sorted(draw(st.sets(st.integers(0, n), min_size=1, max_size=5))))
                else:
                    s = draw(st.sampled_from(simp))
                    q.append(sorted(set(s) | {draw(st.integers(0, n - 1))}))
            if draw(st.integers(0, 9)) == 0:
                q.append([])
            return {"pts": pts, "eps": eps, "dim": D, "type": ctype, "find": q, "cut": draw(ph.eps_for(pts)), "expand": draw(st.booleans())}
        return case()
    return strategy


def run(c, drv):
    pts, eps, D, t = c["pts"], c["eps"], c["dim"], c["type"]
    lst = t == "simplexArrayList"
    s = lhf.pipeline_script(t, pts, eps, D, pipes=["distMatrix", "neighGraph"] + (["rips"] if c["expand"] else []), snap=False)
    top = D if not lst or c["expand"] else 1
    ref = ph.rips(pts, eps, top)
    if lst:
        for q in c["find"]:
            s("findv", enc_vu(q))
    sizes = list(range(0, D + 4))
    for k in sizes:
        s("dimedges", str(k), enc_d(c["cut"]))
    r = [x for x in drv.script(s) if "made" not in x]
    if lst:
        for q, x in zip(c["find"], r):
            want = tuple(q) in {u for u, w in ref.get(len(q) - 1, [])}
            req(x["found"] == want, "find(%s) answered %s", q, x["found"])
        r = r[len(c["find"]):]
    for k, x in zip(sizes, r):
        if lst:          # simplices on k points, of diameter up to the cut
            want = sorted(list(u) for u, w in ref.get(k - 1, []) if w <= c["cut"])
        else:            # simplices of dimension k
            want = sorted(list(u) for u, w in ref.get(k, []))
        req(sorted(x["dimedges"]) == want, "the simplices of level %d are %s, expected %s", k, sorted(x["dimedges"])[:20], want[:20])
    hit = sum(1 for q in c["find"] if len(q) >= 2 and tuple(q) in {u for u, w in ref.get(len(q) - 1, [])})
    return len(ref.get(1, [])) >= 2 and (hit > 0 or not lst), ["D%d" % D, "expanded" if c["expand"] else "graph"]


@st.composite
def gen_ind(draw, tier):
    c = draw(gen("indSimplexTree")(tier))
    n, top = len(c["pts"]), max([d for d, v in ph.rips(c["pts"], c["eps"], c["dim"]).items() if v])
    c["find"] = [q for q in c["find"] if 1 <= len(q) <= top + 1]
    return c


def run_ind(c, drv):
    """Weights and faces on the indexed tree: before and after its graph is sorted."""
    ref = ph.rips(c["pts"], c["eps"], c["dim"])
    want = {u: w for d in ref for u, w in ref[d]}
    qs = [q for q in c["find"]] + [list(u) for u in want][:60]
    s = lhf.pipeline_script("indSimplexTree", c["pts"], c["eps"], c["dim"], pipes=["distMatrix", "neighGraph"], snap=False)
    for q in qs:
        s("weight", enc_vu(q))
    s("iedges", enc_d(c["eps"]))
    for q in qs:
        s("weight", enc_vu(q))
    r = [x for x in drv.script(s) if "made" not in x]
    n = len(qs)
    for part in (r[:n], r[n + 1:]):
        for q, x in zip(qs, part):
            if tuple(q) in want:
                req(abs(x["weight"] - want[tuple(q)]) <= 1e-9, "weight of %s is %r, its diameter %r", q, x["weight"], want[tuple(q)])
            else:
                req(x["weight"] == 10000, "weight of %s, which is not in the complex, is %r", q, x["weight"])
            f = sorted(list(u) for u in itertools.combinations(q, len(q) - 1))
            req(sorted(x["faces"]) == f, "faces of %s are %s", q, x["faces"])
    g, pos = r[n]["edges"], r[n]["pos"]
    for d in range(len(g)):
        req(sorted(tuple(u) for u, w in g[d]) == sorted(u for u, w in ref.get(d, [])), "level %d of the index: %s", d, g[d][:20])
        req(pos[d] == list(range(len(g[d]))), "positions noted in level %d of the index: %s", d, pos[d][:30])
        req(all(a[1] <= b[1] for a, b in zip(g[d], g[d][1:])), "level %d of the index is not sorted", d)
    return len(ref.get(1, [])) >= 2, ["D%d" % c["dim"]]


def gen_large(tier):
    return ph.scattered(sizes=(30, 120), types=["simplexArrayList", "simplexTree"])


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    r = random.Random(c["seed"])
    ref = ph.rips(pts, eps, 2)
    simp = [list(s) for d in ref for s, w in ref[d]]
    q = []
    for _ in range(40):
        s = r.choice(simp)
        q.append(s if r.random() < 0.6 else sorted(set(s) ^ {r.randrange(len(pts))}))
    return run({"pts": pts, "eps": eps, "dim": 2, "type": c["type"], "find": [x for x in q if x], "cut": eps * r.choice([0.45, 0.77, 1.0, 2.0]) + 1e-4, "expand": r.random() < 0.5}, drv)


@st.composite
def gen_subsets(draw, tier):
    n, w = draw(st.integers(5, 9)), draw(st.integers(2, 5))
    pts = [[float(x) for x in p] for p in draw(st.lists(st.lists(st.integers(0, 2), min_size=w, max_size=w), min_size=n, max_size=n))]
    return {"pts": pts, "eps": draw(st.sampled_from([1.1, 1.5, 1.8, 2.1, 2.3, 2.5, 2.7, 3.1])), "dim": draw(st.integers(3, 5)), "seed": draw(st.integers(0, 999))}


def run_subsets(c, drv):
    """Every subset that could be a simplex is asked for."""
    n, D = len(c["pts"]), c["dim"]
    q = [list(u) for k in range(1, min(D + 2, n) + 1) for u in itertools.combinations(range(n), k)]
    random.Random(c["seed"]).shuffle(q)
    return run({"pts": c["pts"], "eps": c["eps"], "dim": D, "type": "simplexArrayList", "find": q, "cut": c["eps"] * 0.8, "expand": True}, drv)


CHECK = Check("C27", [Facet("simplexArrayList", gen("simplexArrayList"), run, 4000, 40000),
                      Facet("simplexTree", gen("simplexTree"), run, 3000, 30000),
                      Facet("indSimplexTree", lambda t: gen_ind(t), run_ind, 1200, 15000),
                      Facet("subsets", lambda t: gen_subsets(t), run_subsets, 400, 6000),
                      Facet("large", gen_large, run_large, 160, 2000)], {"core": {}},
              rule="A case is a complex with membership queries (members, near-members, unknown points, the empty set) and level queries at a "
                   "threshold of their own, or weights, faces and positions asked of the indexed tree, compared with the enumerated flag complex. Non-trivial: at least two edges and, for the list, a "
                   "queried member of dimension >= 1.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
