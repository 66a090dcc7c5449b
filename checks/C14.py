import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_d, enc_pts, req


@st.composite
def gen(draw, tier):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9]))
    n = draw(st.integers(1, 45 if tier == "quick" else 120))
    hi = {1: 40, 2: 8, 3: 4, 5: 2, 9: 1}[dim] * draw(st.sampled_from([1, 1, 2]))
    sc = draw(st.sampled_from([1.0, 0.25]))
    flat = draw(st.lists(st.integers(0, hi), min_size=n * dim, max_size=n * dim))
    pts = [[x * sc for x in flat[k * dim:k * dim + dim]] for k in range(n)]
    return {"pts": pts, "size": draw(st.integers(1, n)) if draw(st.integers(0, 2)) == 0 else 0, "min": draw(st.integers(1, 7)),
            "eps": draw(st.sampled_from([1.0, 1.0, 1.5, 2.0, 3.0, 0.75])) * sc}


def run(c, drv):
    eps, m = c["eps"], c["min"]
    pts = c["pts"][:c["size"]] if c["size"] else c["pts"]
    n = len(pts)
    lab = drv["prep"].call("dbscan %d %d %s %s" % (c["size"], m, enc_d(eps), enc_pts(c["pts"])))["labels"]
    req(len(lab) == n, "%d labels for %d points", len(lab), n)
    nb = [[j for j in range(n) if ph.dist(pts[i], pts[j]) <= eps] for i in range(n)]
    core = [len(x) >= m for x in nb]
    comp, k = [0] * n, 0           # components of core points, numbered by their first point
    for i in range(n):
        if core[i] and not comp[i]:
            k += 1
            todo = [i]
            comp[i] = k
            while todo:
                for j in nb[todo.pop()]:
                    if core[j] and not comp[j]:
                        comp[j] = k
                        todo.append(j)
    # one label per component, different labels for different ones
    name = {}
    for i in range(n):
        if core[i]:
            req(lab[i] > 0, "the dense point %d is labelled %d", i, lab[i])
            req(name.setdefault(comp[i], lab[i]) == lab[i], "points %d's cluster carries labels %d and %d", i, name[comp[i]], lab[i])
    req(sorted(name.values()) == list(range(1, k + 1)), "%d clusters carry the labels %s", k, sorted(name.values()))
    border = 0
    for i in range(n):
        if not core[i]:
            own = {lab[j] for j in nb[i] if core[j]}
            if own:
                border += 1
                req(lab[i] in own, "point %d borders the clusters %s and is labelled %d", i, sorted(own), lab[i])
            else:
                req(lab[i] == -1, "the isolated point %d is labelled %d", i, lab[i])
    return k >= 1 and (k >= 2 or border > 0), ["k%d" % min(k, 4)] + (["border"] if border else []) + (["noise"] if -1 in lab else [])


def gen_large(tier):
    return ph.many(60, 1100 if tier == "thorough" else 600, 3, part=st.booleans(), min=st.integers(1, 20), deg=st.sampled_from([0.5, 2.0, 5.0, 12.0]))


def run_large(c, drv):
    # a grid so coarse that a ball of the radius holds a few points
    r = random.Random(c["seed"])
    side = max(1, int((c["n"] * 4.2 / c["deg"]) ** (1 / c["axes"])))
    pts = [[r.randint(0, side) * c["scale"] for _ in range(c["axes"])] for _ in range(c["n"])]
    return run({"pts": pts, "size": r.randint(1, len(pts)) if c["part"] else 0, "min": c["min"], "eps": r.choice([1.0, 1.0, 1.5, 2.0]) * c["scale"]}, drv)


# many groups with stragglers, listed in any order
def gen_many(tier):
    return st.fixed_dictionaries({"k": st.one_of(st.integers(5, 60), st.integers(61, 300)), "axes": st.integers(1, 3), "min": st.integers(3, 6), "seed": st.integers(0, 10 ** 6)})


def run_many(c, drv):
    r = random.Random(c["seed"])
    pts = []
    for j in range(c["k"]):
        o = [10.0 * (j % 18), 10.0 * (j // 18), 0.0] if c["axes"] > 1 else [10.0 * j]
        o = o[:c["axes"]]
        for i in range(r.randint(c["min"] - 1, c["min"] + 2)):
            pts.append([o[0] - (i > 0 and r.random() < 0.6)] + o[1:])
        if r.random() < 0.7:
            o[0] += r.choice([1.0, 1.0, 2.0])
            pts.append(list(o))
        if r.random() < 0.2:
            o[-1] += 4.0
            pts.append(list(o))
    if r.random() < 0.6:
        r.shuffle(pts)
    elif r.random() < 0.6:
        pts.reverse()
    return run({"pts": pts, "size": 0, "min": c["min"], "eps": 1.0}, drv)


CHECK = Check("C14", [Facet("clusters", lambda t: gen(t), run, 5000, 60000), Facet("large", gen_large, run_large, 250, 3000), Facet("many", gen_many, run_many, 80, 800)], {"prep": {}},
              rule="A case is a grid point set with density parameters; the labels are compared with density-connected components computed from all "
                   "pairs. Non-trivial: two clusters, or a cluster with border points.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
