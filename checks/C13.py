import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_d, enc_pts, enc_vd, req


@st.composite
def gen(draw, tier):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5, 7, 9, 12, 17]))
    n = draw(st.integers(1, 40 if tier == "quick" else 120)) if draw(st.integers(0, 20)) else 0
    hi = draw(st.sampled_from([1, 3, 8, 50, 4000000000]))
    sc = draw(st.sampled_from([1.0, 1.0, 0.25, 0.0625])) if hi < 100 else 1.0
    co = st.integers(-hi, hi)
    flat = draw(st.lists(co, min_size=n * dim, max_size=n * dim))
    pts = [[x * sc for x in flat[k * dim:k * dim + dim]] for k in range(n)]
    kind = draw(st.integers(0, 5)) if n and hi < 100 else 9
    if kind == 0:       # differences far below the precision of a float, next to whole numbers
        fl = draw(st.lists(st.integers(-40, 40), min_size=n * dim, max_size=n * dim))
        pts = [[x + f * 2.0 ** -36 for x, f in zip(p, fl[k * dim:])] for k, p in enumerate(pts)]
    elif kind == 1:     # on the axes of a common centre, at nearly the same distance
        fl = draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n))
        off = draw(st.sampled_from([0.0, 0.0, 1e-3]))
        g = draw(st.sampled_from([2.0 ** -14, 2.0 ** -20, 2.0 ** -30]))
        pts = [[(sc * (1 + f * g) * (1 if f % 2 else -1)) if j == k % dim else off * (k % 3) for j in range(dim)] for k, f in enumerate(fl)]
    size = draw(st.integers(1, n)) if n and draw(st.booleans()) else 0
    qs = []
    for _ in range(draw(st.integers(1, 6))):
        q = list(draw(st.sampled_from(pts))) if pts and draw(st.booleans()) else [draw(st.integers(-hi - 2, hi + 2)) * sc for _ in range(dim)]
        # whole multiples of the grid put points exactly on the sphere and on the dividing planes
        if kind == 1 and draw(st.booleans()):
            q = [0.0] * dim
        r = draw(st.sampled_from([0.0, 1.0, 2.0, 3.0, 5.0, 0.5, 0.99, 1e12])) * sc if hi < 100 else draw(st.sampled_from([0.0, 1e9, 3e9, 1e10]))
        qs.append([q, r])
    return {"pts": pts, "size": size, "q": qs, "fine": int(kind < 2)}


def run(c, drv):
    pts, size = c["pts"], c["size"]
    r = drv["prep"].call("kd %d %s %d %s" % (size, enc_pts(pts), len(c["q"]), " ".join(enc_vd(q) + " " + enc_d(x) for q, x in c["q"])))["q"]
    use = pts[:size] if size else pts
    hit = 0
    for (q, rad), x in zip(c["q"], r):
        d = [ph.dist(p, q) for p in use]
        if use:
            for k, pk in (("index", "point"), ("pi", "pp")):
                i = x[k]
                req(0 <= i < len(use) and use[i] == x[pk], "index %s and point %s do not belong together", i, x[pk])
                req(d[i] <= min(d) * (1 + 1e-12), "nearest to %s: point %d at %r, there is one at %r", q, i, d[i], min(d))
        # without a grid a distance may round to either side of the radius
        edge = {i for i, e in enumerate(d) if c.get("fine") and 0 < rad and abs(e - rad) <= 1e-12 * (1 + rad)}
        keep = edge & set(x["nidx"])
        want = [i for i, e in enumerate(d) if (i in keep if i in edge else e <= rad)]
        hit += 0 < len(want) < len(use)
        for k, pk in (("nidx", "npts"), ("bidx", "bpts")):
            req(sorted(x[k]) == want, "points within %r of %s: %s, expected %s", rad, q, sorted(x[k]), want)
            if k == "nidx":
                req(sorted(x[pk]) == sorted(use[i] for i in want), "the points do not match the indices: %s", x[pk])
            else:
                req(x[pk] == [use[i] for i in x[k]], "the points do not match the indices: %s", x[pk])
    return len(use) >= 4 and hit > 0, ["dim%d" % len(pts[0])] if pts else ["empty"]


def gen_large(tier):
    deep = st.tuples(ph.many(520, 1500, 3, part=st.just(False)), st.sampled_from([9, 10, 11, 12, 16])).map(lambda x: dict(x[0], axes=x[1]))
    return st.one_of(*[ph.many(60, 2100, 5, part=st.booleans())] * 4, deep)


def run_large(c, drv):
    r, pts = ph.place(c)
    qs = []
    for _ in range(6):
        near = r.choice([0, 0, 0.5, 0.01]) * c["scale"]
        q = [x + r.choice([-1, 0, 1]) * near for x in r.choice(pts)] if r.random() < 0.6 else [r.randint(-c["side"], c["side"]) * c["scale"] for _ in pts[0]]
        qs.append([q, r.choice([0.0, 1.0, 2.0, 3.0, 0.3 * c["side"], c["side"], 4.0 * c["side"]]) * c["scale"]])
    return run({"pts": pts, "size": r.randint(1, len(pts)) if c["part"] else 0, "q": qs}, drv)


CHECK = Check("C13", [Facet("queries", lambda t: gen(t), run, 5000, 60000), Facet("large", gen_large, run_large, 400, 5000)], {"prep": {}},
              rule="A case is a point set on a grid (many ties, duplicates and points exactly on the dividing planes), indexed whole or in part, with "
                   "nearest and radius queries compared with a linear scan. Non-trivial: four points and a radius query that selects some but not all.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
