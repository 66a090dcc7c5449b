import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_d, enc_pts, enc_vd, enc_vu, req

dot = lambda a, b: sum(x * y for x, y in zip(a, b))


@st.composite
def gen(draw, tier):
    # directions and coordinates are small multiples of a power of two: dot products are exact and often tie
    d = draw(st.integers(1, 5))
    u, n = draw(st.sampled_from([1.0, 0.25, 2.0 ** -20, 2.0 ** 30])), draw(st.integers(1, 40))
    hi = draw(st.sampled_from([1, 4, 30, 5000]))
    co = lambda k: draw(st.lists(st.integers(-hi, hi), min_size=k * d, max_size=k * d))
    f, om = co(n), draw(st.lists(st.integers(0, 16), min_size=d, max_size=d))
    fac = [[x * u for x in f[k * d:k * d + d]] for k in range(n)]
    m = draw(st.integers(1, 12))
    f = co(m)
    pts = [[x * u for x in f[k * d:k * d + d]] for k in range(m)]
    for k in range(m):
        if draw(st.integers(0, 2)) == 0:
            pts[k] = list(draw(st.sampled_from(fac)))
    lead = draw(st.integers(0, 40))         # points earlier in the stream: positions up to the number of facilities and beyond
    pts = [list(pts[0]) for _ in range(lead)] + pts
    return {"fac": fac, "om": [x / 16 for x in om], "pts": pts}


def run(c, drv):
    fac, om, pts = c["fac"], c["om"], c["pts"]
    n = len(fac)
    order = sorted(range(n), key=lambda i: (dot(fac[i], om), i))
    pr = [dot(fac[i], om) for i in order]
    r = drv["prep"].call("proj %s %s %s %s" % (enc_pts(fac), enc_vu(order), enc_vd(om), enc_pts(pts)))
    req(r["proj"] == pr, "dot products %s, expected %s", r["proj"][:10], pr[:10])
    req(r["fac"] == fac, "the facilities were changed")
    req(len(r["q"]) == len(pts), "%d answers for %d points", len(r["q"]), len(pts))
    inner = ties = 0
    todo = [(k, p, r["q"][k]) for k, p in enumerate(pts)] + [(-1 - k, p, r["self"][k]) for k, p in enumerate(fac)]
    for k, p, a in todo:
        t = dot(p, om)
        if k >= 0:
            req(a["dot"] == t, "dot product of %s and %s is %r", p, om, a["dot"])
        l = a["loc"]
        if t <= pr[0]:
            req(l == -1, "target %r at or below all projections: position %d", t, l)
            continue
        if t > pr[-1]:
            req(l == n - 1, "target %r above all of %d projections: position %d", t, n, l)
            req(a["near"] == fac[order[-1]], "point %d beyond the last facility: nearest is %s, expected %s", k, a["near"], fac[order[-1]])
            continue
        inner += k >= 0
        req(0 <= l < n - 1 and pr[l] <= t <= pr[l + 1], "target %r at position %d of %s", t, l, pr)
        x, y = fac[order[l]], fac[order[l + 1]]
        dx, dy = ph.dist(p, x), ph.dist(p, y)
        ties += dx == dy
        want = [x] if dx < dy - 1e-9 * dy else [y] if dy < dx - 1e-9 * dx else [x, y]
        req(a["near"] in want, "point %d %s at position %d between %s and %s: nearest is %s", k, p, l, x, y, a["near"])
    return inner > 0 and n >= 3, ["inner" if inner else "outer", "tie" if ties else "clear"]


def gen_large(tier):
    return st.fixed_dictionaries({"n": st.sampled_from([64, 65, 100, 128, 129, 255, 256, 257, 300, 1000]), "d": st.sampled_from([1, 2, 3, 8, 9, 16, 17, 33, 64]), "hi": st.sampled_from([3, 60, 5000, 2 ** 20]),
                                  "u": st.sampled_from([1.0, 0.25, 2.0 ** -20, 2.0 ** 30]), "m": st.integers(1, 40), "seed": st.integers(0, 2 ** 32 - 1)})


def run_large(c, drv):
    r = random.Random(c["seed"])
    p = lambda: [r.randint(-c["hi"], c["hi"]) * c["u"] for _ in range(c["d"])]
    fac = [p() for _ in range(c["n"])]
    return run({"fac": fac, "om": [r.randint(0, 16) / 16 for _ in range(c["d"])], "pts": [p() if r.random() < 0.7 else list(r.choice(fac)) for _ in range(c["m"])]}, drv)


@st.composite
def gen_rnd(draw, tier):
    lo = draw(st.integers(-1000, 1000))
    return {"lo": lo, "hi": lo + draw(st.sampled_from([1, 2, 3, 7, 100, 100000])), "f": draw(st.sampled_from([0.0, 1.0, -0.5, 1.5, 0.5])), "n": draw(st.integers(1, 60))}


def run_rnd(c, drv):
    r = drv["prep"].call("rnd %d %d %d %s" % (c["lo"], c["hi"], c["n"], enc_d(c["f"])))
    req(len(r["doubles"]) == c["n"] and all(0 <= x < 1 for x in r["doubles"]), "random doubles outside [0, 1): %s", r["doubles"])
    req(all(c["lo"] <= x < c["hi"] for x in r["ints"]), "random integers outside [%d, %d): %s", c["lo"], c["hi"], r["ints"])
    if c["hi"] - c["lo"] > 1 and c["n"] >= 60:
        req(len(set(r["ints"])) > 1, "%d random integers are all %d", c["n"], r["ints"][0])
    if c["f"] <= 0:
        req(r["hits"] == 0, "probability %g came true", c["f"])
    if c["f"] >= 1:
        req(r["hits"] == c["n"], "probability %g failed", c["f"])
    return c["n"] >= 2, ["f%g" % c["f"]]


CHECK = Check("C26", [Facet("nearest", lambda t: gen(t), run, 4000, 50000), Facet("large", gen_large, run_large, 500, 8000), Facet("random", lambda t: gen_rnd(t), run_rnd, 500, 5000)], {"prep": {}},
              rule="A case is a list of facilities ordered by projection, a direction and a stream of points; the search position must enclose the point's projection and the "
                   "answer be the nearer of the two facilities there; or bounds and a probability for the random helpers. Non-trivial: three facilities and a point between "
                   "projections; at least two draws.",
              assumptions=["points whose projection is not above the smallest one are not judged (upstream returns the point itself there; see DESIGN.md)"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
