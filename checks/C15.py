import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt
from pbt import Check, Facet, enc_d, enc_vd, req


@st.composite
def gen(draw, tier):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5, 8, 9, 17]))
    slow = draw(st.sampled_from([1, 1, 1, 1000, 40000, 10 ** 6]))      # the same history on a longer time scale
    t0 = draw(st.integers(0, 60)) * slow
    lam = draw(st.sampled_from([0.25, 0.25, 1.0, 0.01, 0.0, 2.0])) / slow
    sc = draw(st.sampled_from([1.0, 0.1, 0.3, 100.0]))
    same = draw(st.booleans())
    base = [draw(st.integers(-9, 9)) * sc for _ in range(dim)]
    ev, t = [], t0
    for _ in range(draw(st.integers(1, 14 if tier == "quick" else 40))):
        t += draw(st.sampled_from([0, 0, 0, 1, 1, 2, 5, 20])) * slow
        k = draw(st.integers(0, 3))
        p = list(base) if same and draw(st.integers(0, 3)) else [draw(st.integers(-9, 9)) * sc for _ in range(dim)]
        ev.append([0 if k <= 1 else k - 1, t, p])
    ev.append([2, t, []])
    return {"t0": t0, "lam": lam, "dim": dim, "ev": ev}


def stats(pts, lam, t):
    w = [2.0 ** (-lam * (t - s)) for _, s in pts]
    W = math.fsum(w)
    c = [math.fsum(a * p[0][k] for a, p in zip(w, pts)) / W for k in range(len(pts[0][0]))]
    var = math.fsum(a * (p[0][k] - c[k]) ** 2 for a, p in zip(w, pts) for k in range(len(c))) / W
    return W, c, math.sqrt(max(var, 0))


def run(c, drv):
    ev, lam = c["ev"], c["lam"]
    line = "micro %d %s %d %d %s" % (c["t0"], enc_d(lam), c["dim"], len(ev), " ".join("%d %d %s" % (k, t, enc_vd(p) if k < 2 else "") for k, t, p in ev))
    r = drv["prep"].call(line)["ev"]
    pts = []
    big = max([1.0] + [abs(x) for _, _, p in ev for x in p])
    tol = 3e-7 * big          # the radius is a difference of squares: half the digits
    asked = 0
    for (k, t, p), x in zip(ev, r):
        if k == 0:
            pts.append((p, t))
        elif k == 1:
            rad = stats(pts + [(p, t)], lam, t)[2]
            asked += len(pts) >= 2
            req(abs(x["merge"] - rad) <= tol, "the radius after taking %s in would be %r, expected %r", p, x["merge"], rad)
        else:
            req(x["created"] == c["t0"], "creation time %d instead of %d", x["created"], c["t0"])
            if not pts:
                req(x["weight"] == 0, "an empty cluster weighs %r", x["weight"])
                continue
            asked += len(pts) >= 2
            W, cen, rad = stats(pts, lam, t)
            req(abs(x["weight"] - W) <= 1e-9 * max(W, 1e-300) + 1e-300, "weight %r, expected %r", x["weight"], W)
            req(all(abs(a - b) <= 1e-9 * big for a, b in zip(x["center"], cen)) and len(x["center"]) == c["dim"], "center %s, expected %s", x["center"], cen)
            req(abs(x["radius"] - rad) <= tol, "radius %r, expected %r", x["radius"], rad)
    return asked > 0, ["n%d" % min(len(pts), 6)]


def gen_large(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(30, 600), st.sampled_from([64, 127, 128, 129, 255, 256, 257, 1024])), "seed": st.integers(0, 10 ** 6), "step": st.sampled_from([0, 1, 3, 40]), "dim": st.sampled_from([1, 2, 3, 4, 9, 40]), "slow": st.sampled_from([1, 1, 1000, 40000])})


def run_large(c, drv):
    r = random.Random(c["seed"])
    t, ev = 0, []
    for k in range(c["n"]):
        t += r.randint(0, c["step"]) * c["slow"]
        p = [float(r.randint(-50, 50)) for _ in range(c["dim"])]
        ev.append([0, t, p])
        if k % 37 == 36:
            ev += [[1, t, p], [2, t, []]]
    ev.append([2, t, []])
    return run({"t0": 0, "lam": r.choice([0.25, 0.01, 0.0, 1.0]) / c["slow"], "dim": c["dim"], "ev": ev}, drv)


CHECK = Check("C15", [Facet("histories", lambda t: gen(t), run, 5000, 60000), Facet("large", gen_large, run_large, 200, 2000)], {"prep": {}},
              rule="A case is a history of timed insertions and queries on one micro-cluster, compared with the decayed sums over all inserted points. "
                   "Non-trivial: a query when at least two points are in.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
