import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_pts, enc_s, enc_vd, req

HEAD = "RVIndex,Mean,Stdev,k,kNN_Mean,kNN_Stdev,Result"


@st.composite
def gen(draw, tier):
    d = draw(st.one_of(st.integers(1, 4), st.sampled_from([9, 17, 40])))
    hi, sc = draw(st.sampled_from([2, 20, 1000])), draw(st.sampled_from([1.0, 0.5, 0.01, 16.0]))
    ask = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.one_of(st.sampled_from([1, 2, 18, 19, 20, 20, 21, 22, 50]), st.integers(1, 60), st.sampled_from([64, 100, 129, 257, 1001, 2500])))
        ask.append([n, draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 3))])
    return {"dim": d, "hi": hi, "sc": sc, "ask": ask, "type": draw(st.sampled_from(lhf.TYPES))}


def points(c, n, seed, kind):
    """The evaluated point and the window: spread out, all the same, or with one point far away."""
    r = random.Random(seed)
    p = lambda h: [r.randint(-h, h) * c["sc"] for _ in range(c["dim"])]
    q = p(c["hi"])
    win = [p(c["hi"]) for _ in range(n)]
    if kind == 1:
        win = [win[0]] * n
    elif kind == 2:
        win[r.randrange(n)] = p(1000 * c["hi"])
    elif kind == 3:
        win[r.randrange(n)] = list(q)
    return q, win


def stats(d):
    m = sum(d) / len(d)
    return m, math.sqrt(sum((x - m) ** 2 for x in d) / len(d))


def run(c, drv):
    s = Script()
    s("new", enc_s(c["type"]), enc_conf(lhf.conf(c["type"], 1.0, 1)))
    asked = [points(c, *a) for a in c["ask"]]
    for q, win in asked:
        s("seval", enc_vd(q), enc_pts(win))
    r = drv.script(s)
    for k, x in enumerate(r):
        req(x["seval"] is True or x["seval"] == 1, "a point was refused")
        ls = x["stats"].split("\n")
        req(ls[0] == HEAD and ls[-1] == "" and len(ls) == k + 3, "after %d points the statistics are %r", k + 1, x["stats"])
        for (q, win), l in zip(asked, ls[1:-1]):
            f = l.split(",")
            d = sorted(ph.dist(q, w) for w in win)
            near = d[:20]
            want = [0, *stats(d), len(near), *stats(near)]
            req(len(f) == 7 and f[6] == "Accept", "statistics line %r", l)
            got = [float(v) for v in f[:6]]
            req(all(abs(a - b) <= 1e-6 + 1e-9 * d[-1] for a, b in zip(got, want)), "statistics of %s against %d points: %s, expected %s", q, len(win), got, want)
    return any(len(w) > 20 for q, w in asked) and len({a[0] for a in c["ask"]}) >= 1, ["k%d" % min(20, len(w)) for q, w in asked if len(w) >= 19]


CHECK = Check("C31", [Facet("evaluations", lambda t: gen(t), run, 2500, 30000)], {"core": {}},
              rule="A case is a history of points evaluated against windows of 1 to 2500 points; the statistics kept by the complex are recomputed line by line. "
                   "Non-trivial: a window of more than 20 points.",
              assumptions=["windows hold at least one point"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
