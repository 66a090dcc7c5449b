import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import numpy as np
import pbt
from pbt import Check, Facet, enc_conf, enc_pts, enc_s, req

EDGE = 1e-7        # a case whose decisions hang on less than this (relative) is left out: rounding may turn them


class Close(Exception):
    pass


def far(a, b):
    if abs(a - b) <= EDGE * max(1.0, abs(a), abs(b)):
        raise Close
    return a - b


@st.composite
def gen(draw, long, segs=6, top=90):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9]))
    nc = draw(st.integers(0, 4))
    seg = []
    for _ in range(draw(st.integers(1, segs))):
        # which place (existing 0..3, late 4..6, -1 anywhere), how many points
        seg.append([draw(st.integers(-1, 6)), draw(st.integers(1, top))])
    # in many dimensions the same spread is further away
    f = 1 if dim <= 3 else (3.0 / dim) ** 0.5
    c = {"dim": dim, "n": 1000 if long else draw(st.one_of(st.integers(1, 30), st.integers(60, 250), st.integers(60, 250))), "nc": nc if long else nc or draw(st.integers(0, 4)), "seg": seg if long else [],
            "mix": draw(st.integers(0, 1)), "noise": draw(st.sampled_from([0, 0, 5, 30])), "seed": draw(st.integers(0, 10 ** 6)),
            "spread": draw(st.sampled_from([0.3, 0.6, 1.0])) * f, "eps": draw(st.sampled_from([0.8, 1.0, 1.5, 3.0])),
            "lam": draw(st.sampled_from([0.25, 0.1, 0.5, 1.0, 2.0, 4.0]))}
    if long and draw(st.integers(0, 3)) == 0:
        # groups whose weight is a power of two, read when one of them has decayed to exactly the limit
        c["halves"], c["lam"] = sorted(draw(st.sets(st.integers(5, 8), min_size=1, max_size=4))), draw(st.sampled_from([0.5, 1.0, 2.0]))
        t = (draw(st.sampled_from(c["halves"])) - 1) / c["lam"]
        c["seg"], c["noise"] = [[draw(st.integers(4, 6)), int(20 * t)], [draw(st.integers(0, 6)), draw(st.integers(0, 19))]], 0
    return c


def build(c):
    r = random.Random(c["seed"])
    places = [[r.uniform(-12, 12) for _ in range(c["dim"])] for _ in range(7)]

    def pt(w):
        if w < 0:
            return [r.uniform(-20, 20) for _ in range(c["dim"])]
        return [x + r.uniform(-c["spread"], c["spread"]) for x in places[w]]
    if c.get("halves"):
        own = [w for w, k in enumerate(c["halves"]) for _ in range(2 ** k)]
        pts = [pt(w) for w in own + [3] * (c["n"] - len(own))]
        r.shuffle(pts)
    else:
        pts = [pt(-1 if not c["nc"] or r.randrange(100) < c["noise"] else r.randrange(c["nc"])) for _ in range(c["n"])]
    late = [w for w, k in c["seg"] for _ in range(k)]
    if c["mix"]:
        r.shuffle(late)
    return pts + [pt(w) for w in late]


def dbscan(pts, m, eps):
    a = np.array(pts, dtype=float)
    n = len(a)
    nb = []
    for i in range(n):
        d = np.sqrt(((a - a[i]) ** 2).sum(axis=1))
        if np.any(np.abs(d - eps) <= EDGE):
            raise Close
        nb.append(np.nonzero(d <= eps)[0])
    lab, k = [0] * n, 0
    for i in range(n):
        if lab[i] > 0 or len(nb[i]) < m:
            continue
        k += 1
        todo = [i]
        lab[i] = k
        while todo:
            for j in nb[todo.pop()]:
                if lab[j] == 0:
                    lab[j] = k
                    if len(nb[j]) >= m:
                        todo.append(int(j))
    return lab, k


class Micro:
    """Keeps its points; every quantity is computed from scratch in decayed sums around a fixed origin."""
    def __init__(self, t, lam, org):
        self.t0, self.lam, self.at, self.w, self.org = t, lam, t, 0.0, org
        self.s = [0.0] * len(org or [])
        self.whole = True       # decayed over whole powers of two only, so far
        self.q = 0.0

    def plus(self, p, t):
        f = 2.0 ** (-self.lam * (t - self.at))
        d = [a - b for a, b in zip(p, self.org)]
        return self.w * f + 1, [x * f + y for x, y in zip(self.s, d)], self.q * f + sum(x * x for x in d)

    def radius_with(self, p, t):
        w, s, q = self.plus(p, t)
        return math.sqrt(max(0.0, q / w - sum((x / w) ** 2 for x in s)))

    def add(self, p, t):
        self.whole = self.whole and self.lam * (t - self.at) % 1 == 0
        self.w, self.s, self.q = self.plus(p, t)
        self.at = t

    def weight(self, t):
        return self.w * 2.0 ** (-self.lam * (t - self.at))

    def exactly(self, t, w):
        return self.whole and self.lam * (t - self.at) % 1 == 0 and self.weight(t) == w

    def center(self):
        return [o + x / self.w for o, x in zip(self.org, self.s)]


def nearest(cl, p):
    d = sorted((math.dist(m.center(), p), i) for i, m in enumerate(cl))
    if len(d) > 1:
        far(d[0][0], d[1][0])
    return d[0][1]


def model(pts, eps, lam):
    mu, beta, speed = 10, 0.2, 20
    need = beta * mu
    tp = math.ceil((1 / lam) * math.log(need / (need - 1)))
    n0 = min(1000, len(pts))
    lab, k = dbscan(pts[:n0], 20, eps)
    t, sub = n0 // speed, n0 % speed
    P = [Micro(t, lam, None) for _ in range(k)]
    O, seen = [], {"promoted": 0, "dropP": 0, "dropO": 0, "kept": 0, "limit": 0, "k": k}
    for p, l in zip(pts, lab):
        if l:
            m = P[l - 1]
            if m.org is None:
                m.__init__(t, lam, p)
            m.add(p, t)
    for p in pts[n0:]:
        sub += 1
        if sub == speed:
            sub, t = 0, t + 1
        done = False
        if P:
            m = P[nearest(P, p)]
            if far(m.radius_with(p, t), eps) <= 0:
                m.add(p, t)
                done = True
        if not done and O:
            i = nearest(O, p)
            m = O[i]
            if far(m.radius_with(p, t), eps) <= 0:
                m.add(p, t)
                done = True
                if m.weight(t) == need or far(m.weight(t), need) <= 0:
                    seen["kept"] += 1
                else:
                    seen["promoted"] += 1
                    P.append(m)
                    del O[i]
        if not done:
            m = Micro(t, lam, p)
            m.add(p, t)
            O.append(m)
        if sub == 0 and t % tp == 0:
            keep = [m for m in P if m.exactly(t, need) or far(m.weight(t), need) >= 0]
            seen["limit"] += sum(m.exactly(t, need) for m in P)
            seen["dropP"] += len(P) - len(keep)
            P = keep
            keep = []
            for m in O:
                xi = (2.0 ** (-lam * (t - m.t0 + tp)) - 1) / (2.0 ** (-tp * lam) - 1)
                # a fresh cluster weighs exactly the limit of its first moment
                if (t == m.t0 and m.w == 1) or far(m.weight(t), xi) >= 0:
                    keep.append(m)
            seen["dropO"] += len(O) - len(keep)
            O = keep
    return [m.center() for m in P], seen


def run(c, drv):
    pts = build(c)
    try:
        want, seen = model(pts, c["eps"], c["lam"])
    except Close:
        return False, ["close"]
    cf = {"epsilon": repr(c["eps"]), "lambda": repr(c["lam"]), "debug": "0", "outputFile": "out"}
    rs = drv["fast" if len(pts) > 300 else "prep"].call("pre %s %s %s 2 1" % (enc_s("denstream"), enc_conf(cf), enc_pts(pts)))["runs"]
    for r in rs:
        req(r["cfg"] is True, "a complete configuration was refused")
        req(r["full"] == pts and r["stats"].startswith("before\n"), "the kept copy of the input or the earlier statistics changed")
        got = list(r["cent"])
        req(len(got) == len(want), "%d micro-clusters, expected %d: %s, expected %s", len(got), len(want), got, want)
        for w in want:
            hit = [g for g in got if len(g) == len(w) and all(abs(a - b) <= 1e-7 for a, b in zip(g, w))]
            req(hit, "no micro-cluster at %s among %s", w, r["cent"])
            got.remove(hit[0])
    tags = [k for k in ("promoted", "dropP", "dropO", "kept", "limit") if seen[k]] + ["k%d" % min(seen["k"], 4)]
    return bool(want) and (len(pts) > 1000 or seen["k"] > 1), tags


@st.composite
def gen_cfg(draw, tier):
    cf = {"epsilon": "1.0", "lambda": "0.25", "debug": "0", "outputFile": "out"}
    for k in draw(st.sets(st.sampled_from(sorted(cf)))):
        del cf[k]
    return {"cf": cf, "pts": [[float(draw(st.integers(-5, 5)))] for _ in range(draw(st.integers(1, 6)))]}


def run_cfg(c, drv):
    r = drv["prep"].call("pre %s %s %s 1 0" % (enc_s("denStream"), enc_conf(c["cf"]), enc_pts(c["pts"])))["runs"][0]
    ok = "epsilon" in c["cf"] and "lambda" in c["cf"]
    req(r["cfg"] is ok, "configuration %s %s", c["cf"], "refused" if ok else "accepted")
    if not ok:
        req(r["cent"] == c["pts"] == r["full"] and r["labels"] == [] and r["stats"] == "before\n", "an unconfigured preprocessor changed its input: %s", r)
    return not ok, []


CHECK = Check("C16", [Facet("streams", lambda t: gen(True), run, 400, 12000), Facet("short", lambda t: gen(False), run, 700, 12000), Facet("long", lambda t: gen(True, 12, 400), run, 32, 1500), Facet("config", lambda t: gen_cfg(t), run_cfg, 200, 1000)], {"prep": {}, "fast": {"src": "prep", "san": False}},
              rule="A case is a stream described by a few segments (dense places, late places, noise), run twice on one object and compared with a "
                   "reference model of the stream clustering; cases whose decisions depend on less than 1e-7 are left out. Non-trivial: micro-clusters "
                   "remain and the stream is longer than the initial batch or starts with several clusters; or an incomplete configuration.",
              assumptions=["At least one point; decay and epsilon positive."])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
