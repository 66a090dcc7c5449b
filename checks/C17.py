import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_pts, enc_vd, enc_vu, req


@st.composite
def two_sets(draw, tier):
    """Two duplicate-free lists in any order; often equal, nested, disjoint or differing in two elements."""
    hi = draw(st.sampled_from([4, 8, 20, 4294967295]))
    el = st.integers(0, hi) if hi < 100 else st.one_of(st.integers(0, 30), st.integers(hi - 30, hi))
    a = draw(st.lists(el, unique=True, max_size=10))
    k = draw(st.integers(0, 6))
    if k == 0:
        b = list(a)
    elif k == 1:
        b = list(draw(st.permutations(a)))
    elif k == 2:
        b = a[:draw(st.integers(0, len(a)))]
    elif k == 3:
        b = [x for x in draw(st.lists(el, unique=True, max_size=10)) if x not in a]
    elif k == 4 and a:      # swap one element: what two faces of a simplex look like
        b = list(a)
        x = draw(el)
        if x not in a:
            b[draw(st.integers(0, len(a) - 1))] = x
        if draw(st.booleans()):
            b.sort()
    else:
        b = draw(st.lists(el, unique=True, max_size=10))
    return {"a": a, "b": b}


def run_sets(c, drv):
    a, b = c["a"], c["b"]
    A, B = set(a), set(b)
    r = drv["util"].call("sets %s %s" % (enc_vu(a), enc_vu(b)))
    for key, want in (("union", A | B), ("inter", A & B), ("sym", A ^ B)):
        want = sorted(want)
        for k in (key, key + "_s", key + "_set", key + "_set0"):
            if k not in r:
                continue
            req(r[k] == want, "%s of %s and %s is %s", k, a, b, r[k])
    req(r["xor"] == sorted(A ^ B), "xor of %s and %s is %s", a, b, r["xor"])
    req(r["a"] == sorted(A) and r["b"] == sorted(B), "an argument was altered: %s %s", r["a"], r["b"])
    want = [sorted(A ^ B), sorted(A | B)] if len(A ^ B) == 2 else [[], []]
    for k in ("pair", "pair_s"):
        req(r[k] == want, "%s of %s and %s is %s, expected %s", k, a, b, r[k], want)
    kinds = ["equal" if A == B else "disjoint" if not A & B else "nested" if A <= B or B <= A else "crossing"]
    if len(A ^ B) == 2:
        kinds.append("adjacent")
    return bool(A) and bool(B), kinds


def run_sub(c, drv):
    a, k = c["a"], c["k"]
    A = sorted(set(a))
    r = drv["util"].call("subsets %s %d" % (enc_vu(a), k))
    for key, m in (("dim", k), ("faces", len(A) - 1), ("vfaces", len(A) - 1)):
        want = sorted(list(x) for x in itertools.combinations(A, m)) if m >= 0 else []
        req(sorted(r[key]) == want, "%s of %s (size %d): %s, expected %s", key, A, m, r[key], want)
    return len(A) >= 3, ["n%d" % len(A), "k" + ("<" if k < len(A) else "=" if k == len(A) else ">")]


@st.composite
def pts_case(draw, tier):
    pts = draw(ph.cloud(nmin=2, nmax=12, far=True))
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** 20, 2.0 ** 33, 2.0 ** 60, 2.0 ** 300, 2.0 ** -12, 2.0 ** -40, 2.0 ** -300]))
    pts = [[x * s for x in p] for p in pts]
    return {"p": pts[0], "q": pts[1:]}


def run_dist(c, drv):
    p, q = c["p"], c["q"]
    r = drv["util"].call("distances %s %s" % (enc_vd(p), enc_pts(q)))
    for key in ("near", "d", "e"):
        req(len(r[key]) == len(q), "%s has %d entries for %d points", key, len(r[key]), len(q))
        for x, y in zip(r[key], q):
            w = ph.dist(p, y)
            req(abs(x - w) <= 1e-12 * w, "%s: distance of %s and %s is %r", key, p, y, x)
    want = [(x - y) ** 2 for y2 in q for x, y in zip(p, y2)]
    req(len(want) == len(r["sq"]) and all(abs(x - y) <= 1e-12 * y for x, y in zip(r["sq"], want)), "squared differences wrong: %s", r["sq"])
    return len(q) >= 2, ["dim%d" % len(p)]


# long lists, described by a seed
def gen_large(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(11, 400), st.sampled_from([16, 17, 32, 33, 64, 65, 128, 129, 256, 257])), "seed": st.integers(0, 10 ** 6), "kind": st.integers(0, 5)})


def run_large(c, drv):
    r = random.Random(c["seed"])
    a = r.sample(range(4 * c["n"]), c["n"])
    b = list(a)
    if c["kind"] == 1:
        b = b[:r.randint(0, len(b))]
    elif c["kind"] == 2:
        b[r.randrange(len(b))] = 4 * c["n"] + 1
    elif c["kind"] == 3:
        b = [x + 4 * c["n"] for x in b]
    elif c["kind"] >= 4:
        b = r.sample(range(4 * c["n"]), r.randint(1, 2 * c["n"]))
    r.shuffle(b)
    if r.random() < 0.5:
        a.sort()
        b.sort()
    run_sets({"a": a, "b": b}, drv)
    d = r.randint(1, 40)
    pts = [[float(r.randint(-99, 99)) for _ in range(d)] for _ in range(c["n"] + 1)]
    run_dist({"p": pts[0], "q": pts[1:]}, drv)
    s = r.sample(range(10 ** 6), min(c["n"], 12))
    run_sub({"a": s, "k": r.choice([0, 1, 2, 5, len(s) - 1, len(s), len(s) + 1])}, drv)
    return True, ["kind%d" % c["kind"]]


CHECK = Check("C17", [
    Facet("sets", lambda t: two_sets(t), run_sets, 6000, 80000),
    Facet("subsets", lambda t: st.fixed_dictionaries({"a": st.lists(st.integers(0, 40), unique=True, max_size=9 if t == "quick" else 12), "k": st.integers(0, 13)}), run_sub, 2500, 20000),
    Facet("subsets of many", lambda t: st.fixed_dictionaries({"a": st.lists(st.integers(0, 60), unique=True, min_size=12, max_size=15), "k": st.integers(0, 16)}), run_sub, 40, 600),
    Facet("distances", lambda t: pts_case(t), run_dist, 2500, 30000),
    Facet("large", gen_large, run_large, 400, 6000)], {"util": {"dirs": ["Utils"]}},
    rule="A case is a pair of duplicate-free lists (equal, permuted, nested, disjoint, adjacent or random), a set with a subset size, or a point with a "
         "list of points, compared with Python's sets, combinations and arithmetic. Non-trivial: both sets non-empty; at least three elements; at least two points.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
