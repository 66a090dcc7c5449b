import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph
from pbt import Check, Facet, enc_d, enc_pts, enc_vu, req


@st.composite
def gen(draw, tier):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 9]))
    n = draw(st.integers(0, 25 if tier == "quick" else 60))
    k = draw(st.integers(1, 6))
    sc = draw(st.sampled_from([1.0, 0.5, 4.0]))        # powers of two: every distance below is computed exactly the same way
    co = st.integers(-6, 6)
    pt = st.lists(co, min_size=dim, max_size=dim)
    data = [[x * sc for x in p] for p in draw(st.lists(pt, min_size=n, max_size=n))]
    cent = [[x * sc for x in p] for p in draw(st.lists(pt, min_size=k, max_size=k))]
    lab = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    ds = sorted({ph.dist(p, c) for p in data for c in cent})
    r = draw(st.sampled_from(ds + [0.0, 1e9])) if ds and draw(st.booleans()) else draw(st.integers(0, 12)) * sc + sc / 4
    bl = draw(st.lists(st.sets(st.integers(0, k), max_size=k), max_size=4))
    return {"cent": cent, "data": data, "lab": lab, "rad": r, "bl": [sorted(b) for b in bl]}


def run(c, drv):
    cent, data, lab, rad, bl = c["cent"], c["data"], c["lab"], c["rad"], c["bl"]
    r = drv["util"].call("parts %d %s %s %s %s %s" % (len(cent), enc_pts(cent), enc_pts(data), enc_vu(lab), enc_d(rad),
                                                      " ".join([str(len(bl))] + [enc_vu(b) for b in bl])))
    want = max([ph.dist(p, cent[l]) for p, l in zip(data, lab)] or [0.0])
    req(abs(r["maxr"] - want) <= 1e-12 * max(1, want), "radius %r, expected %r", r["maxr"], want)
    idx = [[i for i, l in enumerate(lab) if l == k] for k in range(len(cent))]
    req(r["idx"] == idx, "partition by label holds the points %s, expected %s", r["idx"], idx)
    req(r["pts"] == [[data[i] for i in x] for x in idx], "partition by label holds the wrong coordinates: %s", r["pts"])
    ridx = [[i for i, p in enumerate(data) if ph.dist(p, m) < rad] for m in cent]
    req(r["ridx"] == ridx, "partition by radius %r holds the points %s, expected %s", rad, r["ridx"], ridx)
    req(r["rpts"] == [[data[i] for i in x] for x in ridx], "partition by radius holds the wrong coordinates: %s", r["rpts"])
    want = [[p for p, l in zip(data, lab) if l in b] for b in bl]
    req(r["bnd"] == want, "boundary partitions are %s, expected %s", r["bnd"], want)
    return len(data) >= 3 and len(cent) >= 2, ["overlap"] if any(len(set(a) & set(b)) for k, a in enumerate(ridx) for b in ridx[:k]) else ["disjoint"]


@st.composite
def gmap(draw, tier):
    n = draw(st.integers(1, 12))
    lab = draw(st.lists(st.integers(0, 50), min_size=n, max_size=n, unique=True))
    ent = st.tuples(st.integers(0, 3), st.integers(0, 9), st.integers(0, 9), st.sets(st.integers(0, n - 1), max_size=6))
    return {"lab": lab, "table": [[d, float(b), float(b + e), sorted(s)] for d, b, e, s in draw(st.lists(ent, max_size=6))]}


def run_map(c, drv):
    t = c["table"]
    r = drv["util"].call("remap %s %s" % (enc_vu(c["lab"]), " ".join([str(len(t))] + ["%d %s %s %s" % (d, enc_d(b), enc_d(e), enc_vu(s)) for d, b, e, s in t])))
    want = [[d, b, e, sorted(c["lab"][i] for i in s)] for d, b, e, s in t]
    req(r["table"] == want, "mapped table is %s, expected %s", r["table"], want)
    return any(x[3] for x in t), []


def gen_large(tier):
    return ph.many(60, 1500, 3, k=st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 130), st.sampled_from([255, 256, 257])))


def run_large(c, drv):
    r, data = ph.place(c)
    k = c["k"]
    cent = [[r.randint(-c["side"], c["side"]) * c["scale"] for _ in data[0]] for _ in range(k)]
    lab = [r.randrange(k) for _ in data]
    run({"cent": cent, "data": data, "lab": lab, "rad": r.choice([0.5, 1.0, c["side"] / 2, 2.0 * c["side"]]) * c["scale"],
         "bl": [sorted(r.sample(range(k), r.randint(0, k))) for _ in range(r.choice([3, 3, 20, 33, 64, 130]) if len(data) * k < 9000 else 3)]}, drv)
    n = len(data)
    lab = r.sample(range(10 * n), n)
    run_map({"lab": lab, "table": [[r.randint(0, 3), float(i), float(i + r.randint(0, 9)), sorted(r.sample(range(n), r.randint(0, min(n, 200))))] for i in range(r.randint(1, 60))]}, drv)
    return True, []


CHECK = Check("C18", [Facet("partitions", lambda t: gen(t), run, 4000, 60000), Facet("mapping", lambda t: gmap(t), run_map, 2000, 30000), Facet("large", gen_large, run_large, 160, 1500)],
              {"util": {"dirs": ["Utils"]}},
              rule="A case is a labelled point set with centroids, a radius (often exactly a distance) and label lists; or a feature table with a "
                   "partition's index list. Compared with direct recomputation. Non-trivial: at least three points and two centroids; a non-empty boundary.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
