import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import itertools
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_d, enc_pts, enc_s, enc_vd, enc_vu, req


def enc_m(m):
    return " ".join([str(len(m))] + [enc_vu(r) for r in m])


def bits(r):
    return sum(1 << i for i, x in enumerate(r) if x)


def independent(rows):
    """Indices of the rows that are not combinations of the rows before them."""
    basis, out = {}, []
    for k, r in enumerate(rows):
        v = bits(r)
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = v
                out.append(k)
                break
            v ^= basis[h]
    return out


def span_basis(rows):
    """Reduced row echelon form, as a canonical name of the row space."""
    b = []
    for r in rows:
        v = bits(r)
        for x in b:
            v = min(v, v ^ x)
        if v:
            b = [min(x, x ^ v) for x in b] + [v]
    b = sorted(b, reverse=True)
    for i in range(len(b)):
        for j in range(len(b)):
            if i != j and b[j] & (1 << (b[i].bit_length() - 1)):
                b[j] ^= b[i]
    return sorted(b)


def gen_m(tier):
    @st.composite
    def case(draw):
        n, m = draw(st.integers(0, 10 if tier == "quick" else 16)), draw(st.integers(1, 10 if tier == "quick" else 16))
        kind = draw(st.sampled_from(["dense", "sparse", "dependent", "zero"]))
        rows = []
        for _ in range(n):
            if kind == "dependent" and len(rows) >= 2 and draw(st.booleans()):
                ix = draw(st.lists(st.integers(0, len(rows) - 1), min_size=1, max_size=3))
                r = [0] * m
                for i in ix:
                    r = [a ^ b for a, b in zip(r, rows[i])]
            elif kind == "zero" and draw(st.booleans()):
                r = [0] * m
            elif kind == "sparse":
                r = [0] * m
                for i in draw(st.lists(st.integers(0, m - 1), min_size=0, max_size=3)):
                    r[i] = 1
            else:
                r = draw(st.lists(st.integers(0, 1), min_size=m, max_size=m))
            rows.append(r)
        return {"rows": rows}
    return case()


def run_m(c, drv):
    rows = c["rows"]
    s = Script()
    s("ranknull", enc_m(rows))("redmat", enc_m(rows))
    r = drv.script(s)
    ind = independent(rows)
    req(sorted(r[0]["pivots"]) == ind, "independent rows reported %s, expected %s", r[0]["pivots"], ind)
    red = r[1]
    req(red["rank"] == len(ind), "rank %d, expected %d", red["rank"], len(ind))
    req(red["nullity"] == (len(rows[0]) if rows else 0) - len(ind), "nullity %d for %d independent rows of %d columns", red["nullity"], len(ind), len(rows[0]) if rows else 0)
    req(len(red["rows"]) == len(rows), "the reduced matrix has %d rows instead of %d", len(red["rows"]), len(rows))
    req(all(len(x) == len(rows[0]) and set(x) <= {0, 1} for x in red["rows"]), "the reduced matrix is not a 0/1 matrix of the same width")
    req(span_basis(red["rows"]) == span_basis(rows), "the reduction changed the row space: %s", red["rows"])
    req(not any(any(x) for x in red["rows"][red["rank"]:]), "rows beyond the rank are not zero: %s", red["rows"])
    return len(rows) >= 3 and 2 <= len(ind) < len(rows), ["rank%d" % min(len(ind), 8)]


def gen_c(tier):
    @st.composite
    def case(draw):
        D = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
        t = draw(st.sampled_from(lhf.TYPES))
        pts = draw(ph.cloud(nmin=2, nmax={1: 14, 2: 9, 3: 7, 4: 7}[D] + (2 if tier == "thorough" else 0)))
        return {"pts": pts, "eps": draw(ph.eps_for(pts)), "dim": D, "type": t}
    return case()


def run_c(c, drv):
    pts, eps, D, t = c["pts"], c["eps"], c["dim"], c["type"]
    s = lhf.pipeline_script(t, pts, eps, D, pipes=["distMatrix", "neighGraph", "rips"], snap=False)
    s("edges", enc_d(eps))("bmat", enc_d(eps))
    r = [x for x in drv.script(s) if "made" not in x]
    edges = r[0]["edges"]
    # the simplices in the order the complex lists them; a simplex kills a cycle iff its boundary is independent of the earlier ones
    exp, off = [], 0
    neg = 0
    for d, row in enumerate(edges):
        if d > 0:
            at = {tuple(f): i for i, (f, w) in enumerate(edges[d - 1])}
            m = []
            for f, w in row:
                v = [0] * len(edges[d - 1])
                for g in itertools.combinations(f, d):
                    v[at[g]] = 1
                m.append(v)
            ix = independent(m)
            neg += len(ix)
            exp += [off + i for i in ix]
        off += len(row)
    req(sorted(r[1]["pivots"]) == exp, "negative simplices %s, expected %s", r[1]["pivots"], exp)
    # the same numbers from the unreduced matrix of each pair of dimensions
    s = Script()
    for d in range(1, len(edges)):
        s("bndmat", enc_m([f for f, w in edges[d - 1]]), enc_m([f for f, w in edges[d]]))
    if len(edges) > 1:
        r = drv.script(s)
        off = len(edges[0])
        for d in range(1, len(edges)):
            rk = sum(1 for i in exp if off <= i < off + len(edges[d]))
            off += len(edges[d])
            req(r[d - 1]["rank"] == rk, "boundary matrix of dimension %d has rank %d, expected %d", d, r[d - 1]["rank"], rk)
            req(r[d - 1]["nullity"] == len(edges[d]) - rk, "boundary matrix of dimension %d has nullity %d, expected %d", d, r[d - 1]["nullity"], len(edges[d]) - rk)
    return len(edges) >= 3 and neg < off - len(edges[0]), ["D%d" % D, t, "top%d" % (len(edges) - 1)]


@st.composite
def gen_f(draw, tier):
    simp = st.lists(st.integers(0, 9), max_size=6, unique=True)
    cx = [[draw(st.integers(0, 12)) / 4, draw(simp)] for _ in range(draw(st.integers(0, 12)))]
    pairs = []
    for _ in range(draw(st.integers(1, 12))):
        b = draw(simp)
        k = draw(st.integers(0, 4))
        a = draw(simp) if k == 0 or not b else [x for x in b if x != b[0]] if k == 1 else [x for x in b if x != b[-1]] + ([draw(st.integers(10, 12))] if k == 3 else []) if k < 4 else b + [11]
        pairs.append([draw(st.permutations(a)), b])
    return {"eps": draw(st.integers(0, 12)) / 4, "n": draw(st.integers(0, 6)), "cx": cx, "pairs": pairs}


def run_f(c, drv):
    s = Script()
    s("faces", enc_d(c["eps"]), str(c["n"]), str(len(c["cx"])), *[enc_d(w) + " " + enc_vu(v) for w, v in c["cx"]], str(len(c["pairs"])), *[enc_vu(a) + " " + enc_vu(b) for a, b in c["pairs"]])
    r = drv.script(s)[0]
    want = [v for w, v in c["cx"] if len(v) == c["n"] and w <= c["eps"]]
    for k in ("pp", "bp"):
        req(r[k] == want, "simplices on %d points up to %g: %s, expected %s", c["n"], c["eps"], r[k], want)
    hit = 0
    for (a, b), x in zip(c["pairs"], r["faces"]):
        w = int(not b or len(set(a) ^ set(b)) == 1)
        hit += w and bool(b)
        req(x == [w] * 3, "face test of %s in %s answers %s, expected %d", a, b, x, w)
    return hit > 0 and len(want) > 0, ["n%d" % c["n"]]


def gen_large(tier):
    size = st.one_of(st.integers(17, 130), st.sampled_from([31, 32, 33, 63, 64, 65, 127, 128, 129]))
    return st.fixed_dictionaries({"n": size, "m": size, "ones": st.sampled_from([2, 3, 3, 10]), "dep": st.booleans(), "seed": st.integers(0, 10 ** 6)})


def run_large(c, drv):
    r = random.Random(c["seed"])
    rows = []
    for _ in range(c["n"]):
        if c["dep"] and len(rows) > 2 and r.random() < 0.4:
            a = r.sample(rows, 2)
            rows.append([x ^ y for x, y in zip(*a)])
        else:
            v = [0] * c["m"]
            for i in r.sample(range(c["m"]), min(c["m"], c["ones"])):
                v[i] = 1
            rows.append(v)
    return run_m({"rows": rows}, drv)


gen_big, run_big = ph.large(run_c, ["simplexTree", "simplexArrayList"], lo=60, hi=110)

CHECK = Check("C21", [Facet("matrices", gen_m, run_m, 4000, 60000), Facet("complexes", gen_c, run_c, 1500, 20000), Facet("faces", lambda t: gen_f(t), run_f, 1500, 20000),
                      Facet("large", gen_large, run_large, 200, 2500), Facet("large-complexes", lambda t: gen_big(), run_big, 60, 800)], {"core": {}},
              rule="A case is a 0/1 matrix (dense, sparse, with dependent or zero rows) or the complex of a generated point cloud; ranks, "
                   "nullities, independent rows and row spaces are recomputed by an independent elimination. Non-trivial: a matrix of >= 3 rows "
                   "with 2 <= rank < rows; a face found and a simplex selected; a complex with triangles and at least one cycle among its simplices.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
