"""Reference geometry and persistent homology (slow, obvious), and point-cloud generators."""
import itertools, math, random
from hypothesis import strategies as st

TOL = 3e-6          # barcodes are printed with six decimals


def dist(a, b):
    return math.sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))


def dmat(pts):
    return [[dist(a, b) for b in pts] for a in pts]


def rips(pts, eps, maxdim, D=None):
    """Flag complex: {dim: [(simplex tuple, diameter)]} with every edge <= eps."""
    n = len(pts)
    if D is None:
        later = [{} for _ in range(n)]
        for i, p in enumerate(pts):
            for j in range(i + 1, n):
                x = dist(p, pts[j])
                if x <= eps:
                    later[i][j] = x
    else:
        later = [{j: D[i][j] for j in range(i + 1, n) if D[i][j] <= eps} for i in range(n)]
    out = {0: [((i,), 0.0) for i in range(n)]}
    for d in range(1, maxdim + 1):
        nxt = []
        for s, w in out[d - 1]:
            for j in later[s[-1]]:
                m = w
                for i in s:
                    x = later[i].get(j)
                    if x is None:
                        break
                    if x > m:
                        m = x
                else:
                    nxt.append((s + (j,), m))
        out[d] = nxt
    return out


def barcode(pts, eps, maxh, D=None):
    """Persistence of the Rips filtration over Z2: [(dim, birth, death or None)] for dim <= maxh,
    including zero-length bars."""
    cx = rips(pts, eps, maxh + 1, D)
    return barcode_of(cx, maxh)


def barcode_of(cx, maxh):
    S = {d: sorted((w, s) for s, w in cx[d]) for d in cx}
    top = max(S)
    low, paired, bars = {}, {d: set() for d in S}, []
    for d in range(1, top + 1):
        idx, low = {s: k for k, (w, s) in enumerate(S[d - 1])}, {}
        for k, (w, s) in enumerate(S[d]):
            col = 0
            for f in itertools.combinations(s, d):
                col ^= 1 << idx[f]
            while col:
                l = col.bit_length() - 1
                if l in low:
                    col ^= low[l]
                else:
                    low[l] = col
                    bars.append((d - 1, S[d - 1][l][0], w))
                    paired[d - 1].add(l)
                    paired[d].add(k)
                    break
    for d in S:
        bars += [(d, w, None) for k, (w, s) in enumerate(S[d]) if k not in paired[d] and d <= maxh]
    return [b for b in bars if b[0] <= maxh]


def parse_bars(text):
    out = []
    for l in text.split("\n"):
        if not l:
            continue
        t = l.split(",")
        out.append((int(t[0]), float(t[1]), float(t[2])))
    return out


def norm(bars, eps, tol=1e-5):
    """Closed multiset: essential bars end at eps, empty intervals dropped (inverted ones kept)."""
    r = [(d, b, eps if e is None else e) for d, b, e in bars]
    return sorted(x for x in r if abs(x[2] - x[1]) > tol)


SHORT = 2e-5        # bars this short may be lost in the rounding of the output


def match(a, b, tol=TOL, short=SHORT):
    """Multiset comparison of two normalised barcodes; None or a description. A bar without a
    partner is tolerated only if it is shorter than short."""
    # values are either equal up to rounding or far apart, so sorting on rounded keys aligns them
    ka = sorted(a, key=lambda t: (t[0], round(t[1], 4), round(t[2], 4)))
    kb = sorted(b, key=lambda t: (t[0], round(t[1], 4), round(t[2], 4)))
    near = lambda u, v: u[0] == v[0] and abs(u[1] - v[1]) <= tol and abs(u[2] - v[2]) <= tol
    if len(ka) == len(kb) and all(near(u, v) for u, v in zip(ka, kb)):
        return None
    # rounding may have split a tie: match greedily
    rest = list(kb)
    for u in ka:
        for v in rest:
            if near(u, v):
                rest.remove(v)
                break
        else:
            if abs(u[2] - u[1]) > short:
                return "bar %s not expected (%d bars, expected %d): got %s, expected %s" % (u, len(a), len(b), ka[:40], kb[:40])
    for v in rest:
        if abs(v[2] - v[1]) > short:
            return "bar %s missing (%d bars instead of %d): got %s, expected %s" % (v, len(a), len(b), ka[:40], kb[:40])
    return None


# ------------------------------------------------------------------ generators
def _ints(lo, hi):
    return st.integers(lo, hi)


SHAPES = ["dense", "wide", "ring", "sphere", "clusters", "line", "dup", "gridring", "gridring", "circle", "circle",
          "octa", "octa", "real", "lattice", "lattice", "rings", "rings", "cube"]


@st.composite
def cloud(draw, nmin=1, nmax=12, dmin=1, dmax=4, shapes=None, far=False):
    """A point cloud on a scaled integer grid: distances tie exactly or are well apart.
    far: sometimes placed a long way from the origin (all distances stay exact)."""
    shape = draw(st.sampled_from(shapes or SHAPES))
    n = draw(_ints(nmin, nmax))
    if shape == "octa" and nmax < 6:
        shape = "circle"
    if shape in ("ring", "gridring"):
        m = draw(_ints(2, 4)) if shape == "ring" else draw(_ints(3, 6))
        per = [(i, 0) for i in range(m)] + [(m, i) for i in range(m)] + [(m - i, m) for i in range(m)] + [(0, m - i) for i in range(m)]
        if shape == "gridring":
            # a ring of about n points, evenly spread along the boundary
            n = max(n, min(4, nmax))
            off = draw(_ints(0, len(per) - 1))
            pts = [list(per[(off + (k * len(per)) // n) % len(per)]) for k in range(n)]
        else:
            ix = draw(st.lists(_ints(0, len(per) - 1), min_size=n, max_size=n))
            pts = [list(per[i]) for i in ix]
    elif shape == "sphere":
        r = draw(_ints(1, 3))
        axes = [[r, 0, 0], [-r, 0, 0], [0, r, 0], [0, -r, 0], [0, 0, r], [0, 0, -r]]
        jit = draw(st.lists(_ints(-1, 1), min_size=3 * n, max_size=3 * n)) if draw(st.booleans()) else [0] * (3 * n)
        pts = [[a + j for a, j in zip(axes[k % 6], jit[3 * k:3 * k + 3])] for k in range(n)]
    elif shape == "circle":
        # rounded points of a circle, possibly jittered: one long-lived cycle
        n = max(n, min(5, nmax))
        R, ph0 = draw(st.sampled_from([4, 10, 50])), draw(_ints(0, 11))
        jit = draw(st.lists(_ints(-1, 1), min_size=2 * n, max_size=2 * n))
        pts = [[round(R * math.cos(2 * math.pi * (k / n + ph0 / 40))) + jit[2 * k],
                round(R * math.sin(2 * math.pi * (k / n + ph0 / 40))) + jit[2 * k + 1]] for k in range(n)]
    elif shape == "thin":
        # thin boxes and slightly dented circles: many features that live very briefly
        n = max(n, min(4, nmax))
        if draw(st.booleans()):
            h = draw(st.sampled_from([0.005, 0.01, 0.02, 0.05, 0.1, 0.25]))
            pts = [[k // 2 + (k // 8), (k % 2) * h] for k in range(n)]
            if draw(st.booleans()):
                pts = [p + [(k % 3) * h] for k, p in enumerate(pts)]
        else:
            g = draw(st.sampled_from([3e-5, 1e-4, 1e-3, 1e-2]))
            m = draw(st.sampled_from([4, 5, 6, 8]))
            jit = draw(st.lists(_ints(-3, 3), min_size=2 * n, max_size=2 * n))
            pts = [[math.cos(2 * math.pi * k / m) + 8 * (k // m) + g * jit[2 * k], math.sin(2 * math.pi * k / m) + g * jit[2 * k + 1]]
                   for k in range(n)]
    elif shape == "octa":
        # vertices of a cross-polytope with unequal radii (a hollow sphere), plus strays
        d = draw(_ints(3, 4)) if nmax >= 8 else 3
        rad = draw(st.lists(_ints(8, 11), min_size=2 * d, max_size=2 * d))
        pts = [[(rad[k] if k % 2 else -rad[k]) if j == k // 2 else 0 for j in range(d)] for k in range(2 * d)]
        for k in range(max(0, n - 2 * d)):
            if draw(_ints(0, 1)):       # next to a vertex
                pts.append([x + draw(_ints(-2, 2)) for x in pts[draw(_ints(0, 2 * d - 1))]])
            else:
                pts.append([draw(_ints(-12, 12)) for _ in range(d)])
        n = len(pts)
    elif shape == "lattice":
        # most of a small grid: many cycles born together
        a = draw(_ints(2, 5))
        full = [[i, j] for i in range(a) for j in range((max(n, 4) + a - 1) // a)]
        pts = full[:max(n, min(4, nmax))]
        if len(pts) > 5 and draw(st.booleans()):
            del pts[draw(_ints(0, len(pts) - 1))]
        if draw(st.booleans()):
            sx, sy = draw(_ints(2, 4)), draw(_ints(2, 4))
            pts = [[x * sx, y * sy] for x, y in pts]
        n = len(pts)
    elif shape == "rings":
        # separate small cycles of different sizes
        pts = []
        while len(pts) + 4 <= max(n, 4) and len(pts) + 4 <= nmax:
            m = min(draw(_ints(4, 6)), nmax - len(pts))
            R = draw(_ints(3, 9))
            o = 30 * len(pts)
            pts += [[o + round(R * math.cos(2 * math.pi * k / m)), round(R * math.sin(2 * math.pi * k / m))] for k in range(m)]
        if not pts:
            pts = [[3 * k, 0] for k in range(n)]
        n = len(pts)
    elif shape == "real":
        d = draw(_ints(max(1, dmin), dmax))
        xs = draw(st.lists(_ints(-5000, 5000), min_size=n * d, max_size=n * d))
        pts = [[x / 1000 for x in xs[k * d:(k + 1) * d]] for k in range(n)]
    elif shape == "cube":
        # many coordinates: corners of a cube, or a small grid
        d, hi = draw(st.sampled_from([5, 6, 7, 8, 9, 12, 16, 17, 32, 33])), draw(st.sampled_from([1, 1, 2, 9]))
        r = random.Random(draw(_ints(0, 10 ** 6)))
        pts = [[r.randint(0, hi) for _ in range(d)] for _ in range(n)]
    elif shape == "line":
        xs = draw(st.lists(_ints(0, 40), min_size=n, max_size=n))
        pts = [[x] for x in xs]
    else:
        d = draw(_ints(max(1, dmin), dmax))
        hi = {"dense": 3, "wide": 20, "clusters": 3, "dup": 6}[shape]
        xs = draw(st.lists(_ints(0, hi), min_size=n * d, max_size=n * d))
        pts = [xs[k * d:(k + 1) * d] for k in range(n)]
        if shape == "clusters":
            cl = draw(st.lists(_ints(0, 2), min_size=n, max_size=n))
            pts = [[x + 10 * c if k == 0 else x for k, x in enumerate(p)] for p, c in zip(pts, cl)]
        if shape == "dup" and n > 1:
            ix = draw(st.lists(_ints(0, n - 1), min_size=n, max_size=n))
            pts = [list(pts[i]) for i in ix]
    dim = len(pts[0])
    if dim < dmin:
        pts = [p + [0] * (dmin - dim) for p in pts]
        dim = dmin
    if draw(st.booleans()) and n > 1:
        pts = list(draw(st.permutations(pts)))
    scale = draw(st.sampled_from([1, 1, 1, 0.5, 0.1, 0.3, 2.5, 7]))
    off = draw(st.sampled_from([0, 0, 0, -3, 0.25, 100]))
    if far and scale in (1, 0.5, 2.5, 7) and shape not in ("real", "thin") and draw(st.integers(0, 9)) == 0:
        off = draw(st.sampled_from([2 ** 16, -2 ** 20, 2 ** 27]))
    return [[x * scale + off for x in p] for p in pts]


@st.composite
def scattered(draw, sizes=(60, 320), types=None, dmax=3):
    """Many points with few neighbours each, described by a seed; the threshold falls between squared distances."""
    n = draw(st.one_of(st.sampled_from([64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 258, 300]), st.integers(*sizes)))
    n = max(sizes[0], min(sizes[1], n))
    c = {"n": n, "axes": draw(_ints(1, dmax)), "deg": draw(st.sampled_from([1.0, 2.0, 3.0, 4.5])), "dup": draw(st.sampled_from([0, 0, 3])),
         "sq": draw(_ints(9, 150)), "seed": draw(_ints(0, 10 ** 6)), "shape": draw(st.sampled_from(["random", "random", "random", "random", "rings", "shell", "tube"]))}
    if types:
        c["type"] = draw(st.sampled_from(types))
    return c


def structured(c, r):
    """Long closed loops, the surface of a cube, a long closed tube: features of many points; a point or two may be missing."""
    pts = []
    if c["shape"] == "tube":                    # one class of many homologous circles
        ends = r.choice([0, 1, 2, 2, 2])
        if r.random() < 0.5:                    # narrow at the ends, uneven
            m, k, jit, eps = r.choice([5, 5, 6]), 8 + c["n"] // 8, 5, math.sqrt(165 ** 2 + 0.5)
            rad = [60 if j < ends and j == 0 or ends == 2 and j == k - 1 else 20 * m for j in range(k)]
        else:                                   # slightly wider with each step, the ends filled
            m, k, jit, eps = 4, max(5, c["n"] // 4 - 1), 0, 175.8437
            rad = [100 + 0.125 * j * min(1, 44 / k) for j in range(k)]
            pts = [[0.0, 0.0, -8.0]][:ends] + [[0.0, 0.0, 90.0 * (k - 1) + 8]][:max(0, ends - 1)]
        for j in range(k):
            pts += [[round(rad[j] * math.cos(2 * math.pi * i / m) * 64) / 64 + r.randint(-jit, jit), round(rad[j] * math.sin(2 * math.pi * i / m) * 64) / 64 + r.randint(-jit, jit), 90.0 * j + r.randint(-jit, jit)] for i in range(m)]
        if r.random() < 0.5:
            r.shuffle(pts)
        return pts, eps
    if c["shape"] == "rings":
        while len(pts) < c["n"]:
            m = min(r.choice([5, 12, 40, 100]), c["n"] - len(pts))
            s = 3 * max(1, m // 4)
            per = [(i, 0) for i in range(0, s, 3)] + [(s, i) for i in range(0, s, 3)] + [(s - i, s) for i in range(0, s, 3)] + [(0, s - i) for i in range(0, s, 3)]
            o = len(pts) * 100
            pts += [[float(o + x), float(y)] for x, y in per][:c["n"] - len(pts)]
        sq = r.choice([9, 10, 17, 36])          # next, across the corner, ... or the second next neighbour
        sq = min(sq, 17) if c["deg"] < 4 else sq
    else:
        a = max([k for k in range(2, 5) if 6 * k * k + 2 <= c["n"] - 30] + [2])
        pts = [[2.0 * x, 2.0 * y, 2.0 * z] for x in range(a + 1) for y in range(a + 1) for z in range(a + 1) if {x, y, z} & {0, a}]
        sq = r.choice([4, 8, 8])                # along the edges, or across the squares
    r.shuffle(pts)
    for _ in range(r.choice([0, 0, 1, 2])):
        pts.pop()
    for _ in range(c["dup"] and 1):
        pts[r.randrange(len(pts))] = list(pts[r.randrange(len(pts))])
    return pts, math.sqrt(sq + 0.5)


def scatter(c):
    """The points and the threshold of a scattered() case."""
    r = random.Random(c["seed"])
    if c.get("shape", "random") != "random":
        return structured(c, r)
    eps = math.sqrt(c["sq"] + 0.5)
    vol = {1: 2 * eps, 2: math.pi * eps ** 2, 3: 4.19 * eps ** 3}[c["axes"]]
    side = max(1, int((c["n"] * vol / c["deg"]) ** (1 / c["axes"])))
    pts = [[float(r.randint(0, side)) for _ in range(c["axes"])] for _ in range(c["n"])]
    for _ in range(c["dup"]):
        pts[r.randrange(len(pts))] = list(pts[r.randrange(len(pts))])
    return pts, eps


@st.composite
def many(draw, lo, hi, dmax=3, **more):
    """A seed and a size, often at or next to a power of two or ten, and a grid to place the points on."""
    near = [x for p in (32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048) for x in (p - 1, p, p + 1) if lo <= x <= hi]
    c = {"n": draw(st.one_of(st.sampled_from(near), _ints(lo, hi)) if near else _ints(lo, hi)), "axes": draw(_ints(1, dmax)), "side": draw(st.sampled_from([2, 9, 40, 1000])),
         "scale": draw(st.sampled_from([1.0, 1.0, 0.25, 16.0])), "seed": draw(_ints(0, 10 ** 6))}
    if dmax >= 4 and draw(_ints(0, 5)) == 0:        # many coordinates
        c["axes"] = draw(st.sampled_from([5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 129, 257]))
        c["n"] = min(c["n"], max(lo, 12000 // c["axes"]))
    for k, v in more.items():
        c[k] = draw(v)
    return c


def place(c):
    """The generator and the points of a many() case."""
    r = random.Random(c["seed"])
    return r, [[r.randint(-c["side"], c["side"]) * c["scale"] for _ in range(c["axes"])] for _ in range(c["n"])]


def large(run, types, dims=(1, 2, 2, 3), small=("simplexArrayList",), hi=320, lo=130):
    """Strategy and judge for scattered clouds in a check whose cases are pts/eps/dim/type."""
    @st.composite
    def case(draw):
        t = draw(st.sampled_from(types))
        c = draw(scattered(sizes=(40, lo) if t in small and draw(_ints(0, 3)) else (60, hi)))
        c["type"], c["dim"] = t, draw(st.sampled_from(dims))
        if c["n"] > lo and t in small:
            c["deg"], c["dim"] = min(c["deg"], 2.0), min(c["dim"], 2)
        if t in small and c["shape"] == "shell":
            c["n"] = min(c["n"], 80)
        return c

    def judge(c, drv):
        pts, eps = scatter(c)
        return run({"pts": pts, "eps": eps, "dim": c["dim"], "type": c["type"]}, drv)
    return case, judge


@st.composite
def tiny(draw, types, dims=(1, 2, 2, 3)):
    """Points on a small grid whose unit is so short that every bar is about as long as the printed precision allows."""
    d, u = draw(_ints(1, 3)), draw(st.sampled_from([4e-5, 6e-5]))
    D = draw(st.sampled_from(dims))
    n = draw(_ints(3, 9 if D < 3 else 7))
    xs = draw(st.lists(_ints(0, 3 if d > 1 else 6), min_size=n * d, max_size=n * d))
    pts = [[x * u for x in xs[k * d:(k + 1) * d]] for k in range(n)]
    if draw(st.booleans()):             # some of them well away
        pts = [[p[0] + (draw(_ints(0, 1)) * 2.0)] + p[1:] for p in pts]
    g = [x for x in gaps(pts) if x < 1]
    k = draw(_ints(0, len(g) - 1)) if g else 0
    eps = (g[k] + (g[k + 1] if k + 1 < len(g) else g[k] + 2 * u)) / 2 if g else u
    return {"pts": pts, "eps": eps, "dim": D, "type": draw(st.sampled_from(types))}


@st.composite
def crowd(draw, kinds, full=(30, 76), tube=(400, 900), squares=(900, 1100)):
    """Very many simplices, very long reductions or very many cycles, described by a seed."""
    k = draw(st.sampled_from(kinds))
    lo, hi = {"full": full, "tube": tube, "squares": squares}[k]
    return {"kind": k, "n": draw(_ints(lo, hi)), "seed": draw(_ints(0, 10 ** 6)), "axes": draw(_ints(1, 3)), "side": draw(st.sampled_from([3, 20, 1000])), "all": draw(st.booleans())}


def crowded(c):
    r = random.Random(c["seed"])
    if c["kind"] == "tube":
        return structured({"shape": "tube", "n": c["n"], "deg": 0, "dup": 0}, r)
    if c["kind"] == "squares":
        pts = []
        for k in range(c["n"] // 4):
            m = r.choice([4, 4, 4, 5, 7])
            o = (100.0 * (k % 40), 100.0 * (k // 40))
            if m == 4:
                q = r.choice([(6, 6), (6, 7), (5, 8)])
                pts += [[o[0] + x, o[1] + y] for x, y in ((0, 0), (q[0], 0), (q[0], q[1]), (0, q[1]))]
            else:
                pts += [[o[0] + 8.0 * i, o[1]] for i in range(m)]
        if r.random() < 0.5:
            r.shuffle(pts)
        return pts, 8.25
    pts = [[float(r.randint(-c["side"], c["side"])) for _ in range(c["axes"])] for _ in range(c["n"])]
    g = gaps(pts) or [1.0]
    return pts, g[-1] + 1 if c["all"] or len(g) < 4 else (g[len(g) * 9 // 10] + g[len(g) * 9 // 10 + 1]) / 2 if len(g) * 9 // 10 + 1 < len(g) else g[-1] + 1


def gaps(pts):
    """Distinct distances (ties merged), ascending."""
    ds = sorted(dist(a, b) for a, b in itertools.combinations(pts, 2))
    out = []
    for x in ds:
        if not out or x - out[-1] > 1e-7:
            out.append(x)
    return out


@st.composite
def eps_for(draw, pts, low=True):
    """A threshold well away from every distance of the cloud."""
    g = gaps(pts)
    if not g:
        return draw(st.sampled_from([0.5, 1.0, 5.0]))
    cand = [(a + b) / 2 for a, b in zip(g, g[1:])]
    if g[0] > 0 and low:
        cand.append(g[0] / 2)
    top = g[-1] * 1.25 + 0.5
    kind = draw(st.integers(0, 10))
    if kind in (0, 10) or not cand:
        return top
    if kind in (1, 2):      # just above or just below a distance: features that end close to the threshold
        k = draw(st.integers(0, len(g) - 1))
        by = max(6e-5, 3e-5 * g[k])
        if kind == 1 and (k + 1 == len(g) or g[k + 1] - g[k] > 2 * by):
            return g[k] + by
        if kind == 2 and low and g[k] - (g[k - 1] if k else 0) > 2 * by:
            return g[k] - by
    if kind in (3, 4):      # the widest gap between two distances: where long-lived features are alive
        return max((b - a, (a + b) / 2) for a, b in zip(g, g[1:]))[1] if len(g) > 1 else cand[0]
    k = draw(st.integers(0, len(cand) - 1))
    return cand[k]
