import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_d, enc_pts, enc_s, enc_vd, req
from C02 import compare, counts


# ---- one complex object over a history of loads, insertions, reads and clears
def gen_complex(ctype):
    lst = ctype == "simplexArrayList"

    def strategy(tier):
        @st.composite
        def case(draw):
            D = draw(st.sampled_from([1, 2, 2, 3, 4]))
            n = {1: 12, 2: 9, 3: 7, 4: 7}[D] if not lst else {1: 10, 2: 8, 3: 6, 4: 6}[D]
            clouds = [draw(ph.cloud(nmin=1, nmax=n)) for _ in range(draw(st.integers(2, 3)))]
            allp = [p + [0.0] * (6 - len(p)) for c in clouds for p in c]
            eps = draw(ph.eps_for(allp))
            ops, k = [], None
            for _ in range(draw(st.integers(2, 14 if tier == "quick" else 24))):
                kind = draw(st.sampled_from(["load", "insert", "insert", "insert", "read", "clear", "expand"] if lst else
                                            ["load", "insert", "insert", "insert", "read", "clear"]))
                ops.append([kind, draw(st.integers(0, 7))])
            return {"clouds": clouds, "eps": eps, "dim": D, "type": ctype, "ops": ops}
        return case()
    return strategy


def run_complex(c, drv):
    t, D, eps = c["type"], c["dim"], c["eps"]
    lst = t == "simplexArrayList"
    s = Script()
    s("new", enc_s(t), enc_conf(lhf.conf(t, eps, D)))

    def load(k):
        m = ph.dmat(c["clouds"][k])
        s("dist", enc_pts([[m[i][j] if j > i else 0.0 for j in range(len(m))] for i in range(len(m))]))
    cur, n, exp, log, expanded = 0, 0, [], [], False
    load(0)
    clears = 0
    for kind, a in c["ops"] + [["read", 0]]:
        if kind == "load":
            cur = a % len(c["clouds"])
            s("clear")
            load(cur)
            n, expanded = 0, False
            clears += 1
        elif kind == "clear":
            s("clear")
            n, expanded = 0, False
            clears += 1
        elif kind == "insert":
            if expanded:
                continue        # points are added to a graph, not to an expanded complex
            for _ in range(1 + a):
                if n < len(c["clouds"][cur]):
                    s("insert", enc_vd(c["clouds"][cur][n]))
                    n += 1
        elif kind == "expand":
            if not expanded:
                s("expand", str(D))
                expanded = True
        else:
            s("counts")("edges", enc_d(eps))
            exp.append((cur, n, expanded, clears))
    r = drv.script(s)
    for i, (k, m, e, cl) in enumerate(exp):
        w = "read %d (cloud %d, %d points, %d clears so far)" % (i, k, m, cl)
        ref = ph.rips(c["clouds"][k][:m], eps, D)
        Dk = D if not lst or e else 1
        counts(r[2 * i], ref, Dk, m, w)
        compare(r[2 * i + 1]["edges"], ref, Dk, w)
    return clears >= 1 and any(cl and m >= 3 for k, m, e, cl in exp), ["reads%d" % min(len(exp), 5), "clears%d" % min(clears, 5)]


# ---- stage objects shared by several jobs, interleaved stage by stage
STAGES = ["distMatrix", "neighGraph", "rips", "fastPersistence", "persistence"]


def gen_jobs(tier):
    @st.composite
    def case(draw):
        jobs = []
        for _ in range(draw(st.integers(2, 4 if tier == "quick" else 6))):
            t = draw(st.sampled_from(lhf.TYPES))
            D = draw(st.sampled_from([1, 2, 2, 3, 4]))
            n = {1: 12, 2: 9, 3: 7, 4: 9}[D]
            pts = draw(ph.cloud(nmax=n, shapes=["octa", "octa", "dense", "cube"] if D == 4 else None))
            if jobs and draw(st.booleans()):
                # the same cloud again, or another one with as many points
                old = [list(x) for x in draw(st.sampled_from(jobs))["pts"]][:n]
                how = draw(st.integers(0, 3))
                if how == 0:
                    pts = [x + [1.0 * (i % 2)] for i, x in enumerate(old)]
                elif how == 1:
                    pts = old
                else:       # one or two points differ, anywhere
                    pts = old
                    for i in draw(st.lists(st.integers(0, len(old) - 1), min_size=1, max_size=2)):
                        pts[i][draw(st.integers(0, len(old[0]) - 1))] += draw(st.sampled_from([1.0, -2.0, 0.5]))
            last = draw(st.sampled_from(["fastPersistence", "fastPersistence", "persistence"]))
            if t == "indSimplexTree":
                last = "fastPersistence"
            jobs.append({"type": t, "dim": D, "pts": pts, "eps": draw(ph.eps_for(pts)), "last": last})
        order = draw(st.permutations([j for j in range(len(jobs)) for _ in range(4)]))
        peek = draw(st.lists(st.booleans(), min_size=len(order), max_size=len(order)))
        if draw(st.booleans()):
            order = sorted(order)       # one job after the other
        return {"jobs": jobs, "order": list(order), "peek": [int(x) for x in peek]}
    return case()


def run_jobs(c, drv):
    jobs = c["jobs"]
    s = Script()
    for p in STAGES:
        s("mk", enc_s(p), enc_s("simplexTree"))
    conf = [lhf.conf(j["type"], j["eps"], j["dim"]) for j in jobs]
    started = set()
    done = [0] * len(jobs)
    seen = {k: [] for k in range(len(jobs))}        # positions of the reads taken between stages
    peeked, pos = {k: [] for k in range(len(jobs))}, 0
    for k, look in zip(c["order"], c["peek"]):
        j = jobs[k]
        s("at", str(k)) if k in started else None
        if k not in started:
            # a packet of its own
            s("at", str(k))
            s("new", enc_s(j["type"]), enc_conf(conf[k]))("data", enc_pts(j["pts"]))
            started.add(k)
        stage = (STAGES[:3] + [j["last"]])[done[k]]
        done[k] += 1
        i = STAGES.index(stage)
        s("cfg", str(i), enc_conf(conf[k]))("go", str(i))
        if look:
            s("counts")("edges", enc_d(j["eps"]))
            seen[k].append(done[k])
            peeked[k] += [pos, pos + 1]
            pos += 2
    for k in range(len(jobs)):
        s("at", str(k))("snap")("counts")("edges", enc_d(jobs[k]["eps"]))
    r = [x for x in drv.script(s) if "made" not in x and "cfg" not in x]
    nt = False
    early, r = r[:pos], r[pos:]
    for k, j in enumerate(jobs):
        f = lhf.pipeline_script(j["type"], j["pts"], j["eps"], j["dim"], pipes=[], snap=False)
        for i, stage in enumerate(STAGES[:3] + [j["last"]]):
            f("run", enc_s(stage), enc_conf(conf[k]))
            if i + 1 in seen[k]:
                f("counts")("edges", enc_d(j["eps"]))
        f("snap")("counts")("edges", enc_d(j["eps"]))
        g = [x for x in drv.script(f) if "made" not in x]
        mine = [early[x] for x in peeked[k]] + r[3 * k:3 * k + 3]
        req(len(mine) == len(g), "job %d: %d records instead of %d", k, len(mine), len(g))
        for a, b in zip(mine, g):
            for key in a:
                if key != "stats":
                    req(a[key] == b[key], "job %d of %d: %s differs from a fresh run: %s instead of %s", k, len(jobs), key, str(a[key])[:400], str(b[key])[:400])
            if "stats" in a:
                x, y = [[[f for i, f in enumerate(l.split(",")) if i != 1] for l in q["stats"].split("\n")] for q in (a, b)]
                req(x == y, "job %d: statistics differ from a fresh run: %s instead of %s", k, x, y)
        nt = nt or len(g[-3]["betti"].split("\n")) > 3
    return nt and len({j["eps"] for j in jobs} | {j["dim"] for j in jobs}) >= 3, ["jobs%d" % len(jobs)]


# the same with many points
def gen_large(tier):
    return st.fixed_dictionaries({"a": ph.scattered(sizes=(60, 200)), "b": ph.scattered(sizes=(30, 130)), "list": st.booleans(), "seed": st.integers(0, 10 ** 6)})


def run_large(c, drv):
    r = random.Random(c["seed"])
    (p, eps), (q, e2) = ph.scatter(c["a"]), ph.scatter(c["b"])
    t = "simplexArrayList" if c["list"] else "simplexTree"
    n = 70 if c["list"] else 200
    q = [[x * 0.5 for x in v] + [0.0] * 3 for v in q]       # halved: denser at the same threshold
    cut = lambda v: [x + [0.0] * (6 - len(x)) for x in v][:n]
    clouds = [cut(p), cut(q)[:60]]
    if any(abs(ph.dist(a, b) - eps) < 1e-7 for v in clouds for i, a in enumerate(v) for b in v[:i]):
        return False, ["marginal"]
    ops = []
    for _ in range(r.randint(2, 4)):
        ops.append(["load", r.randrange(2)])
        ops += [["insert", r.choice([7, 30, 200])] for _ in range(r.randint(1, 4))]
        ops += [["read", 0]] * r.randrange(2) + ([["expand", 0]] if c["list"] and r.randrange(2) else [])
    nt, tags = run_complex({"clouds": clouds, "eps": eps, "dim": 2 if not c["list"] else 1, "type": t, "ops": ops}, drv)
    jobs = [{"type": t, "dim": r.choice([1, 2]), "pts": p[:n], "eps": eps, "last": "fastPersistence"}, {"type": "indSimplexTree", "dim": 1, "pts": q, "eps": e2, "last": "fastPersistence"},
            {"type": t, "dim": 2, "pts": p[:n // 2] + p[:5], "eps": eps, "last": r.choice(["persistence", "fastPersistence"])}]
    order = [0, 1, 2] * 4
    r.shuffle(order)
    run_jobs({"jobs": jobs, "order": order, "peek": [0] * 12}, drv)
    return nt, tags


CHECK = Check("C05", [Facet("complex-simplexTree", gen_complex("simplexTree"), run_complex, 1200, 16000),
                      Facet("complex-simplexArrayList", gen_complex("simplexArrayList"), run_complex, 1200, 16000),
                      Facet("stages", gen_jobs, run_jobs, 900, 9000), Facet("large", gen_large, run_large, 64, 1000)], {"core": {}},
              rule="A case is a history: one complex object taken through loads of different clouds, insertions, reads, expansion and clears; "
                   "or several jobs with different clouds, thresholds, dimensions and complex types run stage by stage, one after the other or interleaved, on shared "
                   "stage objects, with the complex read after some stages, each compared with a fresh run. Non-trivial: a read of >= 3 points after a clear; jobs with "
                   "differing settings of which one reports more than two intervals.",
              assumptions=["a clear precedes a new distance matrix"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
