import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_pts, enc_s, req


@st.composite
def gen(draw, tier):
    t = draw(st.sampled_from(lhf.TYPES))
    D = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5]))
    pts = draw(ph.cloud(nmax=8 if D < 4 else 7, dmin=1))
    last = "persistence" if t != "indSimplexTree" and draw(st.booleans()) else "fastPersistence"
    n = draw(st.integers(1, 4))
    return {"type": t, "pipes": ["distMatrix", "neighGraph", "rips", last][:n], "pts": pts, "eps": draw(ph.eps_for(pts)), "dim": D,
            "fn": draw(st.sampled_from(["", "", "_a", "7"])), "up": draw(st.booleans()), "out": draw(st.sampled_from(["log", "console"]))}


def jobs(c, debug):
    kw = {"outputFile": c["out"]}
    if c["fn"]:
        kw["fn"] = c["fn"]
    cf = lhf.conf(c["type"], c["eps"], c["dim"], debug=debug, **kw)
    s = Script()
    s("capon")("new", enc_s(c["type"]), enc_conf(cf))("data", enc_pts(c["pts"]))
    for p in (["upscale"] if c["up"] else []) + c["pipes"]:
        s("run", enc_s(p), enc_conf(cf))
    s("capoff")("snap")("counts")("ls", enc_s("output"))("cat", enc_s("log"))
    for f in ("Upscale_output", "DistMatrix_output", "neighGraph_output", "ripsPipe_output", "FastPersistence_bettis_output" + c["fn"],
              "PersistencePairs_bettis_output" + c["fn"]):
        s("cat", enc_s("output/%s.csv" % f))
    return s


def strip_times(stats):
    return ["%s|%s" % (l.split(",")[0], ",".join(l.split(",")[2:])) for l in stats.split("\n") if l]


def lines_of(simp):
    return sorted("".join("%d," % i for i in s) + "%g" % w for s, w in simp)


def run(c, drv):
    off = [x for x in drv.script(jobs(c, "0")) if "made" not in x]
    on = [x for x in drv.script(jobs(c, "1")) if "made" not in x]
    a, b = off[1], on[1]
    for k in a:
        if k == "stats":
            req(strip_times(a[k]) == strip_times(b[k]), "debug changed the statistics: %r, %r", a[k], b[k])
        else:
            req(a[k] == b[k], "debug changed %s: %s without, %s with", k, str(a[k])[:300], str(b[k])[:300])
    req(off[2] == on[2], "debug changed the complex: %s, %s", off[2], on[2])
    req(off[3]["ls"] == [], "files written without debug: %s", off[3]["ls"])
    for o, name in ((off, "without"), (on, "with")):
        prt, log = o[0]["printed"], o[4]["text"]
        n = prt.count("[DEBUG]") + log.count("[DEBUG]")
        req((n > 0) == (o is on), "%d debug messages %s debug", n, name)
        tgt, other = (log, prt) if c["out"] == "log" else (prt, log)
        req("[DEBUG]" not in other and "\tPipeline " not in other, "messages went to the wrong place: %r", other[:400])
        req(tgt.count("\tPipeline ") >= len(c["pipes"]), "not every stage logged its run: %r", tgt[:300])
    up, dm, ng, rp, fp, pp = on[5:]
    names = set()
    if c["up"]:
        names.add("Upscale_output.csv")
        req(up["text"] == "".join("".join("%.6f," % x for x in p) + "\n" for p in c["pts"]), "dump of the points: %r", up["text"][:200])
    names.add("DistMatrix_output.csv")
    D = on[1]["dist"]
    req(dm["text"] == "".join("".join("%g," % x for x in r) + "\n" for r in D), "dump of the distances: %r, matrix %s", dm["text"][:200], str(D)[:200])
    ref = ph.rips(c["pts"], c["eps"], c["dim"])
    lst = c["type"] == "simplexArrayList"
    if "neighGraph" in c["pipes"]:
        names.add("neighGraph_output.csv")
        want = lines_of([x for d in ref for x in ref[d]] if not lst else ref.get(1, []))
        got = sorted(x for x in ng["text"].split("\n") if x)
        req(got == want, "dump of the graph: %s, expected %s", got[:20], want[:20])
    if "rips" in c["pipes"] and lst:
        names.add("ripsPipe_output.csv")
        want = lines_of([x for d in ref for x in ref[d]])
        got = sorted(x for x in rp["text"].split("\n") if x)
        req(got == want, "dump of the complex: %s, expected %s", got[:20], want[:20])
    for p, x, nm in (("fastPersistence", fp, "FastPersistence"), ("persistence", pp, "PersistencePairs")):
        if p in c["pipes"]:
            names |= {nm + "_bettis_output%s.csv" % c["fn"], "tArray.csv"}
            req(x["text"] == on[1]["betti"], "dump of the barcode: %r, barcode %r", x["text"][:200], on[1]["betti"][:200])
    req(set(on[3]["ls"]) == names, "files written with debug: %s, expected %s", on[3]["ls"], sorted(names))
    return len(c["pts"]) >= 3 and len(c["pipes"]) >= 3, [c["type"], c["out"], "n%d" % len(c["pipes"])]


@st.composite
def gq(draw, tier):
    return {"type": draw(st.sampled_from(lhf.TYPES)), "debug": draw(st.sampled_from(["0", "1", "false", "true"])),
            "out": draw(st.sampled_from(["log", "console"]))}


def run_q(c, drv):
    cf = lhf.conf(c["type"], 1.0, 2, debug=c["debug"], outputFile=c["out"])
    s = Script()
    s("capon")("new", enc_s(c["type"]), enc_conf(cf))("reduce")("expand", "2")("edges", "1.0")
    if c["type"] != "simplexArrayList":
        s("insert", "1 0.5")           # no distance matrix yet
    s("capoff")("cat", enc_s("log"))
    r = drv.script(s)
    prt, log = r[-2]["printed"], r[-1]["text"]
    n = prt.count("[DEBUG]") + log.count("[DEBUG]")
    if c["debug"] in ("0", "false"):
        req(n == 0, "debug messages of the complex without debug: %r %r", prt, log)
    else:
        req("[DEBUG]" not in (prt if c["out"] == "log" else log), "debug messages went to the wrong place")
    return c["debug"] in ("0", "false"), [c["type"], c["debug"]]


def gen_large(tier):
    return ph.scattered(sizes=(30, 130), types=["simplexTree", "simplexArrayList"])


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    if c["type"] == "simplexArrayList":
        pts = pts[:60]
    return run({"type": c["type"], "pipes": ["distMatrix", "neighGraph", "rips", "fastPersistence"], "pts": pts, "eps": eps, "dim": 2, "fn": "", "up": bool(c["seed"] % 2), "out": "log"}, drv)


@st.composite
def gen_table(draw, tier):
    t = draw(st.sampled_from(["simplexTree", "simplexArrayList"]))
    D = draw(st.sampled_from([1, 2, 2, 3, 4]))
    pts = draw(ph.cloud(nmax={1: 12, 2: 9, 3: 8, 4: 7}[D]))
    return {"type": t, "pts": pts, "eps": draw(ph.eps_for(pts)), "dim": D}


def run_table(c, drv):
    """The table of the persistence pairs: every simplex once, in filtration order, with what the reduction in that order says of it."""
    cf = lhf.conf(c["type"], c["eps"], c["dim"], debug="1", outputFile="log")
    s = Script()
    s("new", enc_s(c["type"]), enc_conf(cf))("data", enc_pts(c["pts"]))
    for p in ("distMatrix", "neighGraph", "rips", "persistence"):
        s("run", enc_s(p), enc_conf(cf))
    s("cat", enc_s("output/tArray.csv"))
    text = drv.script(s)[-1]["text"]
    head, _, body = text.partition("\n")
    req(head == "ti,Dim,Marked,Birth,Death,Simplex", "the table starts with %r", head)
    rows = []
    for l in body.split("\n")[:-1]:
        f = l.split(",")
        rows.append((int(f[1]), int(f[2]), float(f[3]), float(f[4]), tuple(int(x) for x in f[5].split())))
    ref = ph.rips(c["pts"], c["eps"], c["dim"])
    want = {x: w for d in ref for x, w in ref[d]}
    req(sorted(r[4] for r in rows) == sorted(want), "simplices of the table: %s, expected %s", sorted(r[4] for r in rows)[:30], sorted(want)[:30])
    req(all(r[0] == len(r[4]) - 1 for r in rows), "dimensions in the table: %s", [r for r in rows if r[0] != len(r[4]) - 1][:5])
    req(all((a[0], want[a[4]]) <= (b[0], want[b[4]] + 1e-9) for a, b in zip(rows, rows[1:])), "table out of order: %s", [r[4] for r in rows][:40])
    # the reduction in the order of the table
    at, low, pos, death = {r[4]: k for k, r in enumerate(rows)}, {}, [True] * len(rows), {}
    for k, r in enumerate(rows):
        col = 0
        if r[0]:
            for v in r[4]:
                col ^= 1 << at[tuple(x for x in r[4] if x != v)]
        while col:
            l = col.bit_length() - 1
            if l not in low:
                low[l], pos[k], death[l] = col, False, want[r[4]]
                break
            col ^= low[l]
    near = lambda a, b: abs(a - b) <= 1e-5 * max(1e-3, abs(b))
    for k, r in enumerate(rows):
        req(bool(r[1]) == pos[k], "row %d %s: marked %d, but the simplex is %s", k, r[4], r[1], "positive" if pos[k] else "negative")
        if pos[k]:
            req(near(r[2], want[r[4]]), "row %d %s: birth %g, weight %g", k, r[4], r[2], want[r[4]])
            req(near(r[3], death.get(k, -1.0)), "row %d %s: death %g, expected %g", k, r[4], r[3], death.get(k, -1.0))
    return any(pos[k] and rows[k][0] for k in range(len(rows))) and len(c["pts"]) >= 4, [c["type"], "D%d" % c["dim"]]


CHECK = Check("C29", [Facet("stages", lambda t: gen(t), run, 3000, 25000), Facet("complexes", lambda t: gq(t), run_q, 150, 400), Facet("table", lambda t: gen_table(t), run_table, 1200, 12000), Facet("large", gen_large, run_large, 80, 1000)], {"core": {}},
              rule="A case runs the same job with debugging off and on and compares the packets; with debugging off no file and no debug message may "
                   "appear, with debugging on each stage's dump must hold exactly its data. Non-trivial: three points and three stages.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
