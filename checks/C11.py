import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf, cli
from pbt import Check, Facet, req


@st.composite
def one_run(draw, tier, names):
    D = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    t = draw(st.sampled_from(lhf.TYPES))
    nmax = {1: 16, 2: 10, 3: 7, 4: 7}[D]
    pts = draw(ph.cloud(nmax=nmax)) if draw(st.integers(0, 12)) else []
    opts = {"inputFile": draw(st.sampled_from(names)), "epsilon": repr(float(draw(ph.eps_for(pts)))) if pts else "1"}
    mode = draw(st.sampled_from([None, None, "standard", "fast"]))
    if mode:
        opts["mode"] = mode
    if D > 1 or draw(st.booleans()):
        opts["dimensions"] = str(D)
    if t != "simplexTree" or draw(st.booleans()):
        opts["complexType"] = t
    pipes = list(cli.FAST)
    if draw(st.integers(0, 3)) == 0:
        if t != "indSimplexTree" and draw(st.booleans()):
            pipes[3] = "persistence"
        elif draw(st.booleans()):
            pipes[3] = "fast"
        for _ in range(draw(st.sampled_from([0, 1, 2, 0, 1, 2, 5, 8, 13]))):
            pipes.insert(draw(st.integers(0, 4)), draw(st.sampled_from(["bogus", "distMatrix", ""])))
        if draw(st.integers(0, 3)) == 0:
            pipes = pipes[:draw(st.integers(1, 3))]
            if not any(pipes):
                pipes = ["distMatrix"]
        opts["pipeline"] = ".".join(pipes)
    elif mode == "fast":
        t = "simplexTree"
    o = draw(st.sampled_from(["out", "out", "res.d", "console", "console", "output/x", "myconsole", "console2", "Console", "my results", "r" * 150]))
    if o != "console" or draw(st.booleans()):
        opts["outputFile"] = o
    else:
        o = "output.csv"
    if draw(st.integers(0, 4)) == 0:
        opts["debug"] = "1"
    if not opts["pipeline"] if "pipeline" in opts else False:
        del opts["pipeline"]
    style = [draw(st.sampled_from([",", ", ", ",", " ,"])), draw(st.sampled_from(["\n", "\n", "\r\n"])), draw(st.booleans())]
    return {"pts": pts, "opts": opts, "argv": draw(cli.argv(opts)), "pipes": pipes, "out": o, "dim": D, "type": t, "style": style}


@st.composite
def gen(draw, tier):
    runs = [draw(one_run(tier, ["a.csv"]))]
    if draw(st.integers(0, 2)) == 0:
        r = draw(one_run(tier, ["b.csv"]))
        runs.append(r)
    return {"runs": runs, "stale": draw(st.booleans())}


def run(c, drv):
    files = {}
    for r in c["runs"]:
        files[r["opts"]["inputFile"]] = cli.csv_text(r["pts"], *r["style"]) if r["pts"] else ""
    old = {o + e: "dimension,birth,death\n7,8,9\n" * 300 for o in ("out", "res.d", "output", "myconsole") for e in (".csv", "_stats.csv")} if c["stale"] else {}
    res = cli.call(drv, dict(files, **old), [r["argv"] for r in c["runs"]])
    nt, tags, before = 0, [], dict(files, **old)
    for r, x in zip(c["runs"], res):
        eps, D, o = float(r["opts"]["epsilon"]), r["dim"], r["out"]
        req(x["rc"] == 0, "the program returned %r", x["rc"])
        for f, t in files.items():
            req(x["files"].get(f) == t, "the input file %s changed", f)
        for k, v in r["opts"].items():
            req(("\n" + k + "\t") in "\n" + x["out"], "option %s is not shown", k)
        if not r["pts"]:
            req("Usage" in x["out"], "no usage shown for an input without data")
            req({k: v for k, v in x["files"].items() if k != o} == {k: v for k, v in before.items() if k != o}, "an input without data left files: %s", sorted(x["files"]))
            before = x["files"]
            continue
        if o == "console":
            for k in x["files"]:
                req(k in before or k.startswith("output/"), "a run to the console left the file %s", k)
            before = x["files"]
            continue
        before = x["files"]
        for s in (".csv", "_stats.csv"):
            req(o + s in x["files"], "no file %s%s: %s", o, s, sorted(x["files"]))
        known = [p for p in r["pipes"] if p in cli.KIND]
        st_ = cli.stats_of(x["files"][o + "_stats.csv"])
        req([f[0] for f in st_] == [cli.KIND[p] for p in known], "the statistics list the stages %s, run were %s", [f[0] for f in st_], known)
        req((len(known) < len(r["pipes"])) == ("Failed to configure" in x["out"]), "stages %s: the console says %r", r["pipes"], x["out"][-300:])
        bars = cli.bars_of(x["files"][o + ".csv"])
        ref = ph.norm(ph.barcode(r["pts"], eps, D - 1), eps)
        if known == cli.FAST or len(known) == 4 and known[-1] != "fastPersistence":
            m = ph.match(ph.norm(bars, eps), ref)
            req(m is None, "the written barcode is wrong: %s", m)
            nt += len(r["pts"]) >= 3 and len(ref) >= 2
            tags.append(known[-1])
        elif not set(known) & {"fastPersistence", "fast", "persistence"}:
            req(not bars, "stages %s compute no barcode, the file holds %s", known, bars)
            tags.append("no-barcode")
    return nt > 0, tags + ["runs%d" % len(c["runs"])]


def gen_large(tier):
    @st.composite
    def case(draw):
        t = draw(st.sampled_from(["simplexTree", "simplexTree", "indSimplexTree", "simplexArrayList"]))
        c = draw(ph.scattered(sizes=(40, 70) if t == "simplexArrayList" else (60, 300)))
        c.update(type=t, dim=draw(st.sampled_from([1, 2, 2])), last=draw(st.sampled_from(["", "persistence"])) if t != "indSimplexTree" else "", sep=draw(st.sampled_from([",", ", "])), eol=draw(st.sampled_from(["\n", "\r\n"])))
        return c
    return case()


def run_large(c, drv):
    pts, eps = ph.scatter(c)
    o = {"inputFile": "a.csv", "outputFile": "out", "epsilon": repr(eps), "dimensions": str(c["dim"]), "complexType": c["type"]}
    pipes = list(cli.FAST)
    if c["last"]:
        pipes[3] = c["last"]
        o["pipeline"] = ".".join(pipes)
    argv = [x for k, v in o.items() for x in ("--" + k, v)]
    return run({"runs": [{"pts": pts, "opts": o, "argv": argv, "pipes": pipes, "out": "out", "dim": c["dim"], "type": c["type"], "style": [c["sep"], c["eol"], True]}], "stale": False}, drv)


CHECK = Check("C11", [Facet("runs", lambda t: gen(t), run, 2500, 30000), Facet("large", gen_large, run_large, 80, 1500)], {"cli": {"main": "LHFmain/main.cpp"}},
              rule="A case is one or two runs of the whole program on generated CSV files, with the options in any order and spelling, sometimes over the files of earlier runs; the written barcode "
                   "is compared with an independent computation, the statistics with the stages asked for. Non-trivial: at least three points and two bars.",
              assumptions=["thresholds away from any pairwise distance"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
