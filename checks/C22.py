import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, ph, lhf
from pbt import Check, Facet, Script, enc_conf, enc_pts, enc_s, enc_vu, req

PIPES = {"distMatrix": ("DistMatrix", {"epsilon"}), "neighGraph": ("neighGraph", {"epsilon", "dimensions"}), "rips": ("ripsPipe", set()),
         "upscale": ("Upscale", set()), "boundary": ("Boundary", {"epsilon", "dimensions"}),
         "persistence": ("PersistencePairs", {"epsilon", "dimensions", "twist"}),
         "fastPersistence": ("FastPersistence", {"epsilon", "dimensions", "twist"}), "fast": ("FastPersistence", {"epsilon", "dimensions", "twist"}),
         "slidingwindow": ("SlidingWindow", {"epsilon", "dimensions"}), "sliding": ("SlidingWindow", {"epsilon", "dimensions"}),
         "naivewindow": ("NaiveWindow", {"epsilon", "dimensions"}), "naive": ("NaiveWindow", {"epsilon", "dimensions"})}
KM, SK, DS = {"clusters", "iterations"}, {"clusters", "iterations"}, {"epsilon", "lambda"}
PRES = {"none": ("preprocessor", set()), "kmeans++": ("k-means++", KM), "kmeansplusplus": ("k-means++", KM), "kmeans": ("k-means++", KM),
        "streamingKmeans": ("streamingKmeans", SK), "streamingkmeans": ("streamingKmeans", SK), "streamKM": ("streamingKmeans", SK),
        "denStream": ("DenStream", DS), "denstream": ("DenStream", DS), "DenStream": ("DenStream", DS)}
JUNK = ["", "DistMatrix", "distmatrix", "distMatrix ", "Fast", "persistencePairs", "ripsPipe", "windows", "kmean", "none "]


@st.composite
def gen(draw, tier):
    pre = draw(st.booleans())
    names = PRES if pre else PIPES
    name = draw(st.sampled_from(JUNK)) if draw(st.integers(0, 5)) == 0 else draw(st.sampled_from(sorted(names)))
    ctype = draw(st.sampled_from(lhf.TYPES + ["", "tree"]))
    keys = {}
    full = {"debug": st.sampled_from(["0", "false"]), "outputFile": st.just("log"), "epsilon": st.sampled_from(["5", "0.5", "1e3"]), "dimensions": st.sampled_from(["0", "1", "3"]),
            "twist": st.sampled_from(["true", "false"]), "clusters": st.just("3"), "iterations": st.just("7"), "lambda": st.just(".25"),
            "inputFile": st.just("none.csv"), "collapse": st.just("false"), "complexType": st.sampled_from(lhf.TYPES)}
    need = names.get(name, ("", set()))[1]
    mode = draw(st.integers(0, 3))      # everything; the required keys, perhaps all but one; any subset
    drop = draw(st.sampled_from(sorted(need))) if need and mode == 1 else None
    for k in full:
        if k == drop or mode == 3 and draw(st.booleans()) or mode == 2 and k not in need and draw(st.booleans()):
            continue
        keys[k] = draw(full[k])
    again = []                          # the same object is configured again, more or less completely
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        lack = draw(st.sampled_from(sorted(need) + [""]))
        again.append({k: draw(full[k]) for k in full if k != lack})
    return {"pre": pre, "name": name, "ctype": ctype, "again": again, "conf": keys, "pts": draw(ph.cloud(nmax=6)), "have": draw(st.sampled_from(lhf.TYPES)),
            "lab": draw(st.lists(st.integers(0, 5), max_size=4))}


def run(c, drv):
    names = PRES if c["pre"] else PIPES
    name, pts, h = c["name"], c["pts"], c["have"]
    known = name in names and (name != "persistence" or c["ctype"] in lhf.TYPES)
    base = lhf.conf(h, 3.0, 2, outputFile="log")
    s = Script()
    s("new", enc_s(h), enc_conf(base))("data", enc_pts(pts))("labels", enc_vu(c["lab"]))
    for p in ("distMatrix", "neighGraph"):
        s("run", enc_s(p), enc_conf(base))
    s("pmk", enc_s(name)) if c["pre"] else s("mk", enc_s(name), enc_s(c["ctype"]))
    want_cfg = None
    if known:
        s("pcfg" if c["pre"] else "cfg", "0", enc_conf(c["conf"]))
        want_cfg = names[name][1] <= set(c["conf"])
        if not c["pre"]:
            s("kind", "0")
        after = want_cfg
        for k in c["again"]:
            s("pcfg" if c["pre"] else "cfg", "0", enc_conf(k))
            after = after or names[name][1] <= set(k)
        if not after or name == "none":
            s("snap")("counts")("pgo" if c["pre"] else "go", "0")("snap")("counts")
    r = drv.script(s)[2:]
    made = r.pop(0)
    req(made["made"] == known, "asking for the stage %r (%s) %s one", name, c["ctype"], "made" if made["made"] else "did not make")
    if known:
        cfg = r.pop(0)
        req(cfg["cfg"] == want_cfg, "configuring %r with only %s %s", name, sorted(c["conf"]), "succeeded" if cfg["cfg"] else "failed")
        kind = made["proc"] if c["pre"] else r.pop(0)["kind"]
        req(kind == names[name][0], "%r made a %s", name, kind)
        for i, k in enumerate(c["again"]):
            ok, cfg = names[name][1] <= set(k), r.pop(0)
            req(cfg["cfg"] == ok, "configuring %r again (after %d times) with only %s %s", name, i + 1, sorted(k), "succeeded" if cfg["cfg"] else "failed")
    if r:
        req(r[0] == r[2] and r[1] == r[3], "an unconfigured %s changed the packet: %s to %s", name, r[0], r[2])
    return bool(known and names[name][1]), [("pre:" if c["pre"] else "") + name, "ok" if want_cfg else "refused" if known else "unknown"]


@st.composite
def gcx(draw, tier):
    return {"type": draw(st.sampled_from(lhf.TYPES + ["", "SimplexTree", "simplextree", "simplexBase", "simplexTree "])),
            "eps": draw(st.sampled_from([0.5, 1.5, 3.0])), "dim": draw(st.integers(1, 3)), "map": draw(st.booleans()), "pts": draw(ph.cloud(nmin=2, nmax=6))}


def run_cx(c, drv):
    s = Script()
    t = c["type"]
    if c["map"]:
        s("new", enc_s(t), enc_conf(lhf.conf(t, c["eps"], c["dim"], outputFile="log")))
    else:
        s("newe", enc_s(t), pbt.enc_d(c["eps"]), str(c["dim"]))
    s("null")("ctype")
    r = drv.script(s)
    req(r[0]["null"] == (t not in lhf.TYPES), "asking for the complex %r %s one", t, "did not make" if r[0]["null"] else "made")
    req(r[1]["ctype"] == (t if t in lhf.TYPES else "(none)"), "asked for the complex %r, got %s", t, r[1]["ctype"])
    return t in lhf.TYPES, [t]


CHECK = Check("C22", [Facet("stages", lambda t: gen(t), run, 5000, 60000), Facet("complexes", lambda t: gcx(t), run_cx, 500, 4000)], {"core": {}},
              rule="A case asks the factory for a stage, preprocessor or complex by name (known names, aliases and near misses), configures it, perhaps several times, with "
                   "subsets of the settings, and runs it if that must have failed, comparing the packet before and after. Non-trivial: a known stage with required settings.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
