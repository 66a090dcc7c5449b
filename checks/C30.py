import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt
from pbt import Check, Facet, enc_s, req

TEXT = st.text(alphabet="abcXYZ 09,:;[]\t-_%/\0\r\x07", max_size=20)


@st.composite
def gen(draw, tier):
    files = ["console", "console", "log.txt", "b.log", "output/c.txt", "Console"]
    us = draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 0, 1]), st.sampled_from(["0", "1", "false", "true", "2", ""]), st.sampled_from(files)), min_size=1, max_size=4))
    ms = draw(st.lists(st.tuples(st.integers(0, len(us) - 1), st.integers(0, 2), TEXT, TEXT), max_size=12))
    old = {f: draw(st.one_of(st.just("[x]:\tearlier\n"), TEXT)) for f in files[2:] if draw(st.integers(0, 2)) == 0}
    return {"loggers": [list(u) for u in us], "msgs": [list(m) for m in ms], "old": old}


def run(c, drv):
    us, ms = c["loggers"], c["msgs"]
    r = drv["util"].call("logs %d %s %d %s %d %s" % (len(us), " ".join("%d %s %s" % (a, enc_s(d), enc_s(f)) for a, d, f in us),
                                               len(c["old"]), " ".join(enc_s(f) + " " + enc_s(t) for f, t in c["old"].items()), len(ms),
                                               " ".join("%d %d %s %s" % (w, k, enc_s(mo), enc_s(me)) for w, k, mo, me in ms)))
    targets = {f for _, _, f in us}
    con, files = "", {f: t for f, t in c["old"].items() if f in targets}
    for w, k, mo, me in ms:
        d, dbg, f = us[w]
        if d:
            dbg, f = "0", "console"
        if k == 1 and dbg in ("0", "false"):
            continue
        line = ("[DEBUG]\t" if k == 1 else "") + "[" + mo + "]:\t" + me + "\n"
        if f == "console":
            con += line
        else:
            files[f] = files.get(f, "") + line
    req(r["console"] == con, "printed %r, expected %r", r["console"], con)
    req(r["files"] == files, "the log files hold %r, expected %r", r["files"], files)
    return len(ms) >= 2 and len(us) >= 2, ["files" if files else "console only"]


def gen_large(tier):
    return st.fixed_dictionaries({"n": st.integers(20, 400), "len": st.sampled_from([5, 80, 300, 3000]), "seed": st.integers(0, 10 ** 6)})


def run_large(c, drv):
    r = random.Random(c["seed"])
    word = lambda: "".join(r.choice("abcXYZ 09,:;[]\t-_%/") for _ in range(r.randint(0, c["len"])))
    us = [[r.choice([0, 0, 0, 1]), r.choice(["0", "1", "false", "true"]), r.choice(["console", "log.txt", "b.log"])] for _ in range(r.randint(2, 9))]
    return run({"loggers": us, "old": {"log.txt": "[x]:\tearlier\n" * r.randint(1, 2000)} if r.random() < 0.5 else {}, "msgs": [[r.randrange(len(us)), r.randrange(3), word()[:40], word()] for _ in range(c["n"])]}, drv)


CHECK = Check("C30", [Facet("routing", lambda t: gen(t), run, 10000, 100000), Facet("large", gen_large, run_large, 200, 2000)], {"util": {"dirs": ["Utils"]}},
              rule="A case is a history of log, debug and error messages through several loggers of differing debug level and target, compared line by "
                   "line with a model of console and files. Non-trivial: at least two loggers and two messages.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
