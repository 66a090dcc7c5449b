import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, textio
from pbt import Check, Facet, enc_s, req


def run_csv(c, drv, name="util"):
    r = drv[name].call("readcsv %s %s 1" % (enc_s("in.csv"), enc_s(c["text"])))
    req(r["batch"] == c["rows"], "the file holds %s, read as %s (text %r)", c["rows"][:9], r["batch"][:9], c["text"][:200])
    return len(c["rows"]) >= 2, c["tags"]


@st.composite
def mat(draw, tier):
    n, d = draw(st.integers(0, 8)), draw(st.integers(1, 5))
    eol = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    nums = draw(st.lists(textio.number(), min_size=n * d, max_size=n * d))
    pad = st.sampled_from(["", "", " ", "  "])
    ls = [draw(pad) + str(n) + draw(pad), draw(pad) + str(d) + draw(pad)] + [draw(pad) + t + draw(pad) for t, _ in nums]
    if draw(st.booleans()):
        for _ in range(draw(st.integers(1, 4))):
            ls.insert(draw(st.integers(0, len(ls))), draw(st.sampled_from(["", "", " ", "  ", "\t"])))
    return {"text": eol.join(ls) + (eol if draw(st.booleans()) else ""), "rows": [[v for _, v in nums[k * d:k * d + d]] for k in range(n)]}


def run_mat(c, drv, name="util"):
    r = drv[name].call("readmat %s %s 1" % (enc_s("in.mat"), enc_s(c["text"])))
    req(r["rows"] == c["rows"], "the file holds %s, read as %s", c["rows"], r["rows"])
    return len(c["rows"]) >= 2, []


def run_missing(c, drv):
    r = drv["util"].call("readcsv %s %s 0" % (enc_s(c["name"]), enc_s("")))
    req(r["batch"] == [] and r["stream"] == [] and not r["init"], "a missing file was read: %s", r)
    r = drv["util"].call("readmat %s %s 0" % (enc_s(c["name"]), enc_s("")))
    req(r["rows"] == [], "a missing file was read: %s", r)
    r = drv["util"].call("readcsv %s %s 1" % (enc_s("e.csv"), enc_s("")))
    req(r["batch"] == [] and r["stream"] == [], "an empty file was read as %s", r)
    r = drv["util"].call("readmat %s %s 1" % (enc_s("e.mat"), enc_s("")))
    req(r["rows"] == [], "an empty file was read as %s", r)
    return True, []


def gen_large(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(20, 1500), st.sampled_from([63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024])), "cols": st.one_of(st.integers(1, 12), st.sampled_from([16, 32, 100, 250])), "seed": st.integers(0, 10 ** 6), "eol": st.sampled_from(["\n", "\r\n"]), "last": st.booleans(), "pad": st.booleans()})


def big_csv(c):
    r = random.Random(c["seed"])
    n = min(c["n"], 30000 // c["cols"])
    ls, rows = [], []
    for _ in range(n):
        if r.random() < 0.02:
            ls.append(" " * r.randint(0, 2) * c["pad"])
        w = r.choice([c["cols"], c["cols"], r.randint(1, c["cols"])])
        t = [r.choice(["%d", "%.6f", "%.17g", "%e"]) % r.choice([r.randint(-9, 9), r.uniform(-1e6, 1e6)]) for _ in range(w)]
        rows.append([float(x) for x in t])
        ls.append((", " if c["pad"] else ",").join(t) + r.choice(["", "", ","]))
    return {"text": c["eol"].join(ls) + (c["eol"] if c["last"] else ""), "rows": rows, "tags": []}


def run_large(c, drv):
    f = big_csv(c)
    run_csv(f, drv)
    w = c["cols"]
    flat = [x for r in f["rows"] for x in r]
    rows = [flat[k:k + w] for k in range(0, len(flat) - w + 1, w)]
    return run_mat({"text": c["eol"].join(["%d" % len(rows), "%d" % w] + [repr(x) for r in rows for x in r]) + (c["eol"] if c["last"] else ""), "rows": rows}, drv)


def gen_long(tier):
    return st.fixed_dictionaries({"n": st.sampled_from([32767, 32768, 40000, 65535, 65536, 70000]), "mat": st.booleans(), "seed": st.integers(0, 10 ** 6)})


def run_long(c, drv):
    """More rows than a short integer counts."""
    r = random.Random(c["seed"])
    rows = [[float(r.randint(0, 9))] for _ in range(c["n"])]
    text = "".join("%d\n" % x for x, in rows)
    if c["mat"]:
        return run_mat({"text": "%d\n1\n" % c["n"] + text, "rows": rows}, drv, "fast")
    return run_csv({"text": text, "rows": rows, "tags": []}, drv, "fast")


CHECK = Check("C08", [Facet("csv", lambda t: textio.csv(long=True), run_csv, 5000, 60000), Facet("mat", lambda t: mat(t), run_mat, 2000, 30000),
                      Facet("missing", lambda t: st.fixed_dictionaries({"name": st.sampled_from(["nope.csv", "no/such/dir.csv", "x"])}), run_missing, 8, 20), Facet("large", gen_large, run_large, 150, 1500),
                      Facet("long", gen_long, run_long, 16, 100)],
              {"util": {"dirs": ["Utils"]}, "fast": {"src": "util", "dirs": ["Utils"], "san": False}},
              rule="A case is a CSV or MAT text built from known numbers in varied notation, with optional padding, blank lines, CRLF line ends, a comma "
                   "at the end of a line, one-character lines and no final newline; the rows read must equal those numbers exactly. Non-trivial: two rows or more.",
              assumptions=["well-formed numbers only: malformed text is not claimed"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
