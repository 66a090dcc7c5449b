import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt, textio
from C08 import big_csv, gen_large
from pbt import Check, Facet, enc_s, req


def run(c, drv):
    r = drv["util"].call("readcsv %s %s 1" % (enc_s("in.csv"), enc_s(c["text"])))
    req(r["init"], "an existing file could not be opened")
    req(r["stream"] == r["batch"], "read row by row: %d rows %s; read at once: %d rows %s (text %r)", len(r["stream"]), str(r["stream"])[:300],
        len(r["batch"]), str(r["batch"])[:300], c["text"][:200])
    req(r["stream"] == c["rows"], "read row by row %s, the file holds %s", str(r["stream"])[:300], str(c["rows"])[:300])
    req(r["after"] is False, "a row was returned after the end of the file")
    return len(c["rows"]) >= 2, c["tags"]


# exact lengths around the reader's buffer
@st.composite
def edge(draw, tier):
    L = draw(st.integers(985, 1015)) + 1000 * draw(st.integers(0, 2))
    eol = draw(st.sampled_from(["\n", "\r\n"]))
    body = "7," * (L // 2)
    body = body[:L]
    row = [7.0] * body.count("7")
    pre = [[1.0, 2.0]] if draw(st.booleans()) else []
    post = [[3.0, 4.0]] if draw(st.booleans()) else []
    text = ("1,2" + eol if pre else "") + body + (eol + "3,4" if post else "") + (eol if draw(st.booleans()) else "")
    return {"text": text, "rows": pre + [row] + post, "tags": ["len%d" % (L % 1000 // 5 * 5)]}


def run_uninit(c, drv):
    r = drv["util"].call("uninit %d" % c["fill"])
    req(r["read"] is False and r["row"] == [], "a reader that opened nothing returned a row")
    return True, []


# one reader, several files in turn, some of them left half read or missing
@st.composite
def gen_turns(draw, tier):
    out = []
    for _ in range(draw(st.integers(2, 5))):
        f = draw(textio.csv(long=True)) if draw(st.integers(0, 5)) else None
        n = len(f["rows"]) + 1 if f else 1
        out.append({"text": f["text"] if f else None, "rows": f["rows"] if f else [], "read": draw(st.sampled_from([n, n, n + 2, draw(st.integers(0, n))])), "batch": draw(st.booleans())})
    return {"files": out}


def run_turns(c, drv):
    fs = c["files"]
    got = drv["util"].call("streams %d %s" % (len(fs), " ".join("%d %s %d %d" % (f["text"] is not None, enc_s(f["text"] or ""), f["read"], f["batch"]) for f in fs)))["turns"]
    for k, (f, g) in enumerate(zip(fs, got)):
        req(g["init"] == (f["text"] is not None), "file %d: opened %r", k, g["init"])
        want = f["rows"][:f["read"]]
        req(g["rows"] == want, "file %d of one reader: read %s instead of %s", k, str(g["rows"])[:300], str(want)[:300])
        req(g["end"] == (f["read"] > len(f["rows"])), "file %d: the end was %sreported", k, "" if g["end"] else "not ")
        if f["batch"]:
            req(g["batch"] == f["rows"], "file %d read at once by the same reader: %s instead of %s", k, str(g["batch"])[:300], str(f["rows"])[:300])
    return sum(1 for f in fs if f["rows"]) >= 2, ["missing"] * any(f["text"] is None for f in fs) + ["left"] * any(f["read"] <= len(f["rows"]) for f in fs)


CHECK = Check("C09", [Facet("files", lambda t: textio.csv(long=True), run, 2800, 40000), Facet("buffer", lambda t: edge(t), run, 600, 5000),
                      Facet("turns", lambda t: gen_turns(t), run_turns, 800, 10000),
                      Facet("unopened", lambda t: st.fixed_dictionaries({"fill": st.integers(0, 255)}), run_uninit, 40, 200),
                      Facet("large", gen_large, lambda c, drv: run(big_csv(c), drv), 200, 2000)],
              {"util": {"dirs": ["Utils"]}},
              rule="A case is a CSV text as in C08, or one with a line around a multiple of the reader's buffer length, read row by row and at once; one reader used for several files in turn, read in full, in part or missing; a "
                   "reader on used memory that opened nothing. Non-trivial: two rows or more.")
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
