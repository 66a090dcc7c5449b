import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hypothesis import strategies as st
import pbt
from pbt import Check, Facet, enc_pts, enc_s, req

HOWS = ["csvd", "csvdh", "csvs", "csvsh", "bard", "bars", "mat", "stats"]
BAR = "dimension,birth,death\n"
STATS = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n"
TEXT = st.text(alphabet="abcxyz019,.:;-\n \t\"'#", max_size=60)


@st.composite
def value(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return float(draw(st.integers(-9, 9)))
    if k == 1:
        return draw(st.integers(-10**9, 10**9)) / 1e6
    if k == 2:
        return draw(st.integers(-10**12, 10**12)) / 997
    if k == 3:
        return draw(st.sampled_from([0.0, -0.0, 1e-7, -1e-7, 4.9e-7, 5.1e-7, 0.9999995, 1e15, -1e15, 123456789.987654321, 1e300, -1e-300]))
    return draw(st.floats(min_value=-1e9, max_value=1e9, allow_nan=False))


@st.composite
def gen(draw, tier):
    how = draw(st.sampled_from(HOWS))
    n = draw(st.integers(0, 8))
    if how == "mat" or draw(st.booleans()):
        d = draw(st.integers(1, 6))
        data = [draw(st.lists(value(), min_size=d, max_size=d)) for _ in range(n)]
    else:                   # rows of differing length
        data = [draw(st.lists(value(), min_size=0, max_size=6)) for _ in range(n)]
    return {"how": how, "name": draw(st.sampled_from(["out", "output/x", "a.csv", "b.c"])), "head": draw(TEXT), "text": draw(TEXT),
            "before": draw(st.sampled_from(["", "", "old contents\n" * 40])), "data": data}


def run(c, drv):
    how, data = c["how"], c["data"]
    r = drv["util"].call("writes %s" % " ".join([enc_s(how), enc_s(c["name"]), enc_s(c["head"]), enc_s(c["text"]), enc_s(c["before"]), enc_pts(data)]))
    req(r["ok"] and r["exists"], "the file was not written")
    text = r["text"]
    rows = "".join("".join("%.6f," % x for x in p) + "\n" for p in data)
    want = {"csvd": rows, "csvdh": c["head"] + rows, "csvs": c["text"], "csvsh": c["head"] + c["text"], "bard": BAR + rows,
            "bars": BAR + c["text"], "stats": STATS + c["text"]}.get(how)
    if how == "mat":
        want = "%d\n%d\n" % (len(data), len(data[0]) if data else 0) + "".join("%.6f\n" % x for p in data for x in p)
    req(text == want, "%s wrote %r, expected %r", how, text[:300], want[:300])
    if "back" in r:
        exp = [p for p in data if p or how == "mat"]
        req(len(r["back"]) == len(exp), "%d rows written, %d read back", len(exp), len(r["back"]))
        for a, b in zip(exp, r["back"]):
            req(len(a) == len(b), "row %s came back as %s", a, b)
            for x, y in zip(a, b):
                req(abs(x - y) <= 5.1e-7 + 1e-15 * abs(x), "value %r came back as %r", x, y)
    return len(data) >= 2, [how]


def gen_large(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(20, 1500), st.sampled_from([63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024])), "cols": st.one_of(st.integers(1, 12), st.sampled_from([16, 32, 100, 250])), "seed": st.integers(0, 10 ** 6), "how": st.sampled_from(HOWS), "before": st.sampled_from([0, 40, 20000])})


def run_large(c, drv):
    r = random.Random(c["seed"])
    n = min(c["n"], 30000 // c["cols"])
    data = [[r.choice([float(r.randint(-9, 9)), r.uniform(-1e3, 1e3), r.uniform(-1e9, 1e9)]) for _ in range(c["cols"])] for _ in range(n)]
    text = "".join(r.choice("abc019,. -\n") for _ in range(c["n"] * 10))
    return run({"how": c["how"], "name": "out", "head": "x,y\n", "text": text, "before": "old contents\n" * c["before"], "data": data}, drv)


CHECK = Check("C07", [Facet("formats", lambda t: gen(t), run, 6000, 60000), Facet("large", gen_large, run_large, 200, 2000)], {"util": {"dirs": ["Utils"]}},
              rule="A case writes generated rows or text in one of eight ways, over an existing longer file or none, and compares the file byte for byte "
                   "with the format (six decimals) and, for CSV and MAT data, what the reader makes of it. Non-trivial: two rows or more.",
              assumptions=["finite values"])
if __name__ == "__main__":
    sys.exit(pbt.main(CHECK))
