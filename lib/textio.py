"""Generated text files: rows of numbers written the many ways a CSV file may hold them."""
from hypothesis import strategies as st


@st.composite
def number(draw):
    """(text, value)"""
    k = draw(st.integers(0, 7))
    if k == 0:
        t = str(draw(st.integers(-9, 9)))
    elif k == 1:
        t = str(draw(st.integers(-10**6, 10**6)))
    elif k == 2:
        t = repr(draw(st.integers(-10**9, 10**9)) / 1000)
    elif k == 3:
        t = "%d%s%d" % (draw(st.integers(-99, 99)), draw(st.sampled_from(["e", "E", "e+", "E-", "e-0"])), draw(st.integers(0, 9)))
    elif k == 4:
        t = repr(draw(st.floats(min_value=-1e30, max_value=1e30, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-200)))
    elif k == 5:
        t = draw(st.sampled_from([".5", "5.", "+3", "-0", "00012", "1e300", "-.25", "0.1", "1e-305", "-2.5E-300"]))
    elif k == 7:        # many digits, before or after the point, some of them only zeros
        n = draw(st.sampled_from([18, 23, 24, 25, 31, 32, 33, 64, 120, 300]))
        d = str(draw(st.integers(0, 10 ** 18 - 1))) + "0" * 300
        t = draw(st.sampled_from(["", "-"])) + (draw(st.sampled_from(["0.", "7.", "123456."])) + d[:n] if draw(st.booleans()) else "0" * (n - 3) + d[:3])
    else:
        t = "%.6f" % (draw(st.integers(-10**7, 10**7)) / 997)
    return t, float(t)


@st.composite
def lines(draw, ws, maxrows=8, maxcols=6, long=False):
    """Logical lines: [(text without line end, row or None)]"""
    out = []
    n = draw(st.integers(0, maxrows))
    # a huge row that does not fit any small buffer
    big = draw(st.integers(0, n - 1)) if long and n and draw(st.booleans()) else None
    for r in range(n):
        if draw(st.integers(0, 5)) == 0:
            b = (draw(st.sampled_from(["", "", " ", "   ", "\t", " \t "])) if ws else "", None)
            out += [b] * draw(st.sampled_from([1, 1, 1, 2, 3, 9, 17, 40, 130]))
            continue
        if r == big:
            cols = draw(st.integers(60, 400))
            base = draw(st.lists(number(), min_size=3, max_size=3))
            nums = [base[k % 3] for k in range(cols)]
        else:
            nums = draw(st.lists(number(), min_size=1, max_size=maxcols))
        pad = st.sampled_from(["", "", "", " ", "  ", "\t"] if ws else [""])
        if r == big:
            p = draw(pad)
            t = (p + ",").join(x for x, _ in nums)
        else:
            t = ",".join(draw(pad) + x + draw(pad) for x, _ in nums)
        if draw(st.integers(0, 3)) == 0:
            t += "," + (draw(pad) if ws else "")
        out.append((t, [v for _, v in nums]))
    return out


@st.composite
def csv(draw, **kw):
    ws = draw(st.booleans())
    ls = draw(lines(ws, **kw))
    eol = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    text = eol.join(t for t, _ in ls)
    if ls and draw(st.booleans()):
        text += eol
    return {"text": text, "rows": [r for _, r in ls if r is not None],
            "tags": (["crlf"] if eol != "\n" else []) + (["blank"] if any(r is None for _, r in ls) else []) + (["ws"] if ws else [])
            + (["long"] if any(len(t) > 990 for t, _ in ls) else []) + (["one-char"] if any(len(t) == 1 and r for t, r in ls) else [])}
