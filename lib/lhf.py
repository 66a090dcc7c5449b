"""How LHF is driven: configuration maps and pipelines."""
from pbt import Script, enc_conf, enc_pts, enc_s

TYPES = ["simplexTree", "simplexArrayList", "indSimplexTree"]
DEFAULTS = {"mpi": "0", "mode": "standard", "iterations": "250", "pipeline": "", "inputFile": "None",
            "outputFile": "out", "lambda": ".25", "debug": "0", "clusters": "20", "preprocessor": "",
            "upscale": "false", "twist": "false", "collapse": "false"}
PIPE = ["distMatrix", "neighGraph", "rips", "fastPersistence"]


def conf(ctype, eps, dim, **kw):
    c = dict(DEFAULTS)
    c.update({"complexType": ctype, "epsilon": repr(float(eps)), "dimensions": str(int(dim))})
    c.update({k: str(v) for k, v in kw.items()})
    return c


def pipeline_script(ctype, pts, eps, dim, pipes=PIPE, snap=True, **kw):
    c = conf(ctype, eps, dim, **kw)
    s = Script()
    s("new", enc_s(ctype), enc_conf(c))
    s("data", enc_pts(pts))
    for p in pipes:
        s("run", enc_s(p), enc_conf(c))
    if snap:
        s("snap")
    return s


def run_pipeline(drv, ctype, pts, eps, dim, name="core", **kw):
    return drv.script(pipeline_script(ctype, pts, eps, dim, **kw), name)[-1]
