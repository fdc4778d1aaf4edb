"""One module per property: harness/<id>.py defines TITLE, HARNESSES, ASSUMPTIONS."""
import importlib

COMMON = [
    "code under test runs without numba, polars and pandas (as installed); those alternative branches are outside the claim",
    "library behaviour (pyarrow, numpy, struct, pyexpat, zipfile, threading/queue) follows the models in sx/, which are validated by executing sampled path witnesses on the real libraries",
]


class Prop:
    pass


def get(pid):
    m = importlib.import_module("harness." + pid.lower())
    p = Prop()
    p.title = m.TITLE
    p.harnesses = m.HARNESSES
    p.assumptions = COMMON + list(getattr(m, "ASSUMPTIONS", []))
    return p
