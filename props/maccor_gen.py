"""Maccor protocol pieces, drawn through H (symbolic or concrete)."""
from collections import OrderedDict
from fractions import Fraction as F

MU = "\N{Micro Sign}"
SI = {"V": F(1), "mV": F(1, 1000), "A": F(1), "mA": F(1, 10 ** 3), MU + "A": F(1, 10 ** 6), "nA": F(1, 10 ** 9), "pA": F(1, 10 ** 12),
      "h": F(3600), "mn": F(60), "s": F(1), "ms": F(1, 1000)}
KINDS = [("StepTime", "="), ("Voltage", ">="), ("Voltage", "<="), ("Current", ">="), ("Current", "<=")]


def end_entry(kind, oper, value, goto):
    return OrderedDict([("EndType", kind), ("SpecialType", None), ("Oper", oper), ("Step", goto), ("Value", value)])


def report_entry(kind, value):
    return OrderedDict([("ReportType", kind), ("Value", value)])


def step(stype, mode=None, value=None, limits=None, ends=None, reports=None):
    """ends/reports: list of entries; single entries are written as xmltodict gives them (not in a list)"""
    def one(xs):
        return None if not xs else (xs[0] if len(xs) == 1 else xs)
    s = OrderedDict([("StepType", stype), ("StepMode", mode), ("StepValue", value), ("Limits", limits)])
    s["Ends"] = None if not ends else OrderedDict([("EndEntry", one(ends))])
    s["Reports"] = None if not reports else OrderedDict([("ReportEntry", one(reports))])
    s.update([("Range", "A"), ("Option1", "N"), ("Option2", "N"), ("Option3", "N"), ("StepNote", None)])
    return s


def value_text(H, name, kind):
    if kind == "StepTime":
        if H.sym:
            return H.numtext(name + "h", 0, 100) + ":" + H.numtext(name + "m", 0, 59) + ":" + H.numtext(name + "s", 0, 59)
        h, m, s = H.int(name + "h", 0, 20), H.int(name + "m", 0, 59), H.int(name + "s", 0, 5999)
        t = "%02d:%02d:%02d" % (h, m, s // 100)
        return t + (".%02d" % (s % 100) if s % 3 == 0 and s % 100 else "")
    return H.numtext(name, 0.00001, 100, pool=[4.2, 2.7, 3.3, 0.05, 1.1, 0.0001, 0.48])


def seconds(H, t):
    r = F(0)
    for p, m in zip(t.split(":"), (3600, 60, 1)):
        r += (H.num(p) if p else 0) * m
    return r
