"""C05: physical quantities keep their value in the Maccor -> BioLogic conversion."""
from fractions import Fraction as F
from vc.harness import harness, Contract
from vc.values import and_, or_, not_, implies

M2B = "beep.protocol.maccor_to_biologic_mb"
KEY = M2B + ":MaccorToBiologicMb._get_decimal_sig_figs"

META = {
    "title": "Maccor quantities keep their value and unit when written for BioLogic",
    "statement": "Converting a Maccor voltage, current, power, resistance or step time to a BioLogic value and unit keeps the physical quantity: value times unit equals the Maccor quantity exactly for every number whose decimals the smallest BioLogic unit can carry (microvolt, femtoampere, nanowatt, nano-ohm, millisecond), and is otherwise the nearest representable one. The unit is one BioLogic knows and the value has exactly three decimals.",
    "over": ["inputs"],
    "qtext": "every Maccor number text (any magnitude, sign, decimals, scientific notation) and every h:m:s text with empty, integer or decimal parts",
    "why": "the tests convert four numbers per quantity; unit thresholds, numbers with more decimals than the unit, scientific notation, fractional hours/minutes and sub-second times are not sampled",
    "files": ["beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "_convert_volts/_amps/_watts/_ohms", "where": "beep/protocol/maccor_to_biologic_mb.py:107"},
                  {"name": "_convert_time", "where": "beep/protocol/maccor_to_biologic_mb.py:158"},
                  {"name": "_get_decimal_sig_figs", "where": "beep/protocol/maccor_to_biologic_mb.py:98"}],
    "observe": ["MaccorToBiologicMb._convert_*", "values and units in the .mps file"],
    "level": "proof",
    "level_note": "the five conversions proved for every real value (number text abstracted to its value) against the contract of _get_decimal_sig_figs (v * 10^r is an integer); that contract itself (a regular expression over the text) is a bounded stand-in",
    "assumptions": ["float(text) is the number the text denotes; '{:.3f}' rounds to the nearest thousandth"],
    "bounded": ["_get_decimal_sig_figs: contract evaluated on generated number texts up to 15 decimals, exponents -6..6"],
}

MU = "\N{Micro Sign}"
UNITS = {
    "_convert_volts": ({"V": F(1), "mV": F(1, 1000)}, 6),
    "_convert_amps": ({"A": F(1), "mA": F(1, 10 ** 3), MU + "A": F(1, 10 ** 6), "nA": F(1, 10 ** 9), "pA": F(1, 10 ** 12)}, 15),
    "_convert_watts": ({"W": F(1), "mW": F(1, 10 ** 3), MU + "W": F(1, 10 ** 6)}, 9),
    "_convert_ohms": ({"Ohms": F(1), "mOhms": F(1, 10 ** 3), MU + "Ohms": F(1, 10 ** 6), "kOhms": F(1000), "MOhms": F(10 ** 6)}, 9),
}
TIME = {"h": 3600, "mn": 60, "s": 1, "ms": F(1, 1000)}


KS = (-3, 0, 3, 6, 9, 12, 15)


def fresh(H, self, text):
    return H.fresh_int("sigfigs")


def post(H, r, self, text):
    """r decimals are enough: 10^r * v is an integer (stated for the class of r: k_prev < r <= k, or r > 15)"""
    v = H.num(text)
    if H.sym:
        i = H.choice("sigfig class", list(range(len(KS) + 1)))
        if i > 0:
            yield "class", r > KS[i - 1]
        if i < len(KS):
            yield "class", r <= KS[i]
            yield "enough decimals", H.eq(v * F(10) ** KS[i], H.fresh_int("m"))
    else:
        for k in KS:
            yield "enough decimals %d" % k, r > k or H.isint(v * F(10) ** k)


Contract(KEY, fresh, post)


@harness("C05", "decimal_sig_figs", proof=False, conc=1500, targets=[M2B])
def h_sig(H):
    f = H.get(M2B + ":MaccorToBiologicMb._get_decimal_sig_figs")
    if f is None:
        return
    t = H.numtext("v", -1000, 1000000, scinot=True)
    r = H.run(H.mod(M2B).MaccorToBiologicMb()._get_decimal_sig_figs, t)
    H.ensure("no error", r.ok, r)
    for label, c in post(H, r.value, None, t):
        H.ensure(label, c, (t, r.value))


def three_decimals(H, text):
    if H.sym:
        from vc.values import SymStr, FixText
        if isinstance(text, SymStr):
            return len(text.p) == 1 and isinstance(text.p[0], FixText) and text.p[0].prec == 3
    import re
    return isinstance(text, str) and re.fullmatch(r"-?[0-9]+\.[0-9]{3}", text) is not None


def mk(name):
    units, dec_ = UNITS[name]
    small = min(units.values()) / 1000

    @harness("C05", name[1:], conc=800, contracts=[KEY], targets=[M2B])
    def h(H):
        cls = H.mod(M2B).MaccorToBiologicMb
        if H.get(M2B + ":MaccorToBiologicMb." + name) is None:
            return
        exact = H.choice("exact", [True, False])
        t = H.numtext("v", -10000, 10000000, scinot=True, decimals=(dec_ if exact and H.sym else None), pool=[0.001, 0.1, 1, 0.000001, 4.2, 1e-9, 1000, 1000000, 999.9995, 0.9999])
        H.cover("inputs")
        r = H.run(getattr(cls(), name), t)
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        val, unit = r.value
        H.ensure("known unit", unit in units, unit)
        H.ensure("three decimals", three_decimals(H, val), (val, t))
        if unit not in units:
            return
        got, want = H.num(val) * units[unit], H.num(t)
        H.ensure("nearest representable value", H.close(got, want, small / 2), (t, r.value))
        if exact if H.sym else H.isint(want * 10 ** dec_):
            H.ensure("exact when representable", H.close(got, want, 0), (t, r.value))


for _n in UNITS:
    mk(_n)


@harness("C05", "convert_time", conc=1500, targets=[M2B])
def h_time(H):
    cls = H.mod(M2B).MaccorToBiologicMb
    if H.get(M2B + ":MaccorToBiologicMb._convert_time") is None:
        return
    parts, total = [], 0
    kinds = H.choice("shape", [("n", "n", "n"), ("n", "", ""), ("", "n", ""), ("", "", "n"), ("n", "n", ""), ("", "n", "n"), ("n", "", "n")])
    for (nm, hi, mult, pool), kind in zip((("h", 3600, 3600, [0.5, 1.25, 100, 3600]), ("m", 600, 60, [0.5, 90, 1.5]), ("s", 6000, 1, [0.01, 0.29, 0.57, 1.001, 59.99, 100])), kinds):
        if kind == "":
            parts.append("")
            continue
        t = H.numtext(nm, 0, hi, decimals=(None if H.sym else H.rng.choice([0, 0, 0, 1, 2, 2, 3, 4])), pool=pool)
        parts.append(t)
        total = total + H.num(t) * mult
    H.cover("inputs")
    r = H.run(cls()._convert_time, parts[0] + ":" + parts[1] + ":" + parts[2])
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    val, unit = r.value
    H.ensure("known unit", unit in TIME, unit)
    H.ensure("three decimals", three_decimals(H, val), val)
    if unit not in TIME:
        return
    got = H.num(val) * TIME[unit]
    H.ensure("duration kept to the millisecond", H.close(got, total, F(1, 2000)), (parts, r.value))
