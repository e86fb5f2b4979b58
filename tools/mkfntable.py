"""Writes spec/FnTable.tla: values of the transcendental functions at some dyadic points, in 10^-6, from scipy/math
(run with python3-vt; the result is committed)."""
import math, os
from scipy import special
from fractions import Fraction
one = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "acos": math.acos, "asin": math.asin, "atan": math.atan,
       "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh, "exp": math.exp, "log": math.log, "log10": math.log10,
       "gamma": special.gamma, "lgamma": special.gammaln, "digamma": special.digamma}
pts = [Fraction(k, 4) for k in (-8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 20)]
def flt(q):
    e = q.denominator.bit_length() - 1
    return "F(%d, %d)" % (q.numerator, e)
rows = []
for f in sorted(one):
    for q in pts:
        if f in ("gamma", "lgamma", "digamma") and q <= 0: continue
        try: v = float(one[f](float(q)))
        except ValueError: continue
        if math.isfinite(v) and abs(v) < 2000: rows.append('<<<<"%s", <<%s>>>>, %d>>' % (f, flt(q), round(v * 1e6)))
for y in (-2, -1, 1, 3):
    for x in (-1, 1, 2):
        rows.append('<<<<"atan2", <<%s, %s>>>>, %d>>' % (flt(Fraction(y, 2)), flt(Fraction(x, 2)), round(math.atan2(y, x) * 1e6)))
for n in (0, 1, 2, 3):
    for k in (1, 2, 4, 6, 8, 12):
        x = Fraction(k, 2)
        for nm, g in (("besselj", special.jv), ("bessely", special.yv)):
            rows.append('<<<<"%s", <<[t |-> "int", n |-> %d], %s>>>>, %d>>' % (nm, n, flt(x), round(float(g(n, float(x))) * 1e6)))
for x in (-2, 0, 1, 3):
    for s in (1, 2):
        for m in (0, 1):
            v = math.exp(-((x - m) / s) ** 2 / 2)
            rows.append('<<<<"normal", <<%s, %s, %s>>>>, %d>>' % (flt(Fraction(x)), flt(Fraction(s)), flt(Fraction(m)), round(v * 1e6)))
out = """------------------------------ MODULE FnTable ------------------------------
\\* generated by tools/mkfntable.py: <<<<function, arguments>>, value in 10^-6>>
EXTENDS Integers
LOCAL F(m, k) == [t |-> "flt", n |-> m, e |-> k]
LOCAL Rows == {
  %s}
TableFunctions == {%s}
FnValue == [k \\in {r[1] : r \\in Rows} |-> (CHOOSE r \\in Rows : r[1] = k)[2]]
=============================================================================
""" % (",\n  ".join(rows), ", ".join('"%s"' % f for f in sorted(one)))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "FnTable.tla"), "w").write(out)
print(len(rows))
