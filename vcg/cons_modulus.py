"""Contract of the modulus search."""
from cons_jindo import *
from cons_jindo import CONS as _J
import gen, stubs
CONS = dict(_J)
def con(name, **k): CONS[name] = Con(name, **k)
MAIN = "github.com/sp301415/ringo-snark/jindo-modulus."
RANK, BASE = 1 << 30, 1 << 25
log2_ = z3.Function("log2of", INT, INT)
def two_powers():
    """theorems pow2_wrap, pow2_log"""
    e = z3.Int("e!p2"); p = gen.pow2_(e)
    return [FA([e], z3.Implies(z3.And(e >= 0, e < 64), z3.And(p >= 1, p < W64, log2_(p) == e)), patterns=[p]), FA([e], z3.Implies(e >= 64, z3.And(p % W64 == 0, p >= W64)), patterns=[p])]
def found(c):
    p, b, k = c.res; b, k = Z(num(b)), Z(num(k))
    if p is gen.NIL: return [("failure is reported with zeros", z3.And(b == 0, k == 0))]
    lo, hi = Z(c[0]), Z(c[1]); v = Z(c.val(p)); n = stubs.bitlen_(v); u = bpow_(b, k)
    return [("p is b^k + 1", v == u + 1), ("p passed the primality test", stubs.prime_(v)), ("bit length in the range", z3.And(n >= lo, n < hi)), ("base small", b <= BASE),
            ("exponent a power of two", z3.And(k >= 1, k == gen.pow2_(log2_(k)), log2_(k) >= 0)), ("twice the largest rank divides p - 1", z3.simplify(v - 1) % (2 * RANK) == 0)]
con(MAIN + "findModulus", setup=lambda c: c.ex.ax.extend(two_powers()), loops={0: Loop(), 1: Loop()}, post=found)
