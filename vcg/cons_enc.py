"""Contracts of buckler's encoder: the polynomial of low degree that takes given values at the roots of unity."""
from cons_buckler import *
from cons_buckler import CONS as _BK
CONS = dict(_BK)
def con(name, **k): CONS[name] = Con(name, **k)
def EN(m): return "(*%sEncoder[E]).%s" % (BK, m)
# encv(a, off, N, g, x): the value at x of the polynomial of degree below N that takes the value a[off+k] at the k-th point, for k < N (the points being the powers of g, an element of order N, in
# the transform's order). There is exactly one: theorem interpolation_unique (lean/ntt.lean).
encv_ = z3.Function("encoding_value", AR, INT, INT, F, F, F)
class Enc:
    def __init__(self, c, out, v, e=None):
        e = c[0] if e is None else e
        self.c, self.t, self.out, self.v = c, c.fld(e, "ntt", True), out, v
        self.N = Z(c.fld(self.t, "rank", True)); self.R = Z(c.len(co(c, out))); self.g = root(c, c.fld(self.t, "tw"), self.N, "cyc"); self.K = log_(self.N)
    def point(self, k): return point("cyc", self.g, self.K, k)
    def valid(self): return valid(self.c, self.t, "cyc")
    def value(self, x): return encv_(*arr(self.c, self.v, True), self.N, self.g, x)
    def slots(self):
        c = self.c; return c.all(0, self.N, lambda k: pev(c, co(c, self.out), self.R, self.point(k)) == c.old(self.v, k), lambda k: [c.old(self.v, k), rv_(self.K, Z(k))])
    def tail(self): c = self.c; o = co(c, self.out); return c.all(self.N, self.R, lambda k: c.at(o, k) == fint(0), lambda k: c.at(o, k))
    def at_point(self):
        x = z3.Const("x!enc", F); p = pev(self.c, co(self.c, self.out), self.R, x); return z3.ForAll([x], p == self.value(x), patterns=[p])
    def theorems(self):
        c = self.c; o = co(c, self.out); b, bo = arr(c, o); v, vo = arr(c, self.v, True); x = z3.Const("x!en", F); d, e = z3.FreshConst(INT, "d"), z3.FreshConst(INT, "d")
        pN, pR = pev_(b, bo, self.N, x), pev_(b, bo, self.R, x)
        return [z3.Or(z3.And(d >= self.N, d < self.R, b[bo + d] != fint(0)), z3.ForAll([x], pN == pR, patterns=[pR])),                        # zero coefficients do not count: theorem tail_zero
                z3.Or(z3.And(e >= 0, e < self.N, pev_(b, bo, self.N, self.point(e)) != v[vo + e]), z3.ForAll([x], pN == self.value(x), patterns=[pN]))]       # definition of encv
    def post(self): return [("slot k holds value k", self.slots()), ("degree below the rank", self.tail()), ("the interpolating polynomial", self.at_point()), ("coefficient form", z3.Not(flag(self.c, self.out)))]
def enc_pre(c, out=True):
    e = Enc(c, c[1] if out else None, c[2]) if out else None
    t = c.fld(c[0], "ntt", True); N = Z(c.fld(t, "rank", True)); v = c[2] if out else c[1]
    pre = valid(c, t, "cyc") + [("a value for every slot", Z(c.len(v)) >= N)]
    return pre + ([("room for the polynomial", Z(c.len(co(c, c[1]))) >= N)] if out else [("room for the polynomial", Z(c.fld(c[0], "embedRank")) >= N)])
def et_inv(l):
    e = Enc(l.c, l.arg(1), l.arg(2)); o = co(l.c, l.arg(1))
    return [("cleared so far", l.c.all(e.N, l.v("i"), lambda k: l.c.at(o, k) == fint(0), lambda k: l.c.at(o, k))), ("the others kept", l.c.all(0, e.N, lambda k: l.c.at(o, k) == l.at0(o, k), lambda k: l.c.at(o, k)))]
con(EN("EncodeTo"), pre=enc_pre, mods=pmods, hints=lambda c: Enc(c, c[1], c[2]).theorems() + pev_ext(c, *arr(c, co(c, c[1])), Enc(c, c[1], c[2]).N), post=lambda c: Enc(c, c[1], c[2]).post(),
    loops={0: Loop(inv=et_inv, dec=lambda l: Enc(l.c, l.arg(1), l.arg(2)).R - Z(l.v("i")))})
con(EN("Encode"), pre=lambda c: enc_pre(c, False), mods=lambda c: [], result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(c[0], "embedRank"), False)],
    post=lambda c: Enc(c, c.res[0], c[1]).post() + [("rank", Z(c.len(co(c, c.res[0]))) == Z(c.fld(c[0], "embedRank")))])
con(BK + "newEncoder", pre=lambda c: [("rank in range", Z(c[0]) < (1 << 46))], mods=lambda c: [], panics=CONS[BP + "NewCyclicTransformer"].panics,
    post=lambda c: valid(c, c.fld(c.res[0], "ntt"), "cyc") + [("ranks", z3.And(Z(c.fld(c.fld(c.res[0], "ntt"), "rank")) == Z(c[0]), Z(c.fld(c.res[0], "embedRank")) == Z(c[1])))])
# randomised encodings: the same values on the slots, one more degree
def re_theorem(c, out, e):
    """theorem blind_slots: adding r at X^N and taking r from the constant term changes no value at an N-th root of unity"""
    o = co(c, out); b, bo = arr(c, o); N, R = e.N, e.R; res = []
    tw, t = c.fld(e.t, "tw"), good_tw(c, c.fld(e.t, "tw"), N, "cyc")
    for a in scan(c, pev_):
        a, ao = a[0], a[1]
        if not (closed(a) and closed(ao)) or (a.eq(b) and ao.eq(bo)) or any(x[0].eq(a) for x in res): continue
        d = z3.FreshConst(INT, "d"); k = z3.Int("k!re"); p = pev_(b, bo, R, e.point(k))
        res.append((a, z3.Or(z3.Not(t), N != Z(c.ex.pow2(e.K)), z3.And(d >= 1, d < R, d != N, a[ao + d] != b[bo + d]), a[ao + N] != fint(0), fadd(c.at(o, 0), c.at(o, N)) != a[ao], R <= N,
                             z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), p == pev_(a, ao, R, e.point(k))), patterns=[rv_(e.K, k)]))))
    return [x[1] for x in res]
def re_post(c, out, v):
    e = Enc(c, out, v); o = co(c, out)
    return [("slot k holds value k", e.slots()), ("degree at most the rank", c.all(e.N + 1, e.R, lambda k: c.at(o, k) == fint(0), lambda k: c.at(o, k))), ("coefficient form", z3.Not(flag(c, out)))]
def re_pre(c):
    e = Enc(c, c[1], c[2]); return enc_pre(c) + [("room for the blinding term", e.R >= e.N + 1)]
con(EN("RandEncodeTo"), pre=re_pre, mods=pmods, hints=lambda c: re_theorem(c, c[1], Enc(c, c[1], c[2])), post=lambda c: re_post(c, c[1], c[2]))
con(EN("RandEncode"), pre=lambda c: enc_pre(c, False) + [("room for the blinding term", Z(c.fld(c[0], "embedRank")) >= Z(c.fld(c.fld(c[0], "ntt"), "rank")) + 1)], mods=lambda c: [], result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(c[0], "embedRank"), False)],
    post=lambda c: re_post(c, c.res[0], c[1]) + [("rank", Z(c.len(co(c, c.res[0]))) == Z(c.fld(c[0], "embedRank")))])
