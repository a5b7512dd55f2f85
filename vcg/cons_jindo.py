"""Contracts of the commitment scheme's integer code: digits, residue number system, encodings."""
from cons_bigpoly import *
from cons_bigpoly import CONS as _BP
import gen
CONS = dict(_BP)
def con(name, **k): CONS[name] = Con(name, **k)
def has_if(t): return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_if(x) for x in t.children()))
def FA(vs, body, patterns=()):
    """quantified formula; patterns that are none (a value just stored, say) are left out"""
    ps = list(patterns)
    if not any(has_if(x) for x in ps if not isinstance(x, z3.PatternRef)):
        try: return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
def MP(*ps):
    try: return z3.MultiPattern(*ps)
    except z3.Z3Exception: return ps[0]
JD = "github.com/sp301415/ringo-snark/jindo."
W64 = 1 << 64
# ---- long division of a vector of 64-bit words by a word
# tl a off n i: the number whose words are a[off+i], .., a[off+n-1], the lowest first
ARI = z3.ArraySort(INT, INT)
from stubs import words_ as tl_
def words(c, s, i, old=False):
    a, o = arr(c, s, old); return tl_(a, o, Z(c.len(s, old)), Z(num(z3.simplify(Z(num(i))))))
def words_step(c, s, i, old=False):
    i = Z(num(z3.simplify(Z(num(i))))); n = Z(c.len(s, old)); t = words(c, s, i, old)
    return [words(c, s, n, old) == 0, z3.Implies(z3.And(i >= 0, i < n), t == Z(c.at(s, i, old)) + W64 * words(c, s, i + 1, old)), t >= 0]
def words_frame():
    """the words from i on do not depend on those below"""
    a = z3.Const("a!w", ARI); k, v, o, n, i = z3.Ints("k!w v!w o!w n!w i!w"); t = tl_(z3.Store(a, k, v), o, n, i)
    return [FA([a, k, v, o, n, i], z3.Implies(k < o + i, t == tl_(a, o, n, i)), patterns=[t])]
def typed(l, name):
    """the loop-carried variable of that type"""
    r = [i["n"] for i in l.fn.blocks[l.h]["ins"] if i["op"] == "phi" and l.ex.p.t(i["t"])["str"] == name]
    if len(r) != 1: raise Unsupported("loop variable of type " + name)
    return l.env[r[0]]
def dm_at(l): return Z(typed(l, "int")) + 1
def dm_inv(l):
    c, x, y = l.c, l.arg(0), Z(l.arg(1)); i, r = dm_at(l), Z(typed(l, "uint64"))
    return [("quotient and remainder so far", z3.And(words(c, x, i, True) == y * words(c, x, i) + r, r >= 0, r < y)), ("words below not yet touched", c.all(0, i, lambda k: c.at(x, k) == c.old(x, k), lambda k: c.at(x, k))), ("position", z3.And(i >= 0, i <= Z(c.len(x))))]
def dm_facts(l):
    c, x = l.c, l.arg(0); i = z3.simplify(dm_at(l)); return words_step(c, x, i - 1, True) + words_step(c, x, i, True) + words_step(c, x, i)
def dm_end(l):
    c, x, y = l.c, l.arg(0), Z(l.arg(1)); i = z3.simplify(dm_at(l)); a, b = words(c, x, i), words(c, x, i + 1)
    return words_step(c, x, i) + [z3.Implies(a == Z(c.at(x, i)) + W64 * b, y * a == y * Z(c.at(x, i)) + W64 * (y * b))]
def divides_unique(x, y, q, r):
    """theorem div_unique"""
    return [z3.Implies(z3.And(y > 0, x == y * q + r, r >= 0, r < y), z3.And(q == gen.ediv_(x, y), r == gen.emod_(x, y)))]
con(JD + "divMod64", pre=lambda c: [("divisor positive", Z(c[1]) > 0)], mods=lambda c: [c[0]], setup=lambda c: c.ex.ax.extend(words_frame()),
    loops={0: Loop(inv=dm_inv, facts=dm_facts, end=dm_end)}, result=lambda c: [c.ex.sym(c.ex.call_results[0], "rem")],
    hints=lambda c: words_step(c, c[0], 0) + words_step(c, c[0], 0, True) + divides_unique(words(c, c[0], 0, True), Z(c[1]), words(c, c[0], 0), Z(c.res[0])),
    post=lambda c: [("the quotient is left", z3.And(words(c, c[0], 0) == gen.ediv_(words(c, c[0], 0, True), Z(c[1])), words(c, c[0], 0) >= 0)), ("the remainder is returned", z3.And(Z(c.res[0]) == gen.emod_(words(c, c[0], 0, True), Z(c[1])), Z(c.res[0]) >= 0, Z(c.res[0]) < Z(c[1])))])
con(JD + "toBalanced", pre=lambda c: [("reduced", z3.And(Z(c[0]) < Z(c[1]), Z(c[1]) <= 1 << 63))], result=lambda c: [c.ex.sym(c.ex.call_results[0], "balanced")],
    post=lambda c: [("the balanced residue", Z(c.res[0]) == z3.If(2 * Z(c[0]) > Z(c[1]), Z(c[0]) - Z(c[1]), Z(c[0])))])

# ---- encoding: position j*slots+i holds digit j of value i
def sub(c, p, *names, old=False):
    """a field of a field .. of the struct a pointer refers to"""
    for n in names[:-1]:
        t = c.ex.type_at_p(p, c.st0); fs = c.ex.p.ut(t)["fields"]; k = [f["name"] for f in fs].index(n)
        p = c.fld(p, n, old) if c.ex.p.ut(fs[k]["t"])["k"] == "ptr" else Ptr(p.obj, tuple(p.path) + (k,))
    return c.fld(p, names[-1], old)
# rest x b j = x / b^j;   position (j, i) of a matrix with S columns and back       (lean/encode.lean)
rest_ = z3.Function("digits_from", INT, INT, INT, INT)
pos_ = z3.Function("position", INT, INT, INT, INT)
def rest(x, b, j): return rest_(Z(x), Z(b), Z(num(z3.simplify(Z(num(j))))))
def digit(x, b, j): return gen.emod_(rest(x, b, j), Z(b))
def rest_step(ex, x, b, j):
    j = Z(num(z3.simplify(Z(num(j))))); b = Z(b); r = rest(x, b, j); return [rest(x, b, 0) == x, z3.Implies(j >= 0, rest(x, b, j + 1) == gen.ediv_(r, b))]
def positions(S):
    j, i, m = z3.Ints("j!pos i!pos m!pos"); p = pos_(S, j, i); d, r = gen.ediv_(m, S), gen.emod_(m, S)
    return [FA([j, i], z3.Implies(z3.And(S > 0, i >= 0, i < S, j >= 0), z3.And(gen.ediv_(p, S) == j, gen.emod_(p, S) == i)), patterns=[p]), FA([m], z3.Implies(z3.And(S > 0, m >= 0), z3.And(m == pos_(S, d, r), d >= 0, r >= 0, r < S)), patterns=[r])]
class Ecd:
    def __init__(self, c, e=None):
        e = c[0] if e is None else e
        self.c, self.e = c, e; self.b, self.n = Z(sub(c, e, "params", "ecd", "base")), Z(sub(c, e, "params", "ecd", "exp")); self.S = Z(sub(c, e, "params", "slots")); self.buf = sub(c, e, "buf", "coeff")
    def valid(self):
        n = z3.Int("limbs"); return [("a base and digits", z3.And(self.b > 1, self.n >= 1, self.S >= 1, self.S < (1 << 40), self.n < (1 << 40))), ("buffer for an element", Z(self.c.len(self.buf)) == n), ("field modulus is base^digits + 1", gen.Q == bpow_(self.b, self.n) + 1)]
    def top(self, x):
        """theorem top_digit"""
        return [z3.Implies(z3.And(x >= 0, x <= bpow_(self.b, self.n), self.n >= 1, self.b > 0), z3.And(rest(x, self.b, self.n - 1) >= 0, rest(x, self.b, self.n - 1) <= self.b))]
bpow_ = z3.Function("int_power", INT, INT, INT)
def rows(p): return p.f[0]
def row(c, p, k, old=False): return c.ex.elem(rows(p), k, c.st0 if old else c.st)
def cell(c, p, k, m, old=False): return Z(c.at(row(c, p, k, old), m, old))
def every(c, p, f, L=None):
    """all entries, with the number of the row and the position"""
    k, m = z3.Int("k!cell"), z3.Int("m!cell"); t = cell(c, p, k, m)
    return FA([k, m], z3.Implies(z3.And(k >= 0, k < (Z(c.len(rows(p))) if L is None else L), m >= 0), f(t, k, m)), patterns=[t])
def lifted(c, v, i): return gen.flift(c.old(v, i))
class BE(Ecd):
    def __init__(self, c): super().__init__(c); self.p, self.v = c[1], c[2]; self.nv = Z(c.len(self.v))
    def x(self, i): return lifted(self.c, self.v, i)
    def want(self, j, i): return z3.If(j == self.n - 1, rest(self.x(i), self.b, self.n - 1), digit(self.x(i), self.b, j))
    def at(self, m): return gen.ediv_(m, self.S), gen.emod_(m, self.S)
    def upto(self, i):
        """columns below i"""
        def f(t, k, m): j, i2 = self.at(m); return z3.Implies(z3.And(j < self.n, i2 < i), z3.If(i2 < self.nv, t == self.want(j, i2), t == 0))
        return every(self.c, self.p, f)
    def column(self, i, j):
        """column i, digits below j"""
        def f(t, k, m): j2, i2 = self.at(m); return z3.Implies(z3.And(j2 < j, i2 == i), z3.If(i < self.nv, t == self.want(j2, i), t == 0))
        return every(self.c, self.p, f)
    def cells(self, j, i, L):
        def f(t, k, m): j2, i2 = self.at(m); return z3.Implies(z3.And(j2 == j, i2 == i), z3.If(i < self.nv, t == self.want(j, i), t == 0))
        return every(self.c, self.p, f, L)
    def ground(self, j, i):
        j, i = Z(j), Z(i); self.c.ex.mult(self.S, j); self.c.ex.mult(self.S, self.n); return [pos_(self.S, j, i) == z3.simplify(j * self.S + i)]
    def room(self):
        c = self.c; k = z3.Int("k!row"); t = Z(c.len(row(c, self.p, k, True), True)); return [("room for every digit", FA([k], z3.Implies(z3.And(k >= 0, k < Z(c.len(rows(self.p)))), t >= self.S * self.n), patterns=[t]))]
def be(l): return BE(l.c)
def be_i(l, d=0): return Z(l.idx(d))
def be_words(l, i, j): b = be(l); return [("what is left of the value", words(l.c, b.buf, 0) == rest(b.x(i), b.b, j))]
def same_lengths(c, p):
    k = z3.Int("k!len"); a, b = (Z(c.len(row(c, p, k, old), old)) for old in (False, True)); return FA([k], z3.Implies(z3.And(k >= 0, k < Z(c.len(rows(p)))), a == b), patterns=[a])
con("(*%sEncoder[E]).baseEncodeTo" % JD, pre=lambda c: BE(c).valid() + BE(c).room(), panics=lambda c: BE(c).nv > BE(c).S, setup=lambda c: c.ex.ax.extend(positions(BE(c).S)),
    mods=lambda c: [rows(c[1]), BE(c).buf],
    loops={0: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l)))], facts=lambda l: rest_step(l.ex, be(l).x(be_i(l)), be(l).b, 0) + be(l).top(be(l).x(be_i(l)))),
           1: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l, 1))), ("digits so far", be(l).column(be_i(l, 1), be_i(l)))] + be_words(l, be_i(l, 1), be_i(l)), facts=lambda l: rest_step(l.ex, be(l).x(be_i(l, 1)), be(l).b, be_i(l)) + be(l).ground(be_i(l), be_i(l, 1)) + words_step(l.c, be(l).buf, 0)),
           2: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l, 2))), ("digits so far", be(l).column(be_i(l, 2), be_i(l, 1))), ("rows so far", be(l).cells(be_i(l, 1), be_i(l, 2), be_i(l)))], dec=lambda l: Z(l.c.len(rows(be(l).p))) - be_i(l)),
           3: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l, 1))), ("digits so far", be(l).column(be_i(l, 1), be(l).n - 1)), ("rows so far", be(l).cells(be(l).n - 1, be_i(l, 1), be_i(l)))], facts=lambda l: be(l).ground(be(l).n - 1, be_i(l, 1)), dec=lambda l: Z(l.c.len(rows(be(l).p))) - be_i(l)),
           4: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l)))]),
           5: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l, 1))), ("digits so far", be(l).column(be_i(l, 1), be_i(l)))], facts=lambda l: be(l).ground(be_i(l), be_i(l, 1))),
           6: Loop(inv=lambda l: [("columns so far", be(l).upto(be_i(l, 2))), ("digits so far", be(l).column(be_i(l, 2), be_i(l, 1))), ("rows so far", be(l).cells(be_i(l, 1), be_i(l, 2), be_i(l)))], dec=lambda l: Z(l.c.len(rows(be(l).p))) - be_i(l))},
    post=lambda c: [("position (j, i) holds digit j of value i, and zero beyond the values", BE(c).upto(BE(c).S)), ("rows keep their lengths", same_lengths(c, c[1]))])
# ---- residue number system
# crt g p i n: the sum of g_j times residue j of coefficient i, for j < n        (lean/encode.lean)
crt_ = z3.Function("gadget_sum", INT, INT, INT, INT)
emod = gen.emod_
class RNS:
    """the reconstructor r and the polynomial p it works on"""
    def __init__(self, c, r, p=None):
        self.c, self.r, self.p = c, r, p; g = self.ring = c.fld(r, "ringQ", True) if r is not None else None
        self.set_ring(g) if g is not None else None
    def set_ring(self, g):
        c = self.c; self.subs = c.fld(g, "SubRings", True); self.L = Z(c.len(self.subs, True)); self.Q = Z(modulus(c, g)); self.N = Z(c.fld(self.sub(0), "N", True)); return self
    def sub(self, l): return self.c.ex.elem(self.subs, l, self.c.st0)
    def q(self, l): return Z(self.c.fld(self.sub(l), "Modulus", True))
    def gad(self, j): return Z(self.c.old(self.c.fld(self.r, "gad", True), j))
    def x(self, l, i): return cell(self.c, self.p, l, i, True)
    def bal(self, l, i): return z3.If(2 * self.x(l, i) > self.q(l), self.x(l, i) - self.q(l), self.x(l, i))
    def each(self, f, lo=0):
        l = z3.Int("l!rns"); return FA([l], z3.Implies(z3.And(l >= lo, l < self.L), f(l)), patterns=[self.q(l)])
    def moduli(self): return [("moduli", self.each(lambda l: z3.And(self.q(l) > 1, self.q(l) < (1 << 62)))), ("at least one modulus", z3.And(self.L >= 1, self.L < (1 << 20), self.N >= 0, self.N < (1 << 40))), ("moduli divide the product", z3.And(self.Q > 0, self.each(lambda l: z3.And(emod(self.Q, self.q(l)) == 0, self.Q >= self.q(l)))))]
    def gadget(self, gad=None, n=None):
        g = self.gad if gad is None else gad; j, l = z3.Int("j!rns"), z3.Int("l!rns")
        return FA([j, l], z3.Implies(z3.And(j >= 0, j < (self.L if n is None else n), l >= 0, l < self.L), emod(g(j), self.q(l)) == z3.If(j == l, 1, 0)), patterns=[MP(g(j), self.q(l))])
    def valid(self): c = self.c; return self.moduli() + [("gadget", z3.And(Z(c.len(c.fld(self.r, "gad", True), True)) == self.L, self.gadget())), ("half of the product", Z(c.val(c.fld(self.r, "qHalf", True), True)) == self.Q / 2)]
    def reduced(self):
        c = self.c; l, i = z3.Int("l!rns"), z3.Int("i!rns"); t, n = self.x(l, i), Z(c.len(row(c, self.p, l, True), True))
        return [("a row for every modulus", Z(c.len(rows(self.p), True)) >= self.L), ("a residue for every coefficient", FA([l], z3.Implies(z3.And(l >= 0, l < self.L), n >= self.N), patterns=[n])),
                ("residues reduced", FA([l, i], z3.Implies(z3.And(l >= 0, l < self.L, i >= 0, i < self.N), z3.And(t >= 0, t < self.q(l))), patterns=[t]))]
    def is_value(self, v, i):
        """v is the balanced integer with these residues"""
        return [2 * v > -self.Q, 2 * v <= self.Q, self.each(lambda l: emod(v, self.q(l)) == self.x(l, i))]
    def values(self, out, n):
        """entries below n of out are the balanced integers with the residues of p"""
        c = self.c; i, l = z3.Int("i!rns"), z3.Int("l!rns"); v = Z(c.at(out, i))
        return z3.And(FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(2 * v > -self.Q, 2 * v <= self.Q)), patterns=[v]),
                      FA([i, l], z3.Implies(z3.And(i >= 0, i < n, l >= 0, l < self.L), emod(v, self.q(l)) == self.x(l, i)), patterns=[MP(v, self.x(l, i))]))
    def psum(self, i, j): return crt_(z3.IntVal(0), Z(i), Z(num(z3.simplify(Z(num(j))))))
    def psum_step(self, i, j): j = Z(num(z3.simplify(Z(num(j))))); return [self.psum(i, 0) == 0, z3.Implies(j >= 0, self.psum(i, j + 1) == self.psum(i, j) + self.x(j, i) * self.gad(j))]
    def theorems(self, i):
        """balanced_mod: adding or taking the modulus does not change the residue;   gadget_residue: the sum has the residues;   mod_mod_product: so has its remainder, and that less the product"""
        b = self.bal(0, i); S = self.psum(i, self.L); T = emod(S, self.Q); l = z3.Int("l!rns"); gv = z3.And(*[B(g) for _, g in self.valid() + self.reduced()])
        return [FA([l], z3.Implies(z3.And(l >= 0, l < self.L), z3.And(z3.Implies(b == self.bal(l, i), emod(b, self.q(l)) == self.x(l, i)), z3.Implies(gv, z3.And(emod(T, self.q(l)) == self.x(l, i), emod(T - self.Q, self.q(l)) == self.x(l, i))))), patterns=[self.x(l, i)])]
def modulus(c, g): 
    m = c.fld(g, "ModulusAtLevel", True); return c.old(m, Z(c.fld(g, "level", True)))
def rc(l): return RNS(l.c, l.c[0], l.c[2])
con("(*%sRNSReconstructor).reconstructTo" % JD, pre=lambda c: (lambda r: r.valid() + r.reduced() + [("level of the modulus", z3.And(Z(c.fld(r.ring, "level", True)) >= 0, Z(c.fld(r.ring, "level", True)) < Z(c.len(c.fld(r.ring, "ModulusAtLevel", True))))), ("room for every coefficient", Z(c.len(c[1])) >= r.N)])(RNS(c, c[0], c[2])),
    mods=lambda c: [c[1]] + [sub(c, c[0], "buf", n) for n in ("coeff", "mul", "acc", "accTmp")],
    loops={0: Loop(dec=lambda l: rc(l).N - Z(l.idx()), inv=lambda l: [("coefficients so far", rc(l).values(l.c[1], l.idx()))], facts=lambda l: rc(l).theorems(l.idx()) + rc(l).psum_step(l.idx(), 0)),
           1: Loop(inv=lambda l: [("equal so far", (lambda r, i: r.c.all(0, l.idx(), lambda j: r.bal(j, i) == r.bal(0, i), lambda j: r.x(j, i)))(rc(l), l.idx(1))), ("coefficients so far", rc(l).values(l.c[1], l.idx(1)))]),
           2: Loop(inv=lambda l: [("sum so far", Z(l.val(sub(l.c, l.c[0], "buf", "acc"))) == rc(l).psum(l.idx(1), l.idx())), ("coefficients so far", rc(l).values(l.c[1], l.idx(1)))], facts=lambda l: rc(l).psum_step(l.idx(1), l.idx()))},
    post=lambda c: [("the balanced integers with these residues", (lambda r: r.values(c[1], r.N))(RNS(c, c[0], c[2])))])
def level_ok(c, g): v = Z(c.fld(g, "level", True)); return [("level of the modulus", z3.And(v >= 0, v < Z(c.len(c.fld(g, "ModulusAtLevel", True)))))]
def set_pre(c):
    r = RNS(c, c[0], c[1]); qb = c.fld(c[0], "qBig"); k = z3.Int("k!row"); t = Z(c.len(row(c, r.p, k, True), True))
    return [("rows for every modulus", Z(c.len(rows(r.p))) >= r.L), ("room for every coefficient", z3.And(Z(c.len(c[2])) >= r.N, FA([k], z3.Implies(z3.And(k >= 0, k < r.L), t >= r.N), patterns=[t]))),
            ("moduli kept as integers", z3.And(Z(c.len(qb)) == r.L, c.all(0, r.L, lambda l: z3.And(Z(c.old(qb, l)) == r.q(l), r.q(l) > 0), lambda l: c.old(qb, l)))), ("at least one modulus", r.L >= 1)]
class SetBig:
    def __init__(self, c): self.c = c; self.r = RNS(c, c[0], c[1])
    def done(self, lo, n, L=None):
        c, r = self.c, self.r; l, i = z3.Int("l!set"), z3.Int("i!set"); t = cell(c, r.p, l, i)
        return FA([l, i], z3.Implies(z3.And(l >= 0, l < (r.L if L is None else L), i >= lo, i < n), t == emod(Z(c.old(c[2], i)), Z(c.old(c.fld(c[0], "qBig"), l)))), patterns=[t])
con("(*%sRNSReconstructor).setBigCoeffTo" % JD, pre=set_pre, mods=lambda c: [rows(c[1]), sub(c, c[0], "buf", "accTmp")],
    loops={0: Loop(dec=lambda l: SetBig(l.c).r.N - Z(l.idx()), inv=lambda l: [("coefficients so far", SetBig(l.c).done(0, l.idx()))]),
           1: Loop(inv=lambda l: [("coefficients so far", SetBig(l.c).done(0, l.idx(1))), ("residues so far", SetBig(l.c).done(l.idx(1), l.idx(1) + 1, l.idx()))])},
    post=lambda c: [("the residues of every coefficient", SetBig(c).done(0, SetBig(c).r.N))])
def sign_done(c, n):
    r = RNS(c, None).set_ring(c[0]); p, v, i = c[1], Z(c[2]), Z(c[3]); l = z3.Int("l!sg"); t = cell(c, p, l, i)
    return FA([l], z3.Implies(z3.And(l >= 0, l < n), z3.And(emod(t, r.q(l)) == emod(v, r.q(l)), t >= 0, z3.Or(v >= 0, t <= r.q(l)))), patterns=[t])
def sign_facts(l):
    """theorem trunc_mod: Go's remainder plus the modulus is the residue, for negative numbers too"""
    r = RNS(l.c, None).set_ring(l.c[0]); q, v = r.q(l.idx()), Z(l.c[2]); t = emod(z3.simplify(-v), q); return [z3.Implies(q > 0, z3.And(emod(q - t, q) == emod(v, q), t >= 0, t < q))]
def sign_pre(c):
    r = RNS(c, None).set_ring(c[0]); k = z3.Int("k!row"); t = Z(c.len(row(c, c[1], k, True), True)); L = Z(c.fld(c[0], "level", True)) + 1
    return [("moduli", r.each(lambda l: z3.And(r.q(l) > 1, r.q(l) < (1 << 62)))), ("rows", z3.And(L <= Z(c.len(rows(c[1]))), L <= r.L, L >= 0)), ("position", z3.And(Z(c[3]) >= 0, FA([k], z3.Implies(z3.And(k >= 0, k < L), t > Z(c[3])), patterns=[t])))]
con(JD + "setCoeffSigned", pre=sign_pre, mods=lambda c: [rows(c[1])],
    loops={n: Loop(inv=lambda l: [("residues so far", sign_done(l.c, l.idx()))], facts=sign_facts, dec=lambda l: Z(l.c.fld(l.c[0], "level", True)) + 1 - Z(l.idx())) for n in (0, 1)},
    post=lambda c: [("every row holds the value modulo its modulus", sign_done(c, Z(c.fld(c[0], "level", True)) + 1))])
# ---- decoding: the value of the digits at the base
hz_ = z3.Function("digits_value", F, ARI, INT, INT, INT, INT, F)
class Dec(Ecd):
    def __init__(self, c): super().__init__(c); self.B = fint(self.b)
    def val(self, C, i, j): a, o = C; return hz_(self.B, a, o + Z(num(i)), self.S, self.n, Z(num(z3.simplify(Z(num(j))))))
    def step(self, C, i, j):
        a, o = C; i, j = Z(num(i)), Z(num(z3.simplify(Z(num(j))))); v = self.val(C, i, j)
        return [self.val(C, i, self.n) == fint(0), z3.Implies(z3.And(j >= 0, j < self.n), v == fadd(fmul(self.val(C, i, j + 1), self.B), fint(a[o + i + j * self.S])))]

def dec_pre(c):
    r = RNS(c, c.fld(c[0], "rns", True), c[2]); d = Dec(c); return d.valid() + r.valid() + r.reduced() + level_ok(c, r.ring) + [("a value for every slot", Z(c.len(c[1])) >= d.S), ("as many coefficients as digits", z3.And(r.N == d.S * d.n, Z(c.len(sub(c, c[0], "buf", "coeffBig"))) >= r.N))]
def big(l): return arr(l.c, sub(l.c, l.c[0], "buf", "coeffBig"))
def dec_out(c, n):
    d = Dec(c); C = arr(c, sub(c, c[0], "buf", "coeffBig")); return c.all(0, n, lambda i: c.at(c[1], i) == d.val(C, i, 0), lambda i: c.at(c[1], i))
con("(*%sEncoder[E]).DecodeTo" % JD, pre=dec_pre, panics=lambda c: Z(c.len(c[1])) > Dec(c).S, mods=lambda c: [c[1]] + [sub(c, c[0], "buf", n) for n in ("coeffBig", "baseE", "coeffE")] + [sub(c, c[0], "rns", "buf", n) for n in ("coeff", "mul", "acc", "accTmp")],
    loops={0: Loop(inv=lambda l: [("values so far", dec_out(l.c, l.idx()))]), 1: Loop(inv=lambda l: [("values so far", dec_out(l.c, l.idx(1)))] + dec_horner(l), facts=lambda l: dec_facts(l))},
    post=lambda c: [("value i is the digits j*slots+i at the base, from the balanced coefficients", z3.And(dec_out(c, Dec(c).S), RNS(c, c.fld(c[0], "rns", True), c[2]).values(sub(c, c[0], "buf", "coeffBig"), RNS(c, c.fld(c[0], "rns", True), c[2]).N)))])
def dec_at(l): return Z(l.idx()) + 1
def dec_horner(l): d = Dec(l.c); j = dec_at(l); return [("value of the digits from here on", z3.And(l.c.at(l.c[1], l.idx(1)) == d.val(big(l), l.idx(1), j), j >= 0, j <= d.n))]
def dec_facts(l):
    d = Dec(l.c); j = dec_at(l); l.ex.mult(d.S, z3.simplify(j - 1)); l.ex.mult(d.S, d.n); return d.step(big(l), l.idx(1), j - 1) + d.step(big(l), l.idx(1), d.n)
# ---- constructing the reconstructor
def ring_ok(c, g):
    """what the ring library promises of its rings: moduli greater than one that divide their product, each coprime to the product of the others"""
    r = RNS(c, None).set_ring(g); l, m = z3.Int("l!rg"), z3.Int("m!rg"); co_ = lambda a: gen.ediv_(r.Q, r.q(a))
    return r.moduli() + level_ok(c, g) + [("the product of the other moduli", z3.And(FA([l], z3.Implies(z3.And(l >= 0, l < r.L), coprime_(co_(l), r.q(l))), patterns=[r.q(l)]), FA([l, m], z3.Implies(z3.And(l >= 0, l < r.L, m >= 0, m < r.L, l != m), emod(co_(l), r.q(m)) == 0), patterns=[MP(r.q(l), r.q(m))])))]
from stubs import coprime_
class NewRNS(RNS):
    def __init__(self, l): super().__init__(l.c, None); self.l = l; self.set_ring(l.c[0])
    def made(self, field):
        """the slice that becomes that field of the result"""
        r = made_field(self.l, field); return r
def made_field(l, field):
    t = next(k for k, d in enumerate(l.ex.p.types) if d["k"] == "named" and d["name"] == "RNSReconstructor"); n = [f["name"] for f in l.ex.p.ut(t)["fields"]].index(field)
    for b in l.fn.blocks:
        for i in b["ins"]:
            if i["op"] == "fieldaddr" and i["field"] == n:
                for b2 in l.fn.blocks:
                    for k in b2["ins"]:
                        if k["op"] == "store" and k["addr"] == i["n"] and k["x"] in l.env and isinstance(l.env[k["x"]], SliceV): return l.env[k["x"]]
    raise Unsupported("slice of the field " + field)
def rns_inv(l):
    r = NewRNS(l); n = l.idx(); g, q = made_field(l, "gad"), made_field(l, "qBig")
    return [("gadget so far", r.gadget(lambda j: Z(l.c.at(g, j)), n)), ("moduli so far", l.c.all(0, n, lambda k: Z(l.c.at(q, k)) == r.q(k), lambda k: l.c.at(q, k)))]
def rns_end(l):
    """theorem gadget_entry: (Q/q)·v mod Q is v·(Q/q) modulo every q_m that divides Q, so 1 at q when v inverts Q/q, and 0 where q_m divides Q/q"""
    r = NewRNS(l); g = made_field(l, "gad"); j = z3.simplify(Z(l.idx()) - 1); t = Z(l.c.at(g, j)); m = z3.Int("m!ge"); d = gen.ediv_(r.Q, r.q(j))
    if not (z3.is_app(t) and t.decl().eq(emod) and z3.is_mul(t.arg(0))): return []
    p = t.arg(0)
    return [FA([m], z3.Implies(z3.And(m >= 0, m < r.L, r.q(m) > 1, emod(r.Q, r.q(m)) == 0, r.Q > 0), z3.And(emod(t, r.q(m)) == emod(p, r.q(m)), z3.Implies(emod(d, r.q(m)) == 0, emod(p, r.q(m)) == 0))), patterns=[r.q(m)])] if any(x.eq(d) for x in p.children()) else []
def new_rns(c):
    return [Ptr(Obj("RNS", next(k for k, d in enumerate(c.ex.p.types) if d["k"] == "named" and d["name"] == "RNSReconstructor"), "sym"))]
def nr_post(c):
    s = c.res[0]; r = RNS(c, None).set_ring(c[0]); r.r = s; g, q = c.fld(s, "gad"), c.fld(s, "qBig")
    return [("gadget", z3.And(Z(c.len(g)) == r.L, r.gadget(lambda j: Z(c.at(g, j))))), ("half of the product", Z(c.val(c.fld(s, "qHalf"))) == r.Q / 2), ("moduli as integers", z3.And(Z(c.len(q)) == r.L, c.all(0, r.L, lambda k: Z(c.at(q, k)) == r.q(k), lambda k: c.at(q, k)))),
            ("the ring", same_place(c.fld(s, "ringQ"), c[0]))]
def same_place(a, b): return z3.BoolVal(isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and tuple(a.path) == tuple(b.path))
con(JD + "newRNSReconstructor", pre=lambda c: ring_ok(c, c[0]), mods=lambda c: [], loops={0: Loop(inv=rns_inv, end=rns_end)}, post=nr_post)
# ---- the digits' base
def nep_base(l):
    """the number that is replaced by its root"""
    return l.call("BigInt")
def nep_inv(l):
    b = Z(l.val(nep_base(l))); k = Z(l.v(0)); return [("power of the base", z3.And(k >= 0, b > 1, bpow_(b, Z(l.ex.pow2(k))) == gen.Q - 1))]
def nep_end(l):
    """theorem power_of_root; and a root is smaller than its square"""
    s, b = Z(l.val(nep_base(l))), Z(l.head.val(nep_base(l))); k = Z(l.head.v(0)); e = Z(l.ex.pow2(k)); f = Z(l.ex.pow2(z3.simplify(k + 1)))
    return [z3.Implies(z3.And(s * s == b, k >= 0, s >= 0), bpow_(s, f) == bpow_(b, e)), z3.Implies(z3.And(s * s == b, s >= 0, b > 1), z3.And(s > 1, s < b))]
con(JD + "newEncodeParameters", pre=lambda c: [("an odd modulus", gen.Q > 2)], mods=lambda c: [], panics=lambda c: True, setup=lambda c: c.ex.ax.append(bpow_(gen.Q - 1, z3.IntVal(1)) == gen.Q - 1),
    loops={0: Loop(inv=nep_inv, end=nep_end, dec=lambda l: l.val(nep_base(l)))},
    post=lambda c: (lambda r: [("modulus is base^digits + 1", gen.Q == bpow_(Z(r.f[0]), Z(r.f[1])) + 1), ("a base of more than one", Z(r.f[0]) > 1), ("at least one digit", Z(r.f[1]) >= 1)])(c.res[0]))
# ---- well-formed proofs
class Shape:
    """a vector p of n elements of the ring g, in reduced form"""
    def __init__(self, c, g, n, p): self.c, self.n, self.p = c, Z(n), p; self.r = RNS(c, None); self.r.subs = c.fld(g, "SubRings", True); self.L = Z(c.len(self.r.subs, True)); self.N = Z(c.fld(self.r.sub(0), "N", True))
    def nrows(self, i): return Z(self.c.len(rows(self.c.ex.elem(self.p, i, self.c.st0)), True))
    def row(self, i, l): return row(self.c, self.c.ex.elem(self.p, i, self.c.st0), l, True)
    def ncols(self, i, l): return Z(self.c.len(self.row(i, l), True))
    def x(self, i, l, k): return Z(self.c.old(self.row(i, l), k))
    def ok(self, i=None, l=None, k=None):
        """vector entries below i, and of entry i the rows below l, and of row l the residues below k"""
        a, b, d = z3.Ints("i!shape l!shape k!shape"); n = self.n if i is None else i; out = []
        def bounds(u): return z3.And(u >= 0, u < n)
        out.append(FA([a], z3.Implies(bounds(a), self.nrows(a) == self.L), patterns=[self.nrows(a)]))
        out.append(FA([a, b], z3.Implies(z3.And(bounds(a), b >= 0, b < self.L), self.ncols(a, b) == self.N), patterns=[self.ncols(a, b)]))
        out.append(FA([a, b, d], z3.Implies(z3.And(bounds(a), b >= 0, b < self.L, d >= 0, d < self.N), self.x(a, b, d) < self.r.q(b)), patterns=[self.x(a, b, d)]))
        if l is not None:
            out.append(self.nrows(i) == self.L); out.append(FA([b], z3.Implies(z3.And(b >= 0, b < l), self.ncols(i, b) == self.N), patterns=[self.ncols(i, b)]))
            out.append(FA([b, d], z3.Implies(z3.And(b >= 0, b < l, d >= 0, d < self.N), self.x(i, b, d) < self.r.q(b)), patterns=[self.x(i, b, d)]))
        if k is not None:
            out.append(self.ncols(i, l) == self.N); out.append(FA([d], z3.Implies(z3.And(d >= 0, d < k), self.x(i, l, d) < self.r.q(l)), patterns=[self.x(i, l, d)]))
        return z3.And(*out)
    def good(self):
        n = num(self.n); each = [self.ok(z3.IntVal(i), self.L) for i in range(n)] if isinstance(n, int) and n < 4 else []
        return z3.And(Z(self.c.len(self.p, True)) == self.n, self.ok(), *each)
def ipv(c): return Shape(c, c[0], c[1], c[2])
con(JD + "isPolyVec", pre=lambda c: [("at least one modulus", ipv(c).L >= 1), ("ring degree", ipv(c).N >= 0)], mods=lambda c: [], result=lambda c: [c.ex.fresh("wellformed", BOOL)],
    loops={0: Loop(inv=lambda l: [("entries so far", ipv(l.c).ok(Z(l.idx())))]), 1: Loop(inv=lambda l: [("rows so far", ipv(l.c).ok(Z(l.idx(1)), Z(l.idx())))]), 2: Loop(inv=lambda l: [("residues so far", ipv(l.c).ok(Z(l.idx(2)), Z(l.idx(1)), Z(l.idx())))])},
    post=lambda c: [("exactly the reduced vectors of that length", B(c.res[0]) == ipv(c).good())])
# ---- the vectors of powers
def pr(c, *n): return Z(c[0].f[[f["name"] for f in c.ex.p.ut(ptype(c))["fields"]].index(n[0])]) if len(n) == 1 else None
def ptype(c): return next(k for k, d in enumerate(c.ex.p.types) if d["k"] == "named" and d["name"] == "Parameters" and d["pkg"].endswith("/jindo"))
def pfield(c, s, *n):
    """a parameter, from the struct or the place it is kept in"""
    return c.fld(s, n[-1]) if not isinstance(s, StructV) else s.f[[f["name"] for f in c.ex.p.ut(ptype(c))["fields"]].index(n[-1])]
def vrf(m): return "(*%sVerifier[E]).%s" % (JD, m)
class WF:
    def __init__(self, c): self.c, self.v, self.com, self.y, self.pf = c, c[0], c[1], c[2], c[3]
    def par(self, n): return sub(self.c, self.v, "params", n, old=True)
    def shape(self, ring, n, p): return Shape(self.c, self.par(ring), n, p)
    def fields(self):
        f = lambda n: self.c.fld(self.pf, n, True); q, o = "ringQ", "ringQOut"; p = self.par
        return [("inner commitments", self.shape(o, Z(p("inComDcmpLen")), f("InCommit"))), ("partial evaluations", self.shape(q, Z(p("cols")), f("Partial"))), ("encodings", self.shape(q, Z(p("rows")), f("Encode"))), ("blinding", self.shape(q, Z(p("mlweRank")) + Z(p("inMSISRank")), f("MLWE")))]
    def mask(self):
        m = self.c.fld(self.pf, "PartialMask", True); c = self.c; r = RNS(c, None); r.subs = c.fld(self.par("ringQ"), "SubRings", True); L = Z(c.len(r.subs)); N = Z(c.fld(r.sub(0), "N", True)); l, k = z3.Ints("l!mask k!mask"); w = row(c, m, l, True); n = Z(c.len(w, True)); x = Z(c.old(w, k))
        return z3.And(Z(c.len(rows(m), True)) == L, FA([l], z3.Implies(z3.And(l >= 0, l < L), n == N), patterns=[n]), FA([l, k], z3.Implies(z3.And(l >= 0, l < L, k >= 0, k < N), x < r.q(l)), patterns=[x]))
    def commitment(self, i):
        return self.shape("ringQOut", Z(self.par("outMSISRank")), self.c.fld(self.c.ex.elem(self.com, i, self.c.st0), "Value", True))
    def commitments(self, n):
        """those below n have the shape"""
        i, a, b, d = z3.Ints("i!com a!com b!com d!com"); s = self.commitment(i); m = Z(self.c.len(s.p, True)); g = z3.And(i >= 0, i < n)
        return z3.And(FA([i], z3.Implies(g, m == s.n), patterns=[m]), FA([i, a], z3.Implies(z3.And(g, a >= 0, a < s.n), s.nrows(a) == s.L), patterns=[s.nrows(a)]), FA([i, a, b], z3.Implies(z3.And(g, a >= 0, a < s.n, b >= 0, b < s.L), s.ncols(a, b) == s.N), patterns=[s.ncols(a, b)]),
                      FA([i, a, b, d], z3.Implies(z3.And(g, a >= 0, a < s.n, b >= 0, b < s.L, d >= 0, d < s.N), s.x(a, b, d) < s.r.q(b)), patterns=[s.x(a, b, d)]))
    def pre(self):
        out = []
        for n in ("ringQ", "ringQOut"): s = self.shape(n, 0, self.com); out.append(("ring " + n, z3.And(s.L >= 1, s.N >= 0)))
        return out
def wf_post(c):
    w = WF(c); ok = B(c.res[0]); b = Z(w.par("batch"))
    return [("accepted only with a commitment and an evaluation for every polynomial", z3.Implies(ok, z3.And(Z(c.len(w.com)) == b, Z(c.len(w.y)) == b))), ("accepted only with reduced commitments of the right size", z3.Implies(ok, w.commitments(b)))] + \
           [("accepted only with reduced %s of the right number" % n, z3.Implies(ok, s.good())) for n, s in w.fields()] + [("accepted only with a reduced mask", z3.Implies(ok, w.mask()))]
con(vrf("isWellFormed"), pre=lambda c: WF(c).pre(), mods=lambda c: [], result=lambda c: [c.ex.fresh("wellformed", BOOL)], post=wf_post,
    loops={0: Loop(inv=lambda l: [("commitments so far", WF(l.c).commitments(Z(l.idx())))])})
from lem import fpow, pow_step
def par(c, n): return Z(pfield(c, c[0], n))
def pows(c, s, x, n): return c.all(0, n, lambda i: c.at(s, i) == fpow(x, i), lambda i: c.at(s, i))
def new_elems(c, n):
    t = c.ex.call_results[0]; return SliceV(Obj("powers", t, "sym", "elems"), (), 0, n, n, t)
con(JD + "rightVec", pre=lambda c: [("at least one column and slot", par(c, "cols") * par(c, "slots") >= 1)], mods=lambda c: [], result=lambda c: [new_elems(c, z3.simplify(par(c, "cols") * par(c, "slots")))],
    setup=lambda c: c.ex.ax.extend(pow_step(c.val(c[1], True), 0)), loops={0: Loop(inv=lambda l: [("powers so far", z3.And(pows(l.c, slices_made(l)[0], l.c.val(l.c[1], True), l.idx()), Z(l.idx()) >= 1))], facts=lambda l: pow_step(l.c.val(l.c[1], True), z3.simplify(Z(l.idx()) - 1)))},
    post=lambda c: [("entry i is the i-th power", z3.And(Z(c.len(c.res[0])) == par(c, "cols") * par(c, "slots"), pows(c, c.res[0], c.val(c[1], True), par(c, "cols") * par(c, "slots"))))])
def slices_made(l): return [l.env[i["n"]] for b in l.fn.blocks for i in b["ins"] if i["op"] == "makeslice" and i.get("n") in l.env]
def lv_skip(c): return fpow(c.val(c[1], True), z3.simplify(par(c, "cols") * par(c, "slots")))
def lv_inv(l):
    s = lv_skip(l.c); return [("powers so far", z3.And(pows(l.c, slices_made(l)[0], s, l.idx()), Z(l.idx()) >= 1, l.val(l.call("Exp")) == s))]
con(JD + "leftVec", pre=lambda c: [("at least one row", par(c, "rows") >= 1), ("columns and slots", z3.And(par(c, "cols") * par(c, "slots") >= 0, par(c, "cols") * par(c, "slots") < (1 << 62)))], mods=lambda c: [], result=lambda c: [new_elems(c, par(c, "rows"))],
    loops={0: Loop(inv=lv_inv, facts=lambda l: pow_step(lv_skip(l.c), z3.simplify(Z(l.idx()) - 1)) + pow_step(lv_skip(l.c), 0))}, hints=lambda c: pow_step(lv_skip(c), 0),
    post=lambda c: [("entry i is the power at row i", z3.And(Z(c.len(c.res[0])) == par(c, "rows"), pows(c, c.res[0], lv_skip(c), par(c, "rows") - 1))), ("the last row is that of the blinding polynomial", c.at(c.res[0], par(c, "rows") - 1) == c.val(c[1], True))])
