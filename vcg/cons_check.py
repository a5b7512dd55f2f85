"""Contracts of the verifier's checks: what it accepts is exactly the batched identity at the evaluation point."""
from cons_buckler import *
from cons_buckler import CONS as _BK
from gen import shape
import gen
CONS = dict(_BK)
def con(name, **k): CONS[name] = Con(name, **k)
def VF(m): return "(*%sVerifier[E]).%s" % (BK, m)
# ---- the value of a batch of constraints (lean/batch.lean)
# term o i j k: the j-th term of constraint i of batch o, its first k factors multiplied;  csum o i j: the first j terms added;  batch o i: the first i constraints, combined by Horner's rule
# (o stands for the constraints, the values and the batching constant)
term_ = z3.Function("term", INT, INT, INT, INT, F); csum_ = z3.Function("constraint", INT, INT, INT, F); hb_ = z3.Function("batch", INT, INT, F)
BATCHES = {}
class Batch:
    """constraints cs evaluated on the witness values w and the public values pw, batched with beta (in the state before)"""
    def __init__(self, c, cs, beta, w, pw):
        self.c, self.cs, self.beta, self.w, self.pw = c, cs, beta, w, pw
        leaves = self.leaves(cs) + self.leaves(w) + self.leaves(pw); gen._keep.append((leaves, beta))
        key = (c.ex, tuple(x.get_id() for x in leaves), beta.get_id()) + tuple((x.obj.id, str(x.path), str(x.off)) for x in (cs, w, pw))
        self.o = z3.IntVal(BATCHES.setdefault(key, len(BATCHES)))
        self.n = Z(c.len(cs, True))
        et = c.ex.p.ut(cs.t)["elem"]; self.fields = {f["name"]: k for k, f in enumerate(c.ex.p.ut(et)["fields"])}
    def leaves(self, s):
        """the contents the slice's elements are made of"""
        c = self.c; et = c.ex.p.ut(s.t)["elem"]
        return [c.ex.leaf(c.st0, s.obj, shape(s.path + (("*", 0),)) + sh, INT if lt == "len" else c.ex.sort_of(k), lt) for sh, k, lt in c.ex.leaves(et) if k != "opaque"]
    def f(self, i, name): return self.c.ex.elem(self.cs, i, self.c.st0).f[self.fields[name]]
    def at(self, s, j): return self.c.old(s, j)
    def terms(self, i): return Z(self.f(i, "witness").len)
    def factors(self, i, j): return Z(self.c.ex.elem(self.f(i, "witness"), j, self.c.st0).len)
    def wid(self, i, j, k): return Z(self.at(self.c.ex.elem(self.f(i, "witness"), j, self.c.st0), k))
    def coeff(self, i, j): return self.at(self.f(i, "coeffs"), j)
    def has(self, i, j): return B(self.at(self.f(i, "hasCoeffPublicWitness"), j))
    def pid(self, i, j): return Z(self.at(self.f(i, "coeffsPublicWitness"), j))
    def start(self, i, j): return z3.If(self.has(i, j), fmul(self.coeff(i, j), self.at(self.pw, self.pid(i, j))), self.coeff(i, j))
    def term(self, i, j, k=None): return term_(self.o, Z(num(i)), Z(num(j)), Z(num(k)) if k is not None else self.factors(i, j))
    def csum(self, i, j=None): return csum_(self.o, Z(num(i)), Z(num(j)) if j is not None else self.terms(i))
    def batch(self, i=None): return hb_(self.o, Z(num(i)) if i is not None else self.n)
    def next(self, i): return z3.simplify(Z(num(i)) + 1)
    def term_step(self, i, j, k): return [self.term(i, j, 0) == self.start(i, j), self.term(i, j, self.next(k)) == fmul(self.term(i, j, k), self.at(self.w, self.wid(i, j, k)))]
    def csum_step(self, i, j): return [self.csum(i, 0) == fint(0), self.csum(i, self.next(j)) == fadd(self.csum(i, j), self.term(i, j))]
    def batch_step(self, i): return [self.batch(0) == fint(0), self.batch(self.next(i)) == fadd(fmul(self.batch(i), self.beta), self.csum(i))]
    def valid(self):
        c = self.c; i, j, k = z3.Ints("i!b j!b k!b"); e = c.ex
        ni, nj = z3.And(i >= 0, i < self.n), z3.And(j >= 0, j < self.terms(i))
        ls = [Z(self.f(i, n).len) for n in ("coeffs", "hasCoeffPublicWitness", "coeffsPublicWitness")]
        return [("a coefficient for every term", z3.ForAll([i], z3.Implies(ni, z3.And(*[l == self.terms(i) for l in ls])), patterns=ls + [self.terms(i)])),
                ("public values in range", z3.ForAll([i, j], z3.Implies(z3.And(ni, nj, self.has(i, j)), z3.And(self.pid(i, j) >= 0, self.pid(i, j) < Z(c.len(self.pw, True)))), patterns=[self.pid(i, j)])),
                ("witnesses in range", z3.ForAll([i, j, k], z3.Implies(z3.And(ni, nj, k >= 0, k < self.factors(i, j)), z3.And(self.wid(i, j, k) >= 0, self.wid(i, j, k) < Z(c.len(self.w, True)))), patterns=[self.wid(i, j, k)]))]
def ec(c): return Batch(c, c[2], c.val(c[1], True), c[3], c[4])
def ecl(l): return ec(l.c)
def ec_inv(l, d):
    """d loops deep: what the accumulators of this loop and of those around it hold"""
    b = ecl(l); I = [l.idx(k) for k in range(d, -1, -1)]
    return [("constraints so far", l.val(l.acc(d)) == b.batch(I[0])), ("terms so far", l.val(l.acc(d - 1)) == b.csum(I[0], I[1]) if d > 0 else True), ("factors so far", l.val(l.acc(0)) == b.term(*I) if d > 1 else True)]
con(VF("evalCircuit"), pre=lambda c: ec(c).valid(), mods=lambda c: [], result=lambda c: [c.ex.new_cell(c.st)],
    loops={0: Loop(inv=lambda l: ec_inv(l, 0), facts=lambda l: ecl(l).batch_step(l.idx())),
           1: Loop(inv=lambda l: ec_inv(l, 1), facts=lambda l: ecl(l).csum_step(l.idx(1), l.idx())),
           2: Loop(inv=lambda l: ec_inv(l, 2), facts=lambda l: ecl(l).term_step(l.idx(2), l.idx(1), l.idx()))},
    post=lambda c: [("the batch, by Horner's rule", c.val(c.res[0]) == ec(c).batch())])

# ---- the checks
def cx(c): return c.fld(c[0], "ctx", True)
def cxf(c, n): return c.fld(cx(c), n, True)
def jrank(c):
    """degree bound of the commitment scheme"""
    sv = c.fld(c[0], "JindoParams", True); t = [f["t"] for f in c.ex.p.ut(c.ex.type_at_p(c[0], c.st0))["fields"] if f["name"] == "JindoParams"][0]
    return Z(sv.f[[f["name"] for f in c.ex.p.ut(t)["fields"]].index("rank")])
def crank(c): return Z(cxf(c, "rank"))
def ac_(c): return Batch(c, cxf(c, "arithConstraints"), c.val(c[1], True), c[4], c[5])
def oval(c, k): return c.val(c[k], True)
con(VF("arithCheck"), pre=lambda c: ac_(c).valid(), mods=lambda c: [], result=lambda c: [c.ex.fresh("accepted", BOOL)],
    post=lambda c: [("accepts exactly when the batch is the quotient times the vanishing value", B(c.res[0]) == (ac_(c).batch() == fmul(oval(c, 3), oval(c, 2))))])
# the declared sums, batched like the constraints
hs_ = z3.Function("sums", INT, INT, F)
class Sums:
    def __init__(self, c, beta):
        self.c, self.beta, self.s = c, beta, cxf(c, "sumCheckSums"); self.n = Z(c.len(self.s, True)); self.o = z3.IntVal(BATCHES.setdefault((c.ex, "sums", beta.get_id()), len(BATCHES))); gen._keep.append(beta)
    def val(self, i=None): return hs_(self.o, Z(num(i)) if i is not None else self.n)
    def step(self, i): return [self.val(0) == fint(0), self.val(z3.simplify(Z(num(i)) + 1)) == fadd(fmul(self.val(i), self.beta), finj_(Z(self.c.old(self.s, i))))]
def sc(c): return Batch(c, cxf(c, "sumCheckConstraints"), c.val(c[1], True), c[9], c[10])
def ss(c): return Sums(c, c.val(c[1], True))
def low_degree(c, x, lo, hi): return oval(c, hi) == fmul(fpow(oval(c, x), z3.simplify(jrank(c) - (crank(c) - 1))), oval(c, lo))
def ranks_ok(c): return [("ranks in range", z3.And(crank(c) >= 1, jrank(c) >= crank(c) - 1, jrank(c) < (1 << 48)))]
def sc_identity(c):
    beta = oval(c, 1); lhs = fadd(fmul(sc(c).batch(), beta), oval(c, 2))
    mean = fmul(fmul(ss(c).val(), beta), finv(fint(crank(c))))
    return lhs == fadd(fadd(fadd(fmul(oval(c, 6), oval(c, 4)), fmul(oval(c, 7), oval(c, 3))), oval(c, 5)), mean)
con(VF("sumCheck"), pre=lambda c: sc(c).valid() + ranks_ok(c), mods=lambda c: [], result=lambda c: [c.ex.fresh("accepted", BOOL)],
    loops={0: Loop(inv=lambda l: [("sums so far", l.val(l.acc()) == ss(l.c).val(l.idx()))], facts=lambda l: ss(l.c).step(l.idx()))},
    post=lambda c: [("accepts exactly when the remainder has low degree and the batched identity with the declared sums holds", B(c.res[0]) == z3.And(low_degree(c, 3, 7, 8), sc_identity(c)))])
# ---- the linear check
from cons_enc import Enc, encv_
from cons_enc import CONS as _EN
CONS.update({k: v for k, v in _EN.items() if k not in CONS})
TRP = "iface " + BK + "LinearChecker.TransposeTo"
# tra(id, a, off, n, k): entry k of what checker id makes of the vector a[off:off+n]
tra_ = z3.Function("transposed", INT, AR, INT, INT, INT, F)
# encpow(b, N, g, x): the value at x of the encoding of 1, b, ..., b^(N-1);  trpow(id, b, N, k): entry k of the transposed powers;  enctr(id, b, N, g, x): the value at x of their encoding
encpow_ = z3.Function("powers_value", F, INT, F, F, F); trpow_ = z3.Function("transposed_powers", INT, F, INT, INT, F); enctr_ = z3.Function("transposed_powers_value", INT, F, INT, F, F, F)
def tra_id(c): return c.ex.iface_id(c[0], c.st0)
con(TRP, trusted=True, pre=lambda c: [("vectors of equal length", Z(c.len(c[1])) == Z(c.len(c[2])))], mods=lambda c: [c[1]],
    post=lambda c: [("a function of the checker and the vector", c.all(0, c.len(c[1]), lambda k: c.at(c[1], k) == tra_(tra_id(c), *arr(c, c[2], True), Z(c.len(c[2], True)), k), lambda k: c.at(c[1], k)))])
hl_ = z3.Function("linear_batch", INT, INT, INT, F)
class Lin:
    """L(a, b): the constraints of the first a checkers and the first b of checker a, batched"""
    def __init__(self, c):
        self.c = c; self.N = crank(c); self.beta, self.pow, self.x = oval(c, 1), oval(c, 2), oval(c, 4); self.chk = cxf(c, "linCheckers"); self.map = cxf(c, "linCheckConstraints"); self.evals = c[10]
        self.ecd = c.fld(c[0], "ecd", True); t = c.fld(self.ecd, "ntt", True); self.t = t; self.g = root(c, c.fld(t, "tw", True), Z(c.fld(t, "rank", True)), "cyc"); self.na = Z(c.len(self.chk, True))
        self.o = z3.IntVal(0)
    def id(self, a): return self.c.ex.iface_id(self.c.ex.elem(self.chk, a, self.c.st0), self.c.st0)
    def pairs(self, a):
        ex = self.c.ex; return ex.lookup(self.map, self.id(a), {}, self.c.st0)
    def nb(self, a): return Z(self.pairs(a).len)
    def w(self, a, b, k): return Z(self.c.ex.elem(self.pairs(a), b, self.c.st0).e[k])
    def L(self, a, b): return hl_(self.o, Z(num(z3.simplify(Z(num(a))))), Z(num(z3.simplify(Z(num(b))))))
    def base(self): return encpow_(self.pow, self.N, self.g, self.x)
    def tr(self, a): return enctr_(self.id(a), self.pow, self.N, self.g, self.x)
    def term(self, a, b): return fsub(fmul(self.tr(a), self.c.old(self.evals, self.w(a, b, 1))), fmul(self.base(), self.c.old(self.evals, self.w(a, b, 0))))
    def start(self): return [self.L(0, 0) == fint(0)]
    def next_a(self, a): return [self.L(Z(a) + 1, 0) == self.L(a, self.nb(a))]
    def next_b(self, a, b): return [self.L(a, Z(b) + 1) == fadd(fmul(self.L(a, b), self.beta), self.term(a, b))]
    def total(self): return self.L(self.na, 0)
    def defs(self, cur, a=None):
        """the values of the encodings that occur are those of the powers and of the transposed powers (extensionality)"""
        out = []; x = self.x; k = z3.Int("k!ld"); seen = []
        for t in scan(cur, encv_):
            if not all(closed(y) for y in t[:4]) or any(t[0].eq(s[0]) and t[1].eq(s[1]) for s in seen): continue
            seen.append(t); v, vo = t[0], t[1]; d, e = z3.FreshConst(INT, "d"), z3.FreshConst(INT, "d"); ev = encv_(*t[:4], x)
            out.append(z3.Or(z3.And(d >= 0, d < self.N, v[vo + d] != fpow(self.pow, d)), ev == encpow_(self.pow, self.N, self.g, x)))
            if a is not None: out.append(z3.Or(z3.And(e >= 0, e < self.N, v[vo + e] != trpow_(self.id(a), self.pow, self.N, e)), ev == enctr_(self.id(a), self.pow, self.N, self.g, x)))
        seen = []
        for t in scan(cur, tra_):
            if not all(closed(y) for y in t[:4]) or any(all(y.eq(z) for y, z in zip(t[:4], s)) for s in seen): continue
            seen.append(t[:4]); v, vo = t[1], t[2]; d = z3.FreshConst(INT, "d"); p = tra_(*t[:4], k)
            out.append(z3.Or(z3.And(d >= 0, d < self.N, v[vo + d] != fpow(self.pow, d)), t[3] != self.N, z3.ForAll([k], p == trpow_(t[0], self.pow, self.N, k), patterns=[p])))
        return out
    def valid(self):
        c = self.c; a, b = z3.Ints("a!l b!l"); lim = Z(c.len(self.evals, True)); na = z3.And(a >= 0, a < self.na)
        pe = c.fld(c[0], "polyEval", True); pr = Z(c.fld(base(c, pe), "rank", True)) if False else Z(c.fld(c.fld(pe, "baseOperator", True), "rank", True))
        return valid(c, self.t, "cyc") + [("encoder of the circuit's rank", z3.And(Z(c.fld(self.t, "rank", True)) == self.N, Z(c.fld(self.ecd, "embedRank", True)) >= self.N, pr >= self.N)),
            ("witnesses in range", z3.And(*[z3.ForAll([a, b], z3.Implies(z3.And(na, b >= 0, b < self.nb(a)), z3.And(self.w(a, b, i) >= 0, self.w(a, b, i) < lim)), patterns=[self.w(a, b, i)]) for i in (0, 1)]))]
def li_identity(c):
    n = Lin(c); return fadd(fmul(n.total(), n.beta), oval(c, 3)) == fadd(fadd(fmul(oval(c, 7), oval(c, 5)), fmul(oval(c, 8), n.x)), oval(c, 6))
def li_pow(l):
    n = Lin(l.c); v = slices_made(l)[0]; i = Z(l.v("i")); return [("powers so far", l.c.all(0, i, lambda k: l.c.at(v, k) == fpow(n.pow, k), lambda k: l.c.at(v, k)))]
con(VF("linCheck"), pre=lambda c: Lin(c).valid() + ranks_ok(c), mods=lambda c: [], result=lambda c: [c.ex.fresh("accepted", BOOL)],
    loops={0: Loop(inv=li_pow, facts=lambda l: pow_step(Lin(l.c).pow, z3.simplify(Z(l.v("i")) - 1)) + pow_step(Lin(l.c).pow, 0)),
           1: Loop(inv=lambda l: []),
           2: Loop(inv=lambda l: [("checkers so far", l.val(l.acc()) == Lin(l.c).L(l.idx(), 0))], facts=lambda l: Lin(l.c).start() + Lin(l.c).next_a(l.idx())),
           3: Loop(inv=lambda l: [("constraints so far", l.val(l.acc()) == Lin(l.c).L(l.idx(1), l.idx()))], facts=lambda l: Lin(l.c).defs(l.c, l.idx(1)) + Lin(l.c).next_b(l.idx(1), l.idx()) + Lin(l.c).next_a(l.idx(1)))},
    post=lambda c: [("accepts exactly when the remainder has low degree and the batched identity holds", B(c.res[0]) == z3.And(low_degree(c, 4, 8, 9), li_identity(c)))])
