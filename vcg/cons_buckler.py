"""Contracts of buckler's digit decompositions and linear checkers."""
from cons_ntt import *
from cons_ntt import CONS as _BP
import gen
from stubs import bitlen_
CONS = dict(_BP)
def con(name, **k): CONS[name] = Con(name, **k)
BK = "github.com/sp301415/ringo-snark/buckler."
# rem x j = floor(x / 2^j)          (lean/digits.lean)
rem_ = z3.Function("halved", INT, INT, INT)
def rem_step(x, j):
    x, j = Z(x), Z(num(j)); a, b = rem_(x, j), rem_(x, z3.simplify(j + 1))
    return [rem_(x, z3.IntVal(0)) == x, z3.Implies(z3.And(j >= 0, x >= 0), z3.And(2 * b <= a, a <= 2 * b + 1, b >= 0))]
def rem_top(x):       # theorem halved_top: x / 2^(bits-1) = 1 and x / 2^bits = 0
    x = Z(x); n = bitlen_(x); return [z3.Implies(x > 0, z3.And(rem_(x, z3.simplify(n - 1)) == 1, rem_(x, n) == 0))]
def good_base(c, base, B, n, old=False):
    """digit j is half of what remains, rounded up"""
    if isinstance(base, SliceV) and base.obj is None: return z3.BoolVal(True)
    return c.all(0, n, lambda j: c.at(base, j, old) == rem_(B, j) - rem_(B, z3.simplify(j + 1)), lambda j: c.at(base, j, old))
def db_x(c): return Z(c.val(c[0], True))
def slices_made(l, op="makeslice"): return [l.env[i["n"]] for b in l.fn.blocks for i in b["ins"] if i["op"] == op and i.get("n") in l.env]
def db_outer(l):
    x = db_x(l.c); i = Z(l.v("i")); return [("digits so far", good_base(l.c, slices_made(l)[0], x, i))]
def db_inner(l):
    x = db_x(l.c); i, j = Z(l.v("i")), Z(l.v("j")); s = [l.env[k["n"]] for b in l.fn.blocks for k in b["ins"] if k["op"] == "alloc" and k.get("comment") == "new" and k.get("n") in l.env][-1]
    return [("sum of the digits so far", Z(l.val(s)) == x - rem_(x, j))]
def new_bigs(c, name):
    """a slice of integers nobody else refers to"""
    ex = c.ex; t = ex.call_results[0]; n = ex.fresh("n"); ex.ax.append(z3.And(n >= 0, n < (1 << 48))); return SliceV(Obj(name, t, "sym", "elems"), (), 0, n, n, t)
con(BK + "decomposeBase", result=lambda c: [new_bigs(c, "digits")], pre=lambda c: [("bound not negative", db_x(c) >= 0)], mods=lambda c: [],
    setup=lambda c: c.ex.ax.extend(rem_top(db_x(c)) + rem_step(db_x(c), bitlen_(db_x(c)) - 1)),
    loops={0: Loop(inv=db_outer, facts=lambda l: rem_step(db_x(l.c), l.v("i"))), 1: Loop(inv=db_inner, facts=lambda l: rem_step(db_x(l.c), l.v("j")))},
    post=lambda c: [("as many digits as the bound has bits", Z(c.len(c.res[0])) == bitlen_(db_x(c))), ("digit weights halve what remains", good_base(c, c.res[0], db_x(c), c.len(c.res[0]))), ("nothing remains", rem_(db_x(c), bitlen_(db_x(c))) == 0)])
# the greedy remainders: g 0 = centred value, g (j+1) = what digit j leaves
gr_ = z3.Function("greedy_remainder", INT, INT)
BND = z3.Int("bound")          # any bound the base belongs to
def dg_x(c): x, q = Z(c.val(c[0], True)), c.val(c[2], True); return z3.If(x > Z(c.ex.qr(q, 2, c.st)[0]), x - Z(q), x)
def dg_step(c, j):
    j = Z(num(j)); g, b = gr_(j), Z(c.old(c[1], j))
    return [gr_(z3.IntVal(0)) == dg_x(c), gr_(z3.simplify(j + 1)) == z3.If(g >= b, g - b, z3.If(g <= -b, g + b, g))] + rem_step(BND, j)
def dg_digit(c, d, j): return z3.And(d >= -1, d <= 1, gr_(j) - gr_(z3.simplify(Z(j) + 1)) == z3.If(d == 1, Z(c.old(c[1], j)), z3.If(d == -1, -Z(c.old(c[1], j)), 0)))
def dg_inv(l):
    c = l.c; i = Z(num(l.v(0))) + 1; xs = l.call("Set"); o = slices_made(l)[0]
    return [("what remains", z3.And(Z(l.val(xs)) == gr_(i), gr_(i) <= rem_(BND, i), -gr_(i) <= rem_(BND, i))), ("digits so far", c.all(0, i, lambda j: dg_digit(c, Z(c.at(o, j)), j), lambda j: c.at(o, j)))]
con(BK + "decomposeBig", mods=lambda c: [], pre=lambda c: [("modulus positive", Z(c.val(c[2])) > 0), ("a base of the bound", z3.And(BND >= 0, good_base(c, c[1], BND, c.len(c[1])), rem_(BND, Z(c.len(c[1]))) == 0)), ("value within the bound", z3.And(dg_x(c) <= BND, -dg_x(c) <= BND))],
    setup=lambda c: c.ex.ax.extend(dg_step(c, 0)),
    loops={0: Loop(inv=dg_inv, facts=lambda l: dg_step(l.c, z3.simplify(Z(num(l.v(0))) + 1)))},
    post=lambda c: [("a digit for every weight", Z(c.len(c.res[0])) == Z(c.len(c[1]))), ("digits between -1 and 1 that account for what they take", c.all(0, c.len(c[1]), lambda j: dg_digit(c, Z(c.at(c.res[0], j)), j), lambda j: c.at(c.res[0], j))),
                    ("starting from the centred value", gr_(z3.IntVal(0)) == dg_x(c)), ("nothing remains", gr_(Z(c.len(c[1]))) == 0)])

# ---- modular inverse
# bez x m u a: m divides u*x - a.  minv m x r: 0 <= r < m and m divides x*r - 1.   gcd: greatest common divisor       (lean/linear.lean)
bez_ = z3.Function("bezout", INT, INT, INT, INT, BOOL)
minv_ = z3.Function("inverse_mod", INT, INT, INT, BOOL)
gcd_ = z3.Function("gcd", INT, INT, INT)
W64 = 1 << 64
def mi_xm(l):
    m = Z(l.arg(1)); return Z(l.ex.qr(l.arg(0), m, l.st)[1]), m
def mi_inv(l):
    x, m = mi_xm(l); a, b, u, v = (Z(l.v(n)) for n in "abuv")
    return [("nothing negative", z3.And(a >= 0, b >= 0, z3.Or(a > 0, b > 0))), ("greatest common divisor kept", gcd_(a, b) == gcd_(x, m)), ("a and b are multiples of x modulo m", z3.And(bez_(x, m, u, a), bez_(x, m, v, b)))]
def mi_facts(l):
    x, m = mi_xm(l); a, b, u, v = (Z(l.v(n)) for n in "abuv"); w, c = z3.Int("w!mi"), z3.Int("c!mi")
    q, r = (Z(t) for t in l.ex.qr(a, b, l.st)); K = log_(m)
    new = z3.simplify((u - z3.simplify(q * v) % W64) % W64)
    return [z3.Implies(z3.And(b > 0, a >= 0), gcd_(a, b) == gcd_(b, r)), z3.Implies(a >= 0, gcd_(a, z3.IntVal(0)) == a),      # theorems gcd_step, gcd_zero
            z3.Implies(z3.And(b > 0, a >= 0, K >= 0, m < W64, m == Z(l.ex.pow2(K)), bez_(x, m, u, a), bez_(x, m, v, b)),
                       z3.ForAll([w, c], z3.Implies(z3.And((w - (u - z3.simplify(q * v))) % W64 == 0, c == r), bez_(x, m, w, c)), patterns=[bez_(x, m, w, c)])),      # theorem bez_step
            z3.Implies(z3.And(m > 0, bez_(x, m, u, z3.IntVal(1))), minv_(m, Z(l.arg(0)), Z(l.ex.qr(u, m, l.st)[1])))]      # theorem bez_inverse
def mi_pre(c):
    m = Z(c[1]); return [("modulus a power of two", z3.And(ispow2(c.ex, m), m >= 1))]
def mi_setup(c):
    x, m = Z(c.ex.qr(c[0], c[1], c.st)[1]), Z(c[1])
    c.ex.ax.extend([bez_(x, m, z3.IntVal(1), x), bez_(x, m, z3.IntVal(0), m), gcd_(x, z3.IntVal(0)) == x, z3.Implies(z3.And(log_(m) >= 1, m == Z(c.ex.pow2(log_(m)))), (gcd_(x, m) == 1) == (Z(c[0]) % 2 == 1)), z3.Implies(m == 1, gcd_(x, m) == 1)])
con(BK + "modInverse", pre=mi_pre, result=lambda c: [c.ex.fresh("inverse")], mods=lambda c: [], setup=mi_setup, panics=lambda c: z3.And(Z(c[0]) % 2 == 0, Z(c[1]) > 1),
    loops={0: Loop(inv=mi_inv, facts=mi_facts, dec=lambda l: l.v("b"))},
    post=lambda c: [("inverse", minv_(Z(c[1]), Z(c[0]), Z(c.res[0]))), ("reduced", z3.And(Z(c.res[0]) >= 0, Z(c.res[0]) < Z(c[1]))), ("only odd numbers are invertible", z3.Or(Z(c[0]) % 2 == 1, Z(c[1]) == 1))])
def minv_facts(m, x, r):
    """theorem minv_mod: reducing the argument modulo 2^64 does not matter for a power of two that divides it"""
    m, x, r = Z(m), Z(x), Z(r); return [z3.Implies(z3.And(log_(m) >= 0, m == pow2_(log_(m)), m < W64), minv_(m, x, r) == minv_(m, x % W64, r))]
# ---- automorphisms as linear maps
def LC(t, m): return "(*%s%s[E]).%s" % (BK, t, m)
def ac(c, old=False): return c.fld(c[0], "eval", old), Z(c.fld(c[0], "idx", old)), Z(c.fld(c[0], "idxInv", old)), B(c.fld(c[0], "isNTT", old))
def ac_rank(c, e=None): e = e or ac(c)[0]; return Z(c.fld(c.fld(e, "baseOperator"), "rank"))
def ac_valid(c, p=None, e=None):
    e, d, di, f = ac(c) if p is None else (c.fld(p, "eval"), Z(c.fld(p, "idx")), Z(c.fld(p, "idxInv")), None); N = ac_rank(c, e)
    return [("rank a power of two", z3.And(ispow2(c.ex, N), N >= 1, N < (1 << 48))), ("index odd", d % 2 == 1), ("the other index is its inverse", z3.And(minv_(2 * N, d, di), di >= 0, di < 2 * N))]
def lin_io(N): return lambda c: [("vectors of the rank", z3.And(Z(c.len(c[1])) == N(c), Z(c.len(c[2])) == N(c)))]
def ac_res(c, N):
    e, d, di, f = ac(c); return Z(c.ex.qr(d, z3.simplify(2 * N), c.st0)[1])
def ac_fwd(c):
    N = ac_rank(c); d = ac_res(c, N); f = ac(c)[3]; K = log_(N); J = lambda i: aut_(i, d, N)
    o = lambda k: c.at(c[1], k); x = lambda k: c.old(c[2], k)
    return [("coefficient i goes to i*d mod 2N", implies(z3.Not(f), c.all(0, N, lambda i: z3.Implies(J(i) < N, o(J(i)) == x(i)), lambda i: [J(i), x(i)]))),
            ("negated on wrap-around", implies(z3.Not(f), c.all(0, N, lambda i: z3.Implies(J(i) >= N, o(J(i) - N) == fneg(x(i))), lambda i: [J(i), x(i)]))),
            ("values permuted", implies(f, c.all(0, N, lambda k: o(k) == x(rv(K, autn_(rv(K, k), d, N))), lambda k: o(k))))]
def ac_bwd(c):
    """the transpose of ac_fwd, entry by entry"""
    N = ac_rank(c); d = ac_res(c, N); f = ac(c)[3]; K = log_(N); J = lambda i: aut_(i, d, N)
    o = lambda k: c.at(c[1], k); x = lambda k: c.old(c[2], k)
    return [("coefficient i comes from i*d mod 2N", implies(z3.Not(f), c.all(0, N, lambda i: z3.Implies(J(i) < N, o(i) == x(J(i))), lambda i: [J(i)]))),
            ("negated on wrap-around", implies(z3.Not(f), c.all(0, N, lambda i: z3.Implies(J(i) >= N, o(i) == fneg(x(J(i) - N))), lambda i: [J(i)]))),
            ("values permuted back", implies(f, c.all(0, N, lambda k: o(rv(K, autn_(rv(K, k), d, N))) == x(k), lambda k: autn_(rv(K, k), d, N))))]
def ac_hints(c):      # theorems aut_inverse, autntt_inverse (the residue of the inverse is itself: it is reduced)
    e, d, di, f = ac(c, True); N = ac_rank(c); dr = ac_res(c, N); i = z3.Int("i!ai"); J = aut_(i, dr, N); A = autn_(i, dr, N); dq = Z(c.ex.qr(di, z3.simplify(2 * N), c.st0)[1])
    h = z3.And(minv_(2 * N, d, di), N >= 1, log_(N) >= 0, N == pow2_(log_(N)), d % 2 == 1, i >= 0, i < N)
    return [z3.ForAll([i], z3.Implies(h, z3.And(J >= 0, J < 2 * N, z3.Implies(J < N, aut_(J, dq, N) == i), z3.Implies(J >= N, aut_(J - N, dq, N) == i + N))), patterns=[J]),
            z3.ForAll([i], z3.Implies(h, z3.And(A >= 0, A < N, autn_(A, dq, N) == i)), patterns=[A])] + rv_all(c.ex, log_(N)) + [z3.Implies(z3.And(minv_(2 * N, d, di), N >= 1), di % 2 == 1)]      # theorem minv_odd
for _n, _p in (("TransformTo", ac_fwd), ("TransposeTo", ac_bwd)):
    con(LC("autChecker", _n), pre=lambda c: ac_valid(c) + lin_io(ac_rank)(c), mods=lambda c: [c[1]], setup=lambda c: c.ex.ax.extend(ac_hints(c)), post=_p, hints=ac_hints)
def named(ex, name, pkg):
    for k, d in enumerate(ex.p.types):
        if d["k"] == "named" and d["name"] == name and d.get("pkg", "").endswith(pkg): return k
def log_double(ex, N):      # theorem log2_double
    N = Z(N); K = log_(N); D = z3.simplify(2 * N); ex.pow2(z3.simplify(K + 1)); return [z3.Implies(z3.And(K >= 0, N == Z(ex.pow2(K))), z3.And(log_(D) == K + 1, D == Z(ex.pow2(log_(D)))))]
con(BK + "NewAutChecker", pre=lambda c: [("rank a power of two", z3.And(ispow2(c.ex, ac_rank(c, c[0])), ac_rank(c, c[0]) >= 1, ac_rank(c, c[0]) < (1 << 47)))], mods=lambda c: [], panics=lambda c: Z(c[1]) % 2 == 0,
    post=lambda c: ac_valid(c, c.res[0].v) + [("the evaluator's rank", ac_rank(c, c.fld(c.res[0].v, "eval")) == ac_rank(c, c[0])), ("index kept", Z(c.fld(c.res[0].v, "idx")) == Z(c[1])), ("form kept", B(c.fld(c.res[0].v, "isNTT")) == B(c[2]))],
    setup=lambda c: c.ex.ax.extend(log_double(c.ex, ac_rank(c, c[0]))),
    hints=lambda c: minv_facts(2 * ac_rank(c, c[0]), c[1], c.fld(c.res[0].v, "idxInv")))

# ---- the transform as a linear map
# tev(v, off, N, g, k) = sum over j < N of v[off+j] * (g^(2 rv(j) + 1))^k, the transposed transform
tev_ = z3.Function("transposed_transform", AR, INT, INT, F, INT, F)
class NC:
    def __init__(self, c, p=None):
        self.c, self.p = c, p or c[0]; self.t = c.fld(self.p, "ntt"); self.N = Z(c.fld(self.t, "rank")); self.tw = c.fld(self.t, "tw"); self.g = root(c, self.tw, self.N, "neg"); self.K = log_(self.N)
    def valid(self): return valid(self.c, self.t, "neg") + [("scale is the rank", self.c.val(self.c.fld(self.p, "scale")) == fint(self.N))]
    def point(self, k): return point("neg", self.g, self.K, k)
def nc_pre(c): n = NC(c); return n.valid() + [("vectors of the rank", z3.And(Z(c.len(c[1])) == n.N, Z(c.len(c[2])) == n.N))]
def nc_fwd(c): n = NC(c); return [("entry k is the polynomial's value at the k-th root", c.all(0, n.N, lambda k: c.at(c[1], k) == pev(c, c[2], n.N, n.point(k), True), lambda k: c.at(c[1], k)))]
def nc_bwd(c): n = NC(c); a, ao = arr(c, c[2], True); return [("entry k is the sum of the inputs times the k-th powers of the roots", c.all(0, n.N, lambda k: c.at(c[1], k) == tev_(a, ao, n.N, n.g, Z(k)), lambda k: c.at(c[1], k)))]
def nc_hints(c):      # theorem ntt_transpose_rv
    n = NC(c); a, ao = arr(c, c[2], True); b, bo = arr(c, c[1]); d = z3.FreshConst(INT, "d"); k = z3.Int("k!nc"); w = arr(c, n.tw)
    p = pev_(b, bo, n.N, n.point(d)); ys = (gen._fmul(fint(n.N), a[ao + (n.N - 1 - d)]), gen._fmul(a[ao + (n.N - 1 - d)], fint(n.N)))
    return [z3.Or(z3.Not(negtw_(*w, n.K, n.g)), n.N != Z(c.ex.pow2(n.K)), n.K < 0, z3.And(d >= 0, d < n.N, *[p != y for y in ys]), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.N), b[bo + k] == tev_(a, ao, n.N, n.g, k)), patterns=[b[bo + k]]))] + rv_all(c.ex, n.K)
con(LC("nttChecker", "TransformTo"), pre=nc_pre, mods=lambda c: [c[1]], post=nc_fwd)
con(LC("nttChecker", "TransposeTo"), pre=nc_pre, mods=lambda c: [c[1]], post=nc_bwd, hints=nc_hints,
    loops={0: Loop(inv=lambda l: [("reversed and scaled so far", l.c.all(0, l.v("i"), lambda k: l.c.at(l.arg(1), k) == fmul(l.c.old(l.arg(2), z3.simplify(NC(l.c).N - 1 - k)), fint(NC(l.c).N)), lambda k: l.c.at(l.arg(1), k)))], dec=lambda l: NC(l.c).N - Z(l.v("i")))})
con(BK + "NewNTTChecker", pre=lambda c: [("rank in range", Z(c[0]) < (1 << 46))], mods=lambda c: [], panics=CONS[BP + "NewCyclotomicTransformer"].panics,
    post=lambda c: NC(c, c.res[0].v).valid() + [("rank", NC(c, c.res[0].v).N == Z(c[0]))])

# ---- projections: sums over the chosen entries
# rowsum i n = sum over j < n with proj[i][j] of v[j];   colsum j n = sum over i < n with proj[i][j] of v[i]
rowsum_ = z3.Function("rowsum", INT, INT, F); colsum_ = z3.Function("colsum", INT, INT, F)
def pj(c): return c.fld(c[0], "proj", True)
def pj_at(c, i, j):
    p = pj(c); r = c.ex.elem(p, i, c.st0); return B(c.ex.elem_val(r, j, c.st0))
def pj_cols(c, i): return Z(c.ex.elem(pj(c), i, c.st0).len)
def pj_rows(c): return Z(c.len(pj(c), True))
def pj_pre(c):
    R = pj_rows(c); n = pj_cols(c, 0)
    return [("a row at least", R >= 1), ("rows of equal length", c.all(0, R, lambda i: pj_cols(c, i) == n, lambda i: pj_cols(c, i))), ("vectors as long as a row, and as there are rows", z3.And(Z(c.len(c[1])) >= n, Z(c.len(c[1])) >= R, Z(c.len(c[2])) >= n, Z(c.len(c[2])) >= R))]
def row_step(c, i, j):
    i, j = Z(num(i)), Z(num(j)); return [rowsum_(i, z3.IntVal(0)) == fint(0), rowsum_(i, z3.simplify(j + 1)) == z3.If(pj_at(c, i, j), fadd(rowsum_(i, j), c.old(c[2], j)), rowsum_(i, j))]
def col_step(c, j, i):
    i, j = Z(num(i)), Z(num(j)); return [colsum_(j, z3.IntVal(0)) == fint(0), colsum_(j, z3.simplify(i + 1)) == z3.If(pj_at(c, i, j), fadd(colsum_(j, i), c.old(c[2], i)), colsum_(j, i))]
def col_zero(): j = z3.Int("j!cz"); return z3.ForAll([j], colsum_(j, z3.IntVal(0)) == fint(0), patterns=[colsum_(j, z3.IntVal(0))])
def vec_is(l, lo, hi, f): return l.c.all(lo, hi, lambda k: l.c.at(l.arg(1), k) == f(k), lambda k: l.c.at(l.arg(1), k))
def pt_rows(l, i, j=None):
    R = pj_rows(l.c); n = pj_cols(l.c, 0)
    return vec_is(l, 0, R, lambda k: z3.If(k < i, rowsum_(k, n), fint(0) if j is None else z3.If(k == i, rowsum_(k, j), fint(0))))
con(LC("projChecker", "TransformTo"), pre=pj_pre, mods=lambda c: [c[1]],
    loops={0: Loop(inv=lambda l: [("cleared so far", vec_is(l, 0, l.idx(), lambda k: fint(0)))]),
           1: Loop(inv=lambda l: [("rows so far", pt_rows(l, l.idx()))], facts=lambda l: row_step(l.c, l.idx(), 0)),
           2: Loop(inv=lambda l: [("entries so far", pt_rows(l, l.idx(1), l.idx()))], facts=lambda l: row_step(l.c, l.idx(1), l.idx())),
           3: Loop(inv=lambda l: [("rows", vec_is(l, 0, pj_rows(l.c), lambda k: rowsum_(k, pj_cols(l.c, 0)))), ("cleared so far", vec_is(l, pj_rows(l.c), l.idx(), lambda k: fint(0)))])},
    post=lambda c: [("entry i is the sum over row i", c.all(0, pj_rows(c), lambda k: c.at(c[1], k) == rowsum_(k, pj_cols(c, 0)), lambda k: c.at(c[1], k))), ("the rest is zero", c.all(pj_rows(c), c.len(c[1]), lambda k: c.at(c[1], k) == fint(0), lambda k: c.at(c[1], k)))])
def pt_cols(l, i, j=None):
    n = pj_cols(l.c, 0); return vec_is(l, 0, n, lambda k: colsum_(k, i) if j is None else z3.If(k < j, colsum_(k, z3.simplify(i + 1)), colsum_(k, i)))
con(LC("projChecker", "TransposeTo"), pre=pj_pre, mods=lambda c: [c[1]], setup=lambda c: c.ex.ax.append(col_zero()),
    loops={0: Loop(inv=lambda l: [("cleared so far", vec_is(l, 0, l.idx(), lambda k: fint(0)))]),
           1: Loop(inv=lambda l: [("columns so far", pt_cols(l, l.idx()))]),
           2: Loop(inv=lambda l: [("entries so far", pt_cols(l, l.idx(1), l.idx()))], facts=lambda l: col_step(l.c, l.idx(), l.idx(1)))},
    post=lambda c: [("entry j is the sum over column j", c.all(0, pj_cols(c, 0), lambda k: c.at(c[1], k) == colsum_(k, pj_rows(c)), lambda k: c.at(c[1], k)))])
# ---- recomposition: blocksum i n = sum over j < n of base[j] * v[i*D + j]
blocksum_ = z3.Function("blocksum", INT, INT, F)
def rc(c): return c.fld(c[0], "dcmpBase", True)
def rcD(c): return Z(c.len(rc(c), True))
def rcM(c): return Z(c.ex.qr(c.len(c[1], True), rcD(c), c.st0)[0])
def rc_pre(c): return [("a digit at least", rcD(c) >= 1), ("vectors of equal length", Z(c.len(c[1])) == Z(c.len(c[2])))]
def blk(l_or_c, i):
    c = l_or_c; D = rcD(c); c.ex.mult(D, i); c.ex.mult(D, z3.simplify(Z(i) + 1)); c.ex.mult(D, rcM(c)); return z3.simplify(Z(i) * D)
def bs_step(c, i, j):
    i, j = Z(num(i)), Z(num(j)); return [blocksum_(i, z3.IntVal(0)) == fint(0), blocksum_(i, z3.simplify(j + 1)) == fadd(blocksum_(i, j), fmul(c.old(rc(c), j), c.old(c[2], z3.simplify(blk(c, i) + j))))]
def rc_so_far(l, i): return vec_is(l, 0, i, lambda k: blocksum_(k, rcD(l.c)))
con(LC("projRecomposeChecker", "TransformTo"), pre=rc_pre, mods=lambda c: [c[1]],
    loops={0: Loop(inv=lambda l: [("blocks so far", rc_so_far(l, l.idx()))], facts=lambda l: bs_step(l.c, l.idx(), 0), dec=lambda l: rcM(l.c) - l.idx()),
           1: Loop(inv=lambda l: [("blocks so far", rc_so_far(l, l.idx(1))), ("digits so far", l.c.at(l.arg(1), l.idx(1)) == blocksum_(l.idx(1), l.idx()))], facts=lambda l: bs_step(l.c, l.idx(1), l.idx()), dec=lambda l: rcD(l.c) - l.idx()),
           2: Loop(inv=lambda l: [("blocks", rc_so_far(l, rcM(l.c))), ("cleared so far", vec_is(l, rcM(l.c), l.idx(), lambda k: fint(0)))], dec=lambda l: Z(l.len(l.arg(1))) - l.idx())},
    post=lambda c: [("entry i recomposes block i", c.all(0, rcM(c), lambda k: c.at(c[1], k) == blocksum_(k, rcD(c)), lambda k: c.at(c[1], k))), ("the rest is zero", c.all(rcM(c), c.len(c[1]), lambda k: c.at(c[1], k) == fint(0), lambda k: c.at(c[1], k)))])
def rt_is(l, lo, hi):
    """entries lo <= k < hi are base[k mod D] * v[k / D]"""
    c = l if isinstance(l, Ctx) else l.c; D = rcD(c); v = c[1] if isinstance(l, Ctx) else l.arg(1)
    def g(k): q, r = ediv_(k, D), emod_(k, D); return c.at(v, k) == gen._fmul(c.old(rc(c), r), c.old(c[2], q))
    return c.all(lo, hi, g, lambda k: c.at(v, k))
con(LC("projRecomposeChecker", "TransposeTo"), pre=rc_pre, mods=lambda c: [c[1]],
    loops={0: Loop(inv=lambda l: [("blocks so far", rt_is(l, 0, blk(l.c, l.idx())))], facts=lambda l: [blk(l.c, l.idx()) >= 0], dec=lambda l: rcM(l.c) - l.idx()),
           1: Loop(inv=lambda l: [("digits so far", rt_is(l, 0, blk(l.c, l.idx(1)) + l.idx()))], facts=lambda l: rt_div(l), dec=lambda l: rcD(l.c) - l.idx()),
           2: Loop(inv=lambda l: [("blocks", rt_is(l, 0, blk(l.c, rcM(l.c)))), ("cleared so far", vec_is(l, blk(l.c, rcM(l.c)), l.idx(), lambda k: fint(0)))], dec=lambda l: Z(l.len(l.arg(1))) - l.idx())},
    post=lambda c: [("entry k is digit weight k mod D times entry k / D", rt_is(c, 0, blk(c, rcM(c)))), ("the rest is zero", c.all(blk(c, rcM(c)), c.len(c[1]), lambda k: c.at(c[1], k) == fint(0), lambda k: c.at(c[1], k)))])
def rt_div(l):      # theorem block_div
    c = l.c; D = rcD(c); i, j = Z(l.idx(1)), Z(l.idx()); k = z3.simplify(blk(c, i) + j); return [z3.Implies(z3.And(i >= 0, j >= 0, j < D), z3.And(ediv_(k, D) == i, emod_(k, D) == j))]

con(BK + "newProjRecomposeChecker", pre=lambda c: [("bound positive", db_x(c) >= 0)], mods=lambda c: [],
    loops={0: Loop(inv=lambda l: [("digit weights so far", l.c.all(0, l.idx(), lambda j: l.c.at(slices_made(l)[0], j) == finj_(rem_(db_x(l.c), j) - rem_(db_x(l.c), z3.simplify(j + 1))), lambda j: l.c.at(slices_made(l)[0], j)))])},
    post=lambda c: (lambda d: [("a weight for every bit", Z(c.len(d)) == bitlen_(db_x(c))), ("the digit weights", c.all(0, c.len(d), lambda j: c.at(d, j) == finj_(rem_(db_x(c), j) - rem_(db_x(c), z3.simplify(j + 1))), lambda j: c.at(d, j)))])(c.fld(c.res[0].v, "dcmpBase")))
def made(l, k=0): return [l.env[i["n"]] for b in l.fn.blocks for i in b["ins"] if i["op"] in ("slice", "makeslice") and i.get("n") in l.env][k]
con(BK + "newProjChecker", pre=lambda c: [("rank not negative", Z(c[0]) >= 0)], mods=lambda c: [],
    loops={0: Loop(inv=lambda l: [("rows so far", l.c.all(0, l.idx(), lambda i: Z(l.ex.elem(made(l), i, l.st).len) == Z(l.arg(0)), lambda i: Z(l.ex.elem(made(l), i, l.st).len)))])},
    post=lambda c: (lambda d: [("128 rows", Z(c.len(d)) == 128), ("of the given length", c.all(0, 128, lambda i: Z(c.ex.elem(d, i, c.st).len) == Z(c[0]), lambda i: Z(c.ex.elem(d, i, c.st).len)))])(c.fld(c.res[0].v, "proj")))
