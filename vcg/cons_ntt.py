"""Contracts of the number-theoretic transform (math/bigpoly/ntt.go)."""
from cons_bigpoly import *
import gen
# NT(p, po, tw, to, K, l, k): entry k after l rounds of the forward transform of p[po:po+2^K] with the twiddle factors tw[to:]. It is defined by
#   NT 0 k = p k,    NT (l+1) (2ti + r) = NT l (2ti + r) + tw[2^l + i] * NT l (2ti + t + r),    NT (l+1) (2ti + t + r) = NT l (2ti + r) - tw[2^l + i] * NT l (2ti + t + r)
# for l < K, t = 2^(K-l-1), i < 2^l, r < t.     NI is the same for the inverse transform, with l counting rounds from the smallest distance on:
#   NI 0 k = p k,    NI (s+1) (2ti + r) = NI s (2ti + r) + NI s (2ti + t + r),    NI (s+1) (2ti + t + r) = (NI s (2ti + r) - NI s (2ti + t + r)) * twInv[m + i]
# for s < K, t = 2^s, m = 2^(K-s-1), i < m, r < t.        What these recurrences compute is in lean/ntt.lean.
NT_ = z3.Function("ntt", AR, INT, AR, INT, INT, INT, INT, F)
NI_ = z3.Function("intt", AR, INT, AR, INT, INT, INT, INT, F)
class NTT:
    def __init__(self, c, p, tw, inv=False):
        self.ex, self.inv = c.ex, inv; N = Z(c.len(p, True)); self.N = N; self.K = log_(N); self.c, self.p, self.tw = c, p, tw
        self.a = arr(c, p, True) + arr(c, tw, True)
    def at(self, l, k): return (NI_ if self.inv else NT_)(*self.a, self.K, Z(num(l)), Z(num(k)))
    def start(self): k = z3.Int("k!nt"); return z3.ForAll([k], self.at(0, k) == self.c.old(self.p, k), patterns=[self.at(0, k)])
    def step(self, l, i, j, t, m):
        """the defining equations at entry j of block i in round l; t and m are the powers of two there"""
        l, i, j, t, m = (Z(num(x)) for x in (l, i, j, t, m)); a, b = self.at(l, j), self.at(l, j + t); w = self.c.old(self.tw, z3.simplify(m + i))
        h = z3.And(l >= 0, l < self.K, i >= 0, i < m, 2 * (i * t) <= j, j < 2 * (i * t) + t)
        if not self.inv: return [z3.Implies(h, self.at(l + 1, j) == fadd(a, fmul(w, b))), z3.Implies(h, self.at(l + 1, j + t) == fsub(a, fmul(w, b)))]
        return [z3.Implies(h, self.at(l + 1, j) == fadd(a, b)), z3.Implies(h, self.at(l + 1, j + t) == fmul(fsub(a, b), w))]
    def pows(self, l):
        """m = 2^l, t = 2^(K-l-1) in round l (forward), with m * t = N/2"""
        ex = self.ex; K = self.K; l = Z(num(l)); n = z3.simplify(K - l - 1); m, t = Z(ex.pow2(l)), Z(ex.pow2(n)); ex.pow2(K); ex.pow2(z3.simplify(K - 1)); ex.pow2(z3.simplify(K - l)); ex.pow2(z3.simplify(l + 1))
        ex.mult(t, m)
        f = [z3.Implies(z3.And(l >= 0, n >= 0), 2 * (m * t) == self.N)]           # theorem two_pow_split
        for d in (1, 2, 3):       # 2^d divides larger powers
            f.append(z3.Implies(n >= d, t % (1 << d) == 0)); f.append(z3.Implies(z3.And(n >= 0, n < d, K >= l), z3.Or(*[z3.And(n == e, t == 1 << e) for e in range(d)])))
        return f
def ntt_pre(c):
    N = Z(c.len(c[0])); return [("length a power of two", ispow2(c.ex, N)), ("twiddle factors as long", Z(c.len(c[1])) >= N)]
def ntt_post(inv): 
    def f(c):
        n = NTT(c, c[0], c[1], inv); return [("%s transform" % ("inverse" if inv else "forward"), c.all(0, n.N, lambda k: c.at(c[0], k) == n.at(n.K, k), lambda k: c.at(c[0], k)))]
    return f
def outer_inv(l):
    n = NTT(l.c, l.arg(0), l.arg(1)); L = l.g("L"); m, t = Z(l.v("m")), Z(l.v("t")); c = l.c
    return [("rounds", z3.And(L >= 0, L <= n.K, m == Z(l.ex.pow2(L)), t == Z(l.ex.pow2(z3.simplify(n.K - L))))), ("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == n.at(L, k), lambda k: c.at(n.p, k)))]
def block_inv(l, inner):
    n = NTT(l.c, l.arg(0), l.arg(1)); L = l.g("L"); i = Z(l.v("i")); t = Z(l.ex.pow2(z3.simplify(n.K - L - 1))); c = l.c
    j1 = 2 * (i * t); l.ex.mult(t, i); l.ex.mult(t, i + 1)
    if not inner: g = lambda k: z3.If(k < j1, n.at(L + 1, k), n.at(L, k))
    else:
        j = Z(l.v("j")); g = lambda k: z3.If(z3.Or(k < j, z3.And(k >= j1 + t, k < j + t)), n.at(L + 1, k), n.at(L, k))
    return [("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == g(k), lambda k: c.at(n.p, k)))]
def fwd_facts(l):
    n = NTT(l.c, l.arg(0), l.arg(1)); return n.pows(l.g("L"))
def fwd_step(l):
    n = NTT(l.c, l.arg(0), l.arg(1)); L = l.g("L"); return n.pows(L) + n.step(L, l.v("i"), l.v("j"), l.ex.pow2(z3.simplify(n.K - L - 1)), l.ex.pow2(L))
con(BP + "nttInPlaceRef", pre=ntt_pre, mods=lambda c: [c[0]], setup=lambda c: c.ex.ax.append(NTT(c, c[0], c[1]).start()),
    loops={0: Loop(inv=outer_inv, ghost={"L": (lambda l: z3.IntVal(0), lambda l, h: z3.simplify(h.g("L") + 1))}, facts=fwd_facts, dec=lambda l: Z(log_(Z(l.len(l.arg(0))))) - l.g("L")),
           1: Loop(inv=lambda l: block_inv(l, False), facts=fwd_facts), 2: Loop(inv=lambda l: block_inv(l, True), facts=fwd_step)},
    post=ntt_post(False), cost=20)
def tail(l): return Z(l.v("i"))
def u_entries(l, L, i, t, per, inner=None):
    """rounds below L done, of round L the blocks before i (of i*per blocks each) and, with inner, the entries before inner of block i"""
    n = NTT(l.c, l.arg(0), l.arg(1)); c = l.c; j1 = 2 * (Z(i) * Z(t)); l.ex.mult(t, i); l.ex.mult(t, z3.simplify(Z(i) + 1))
    if inner is None: g = lambda k: z3.If(k < j1, n.at(L + 1, k), n.at(L, k))
    else: g = lambda k: z3.If(z3.Or(k < inner, z3.And(k >= j1 + t, k < inner + t)), n.at(L + 1, k), n.at(L, k))
    return [("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == g(k), lambda k: c.at(n.p, k)))]
def kk(l): return NTT(l.c, l.arg(0), l.arg(1)).K
def u_big(l):
    n = NTT(l.c, l.arg(0), l.arg(1)); K = n.K
    return n.pows(0) + [n.N == Z(l.ex.pow2(K)), z3.Implies(n.N >= 32, K >= 5)] + [x for d in (1, 2, 3, 4) for x in n.pows(z3.simplify(K - d))]
def steps(l, L, i, js, t, m):
    n = NTT(l.c, l.arg(0), l.arg(1)); return [e for j in js for e in n.step(L, i, j, t, m)]
def u_outer(l):
    n = NTT(l.c, l.arg(0), l.arg(1)); L = l.g("L"); m, t = Z(l.v("m")), Z(l.v("t")); c = l.c
    return [("rounds", z3.And(L >= 1, L <= n.K - 3, m == Z(l.ex.pow2(L)), t == Z(l.ex.pow2(z3.simplify(n.K - L))))), ("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == n.at(L, k), lambda k: c.at(n.p, k)))]
def tL(l): return l.ex.pow2(z3.simplify(kk(l) - l.g("L") - 1))
def eight(j): return [z3.simplify(Z(j) + d) for d in range(8)]
con(BP + "nttInPlaceUnroll", pre=lambda c: ntt_pre(c) + [("long enough for eight entries at a time", Z(c.len(c[0])) >= 32)], mods=lambda c: [c[0]], setup=lambda c: c.ex.ax.append(NTT(c, c[0], c[1]).start()),
    loops={0: Loop(inv=lambda l: u_entries(l, z3.IntVal(0), z3.IntVal(0), z3.simplify(l.ex.qr(l.len(l.arg(0)), 2, l.st)[0]), 1, Z(l.v("j"))), facts=lambda l: u_big(l) + steps(l, 0, 0, eight(l.v("j")), l.ex.qr(l.len(l.arg(0)), 2, l.st)[0], 1)),
           1: Loop(inv=u_outer, ghost={"L": (lambda l: z3.IntVal(1), lambda l, h: z3.simplify(h.g("L") + 1))}, facts=lambda l: u_big(l) + fwd_facts(l), dec=lambda l: kk(l) - l.g("L")),
           2: Loop(inv=lambda l: block_inv(l, False), facts=lambda l: u_big(l) + fwd_facts(l)),
           3: Loop(inv=lambda l: block_inv(l, True), facts=lambda l: u_big(l) + fwd_facts(l) + steps(l, l.g("L"), l.v("i"), eight(l.v("j")), tL(l), l.ex.pow2(l.g("L")))),
           4: Loop(inv=lambda l: u_entries(l, z3.simplify(kk(l) - 3), l.v("i"), 4, 1), facts=lambda l: u_big(l) + steps(l, z3.simplify(kk(l) - 3), l.v("i"), eight(8 * Z(l.v("i")))[:4], 4, l.ex.pow2(z3.simplify(kk(l) - 3)))),
           5: Loop(inv=lambda l: u_entries(l, z3.simplify(kk(l) - 2), l.v("i"), 2, 1), facts=lambda l: u_big(l) + [e for d in (0, 1) for e in steps(l, z3.simplify(kk(l) - 2), Z(l.v("i")) + d, [4 * Z(l.v("i")) + 4 * d, 4 * Z(l.v("i")) + 4 * d + 1], 2, l.ex.pow2(z3.simplify(kk(l) - 2)))]),
           6: Loop(inv=lambda l: u_entries(l, z3.simplify(kk(l) - 1), l.v("i"), 1, 1), facts=lambda l: u_big(l) + [e for d in range(4) for e in steps(l, z3.simplify(kk(l) - 1), Z(l.v("i")) + d, [2 * Z(l.v("i")) + 2 * d], 1, l.ex.pow2(z3.simplify(kk(l) - 1)))])},
    post=ntt_post(False), cost=60, limit=800)

# ---- inverse
def inn(l): return NTT(l.c, l.arg(0), l.arg(1), True)
def ipows(l, s):
    """t = 2^s, m = 2^(K-s-1) in round s"""
    n = inn(l); return n.pows(z3.simplify(n.K - Z(num(s)) - 1))
def i_outer(l):
    n = inn(l); L = l.g("L"); m, t = Z(l.v("m")), Z(l.v("t")); c = l.c; l.ex.pow2(z3.simplify(n.K - 1))
    return [("rounds", z3.And(L >= 0, L <= n.K, z3.Implies(L < n.K, m == Z(l.ex.pow2(z3.simplify(n.K - L - 1)))), z3.Implies(L == n.K, m == 0), t == Z(l.ex.pow2(L)))), ("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == n.at(L, k), lambda k: c.at(n.p, k)))]
def i_block(l, L, t, i, inner=None):
    n = inn(l); c = l.c; t, i = Z(num(t)), Z(num(i)); j1 = 2 * (i * t); l.ex.mult(t, i); l.ex.mult(t, z3.simplify(i + 1))
    if inner is None: g = lambda k: z3.If(k < j1, n.at(L + 1, k), n.at(L, k))
    else: g = lambda k: z3.If(z3.Or(k < inner, z3.And(k >= j1 + t, k < inner + t)), n.at(L + 1, k), n.at(L, k))
    return [("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == g(k), lambda k: c.at(n.p, k)))]
def isteps(l, s, i, js, t, m): return [e for j in js for e in inn(l).step(s, i, j, t, m)]
def imL(l): return l.ex.pow2(z3.simplify(kk(l) - l.g("L") - 1))
def itL(l): return l.ex.pow2(l.g("L"))
con(BP + "inttInPlaceRef", pre=ntt_pre, mods=lambda c: [c[0]], setup=lambda c: c.ex.ax.append(NTT(c, c[0], c[1], True).start()),
    loops={0: Loop(inv=i_outer, ghost={"L": (lambda l: z3.IntVal(0), lambda l, h: z3.simplify(h.g("L") + 1))}, facts=lambda l: ipows(l, l.g("L")), dec=lambda l: kk(l) - l.g("L")),
           1: Loop(inv=lambda l: i_block(l, l.g("L"), itL(l), l.v("i")), facts=lambda l: ipows(l, l.g("L"))),
           2: Loop(inv=lambda l: i_block(l, l.g("L"), itL(l), l.v("i"), Z(l.v("j"))), facts=lambda l: ipows(l, l.g("L")) + isteps(l, l.g("L"), l.v("i"), [l.v("j")], itL(l), imL(l)))},
    post=ntt_post(True), cost=20)
def i_uouter(l):
    n = inn(l); L = l.g("L"); m, t = Z(l.v("m")), Z(l.v("t")); c = l.c
    return [("rounds", z3.And(L >= 3, L <= n.K - 1, m == Z(l.ex.pow2(z3.simplify(n.K - L - 1))), t == Z(l.ex.pow2(L)))), ("entries", c.all(0, n.N, lambda k: c.at(n.p, k) == n.at(L, k), lambda k: c.at(n.p, k)))]
def half(l): return l.ex.qr(l.len(l.arg(0)), 2, l.st)[0]
def lv(l, d): return z3.simplify(kk(l) - d)
con(BP + "inttInPlaceUnroll", pre=lambda c: ntt_pre(c) + [("long enough for eight entries at a time", Z(c.len(c[0])) >= 32)], mods=lambda c: [c[0]], setup=lambda c: c.ex.ax.append(NTT(c, c[0], c[1], True).start()),
    loops={0: Loop(inv=lambda l: i_block(l, z3.IntVal(0), 1, l.v("i")), facts=lambda l: u_big(l) + [e for d in range(4) for e in isteps(l, 0, Z(l.v("i")) + d, [2 * Z(l.v("i")) + 2 * d], 1, l.ex.pow2(lv(l, 1)))]),
           1: Loop(inv=lambda l: i_block(l, z3.IntVal(1), 2, l.v("i")), facts=lambda l: u_big(l) + [e for d in (0, 1) for e in isteps(l, 1, Z(l.v("i")) + d, [4 * Z(l.v("i")) + 4 * d, 4 * Z(l.v("i")) + 4 * d + 1], 2, l.ex.pow2(lv(l, 2)))]),
           2: Loop(inv=lambda l: i_block(l, z3.IntVal(2), 4, l.v("i")), facts=lambda l: u_big(l) + isteps(l, 2, l.v("i"), eight(8 * Z(l.v("i")))[:4], 4, l.ex.pow2(lv(l, 3)))),
           3: Loop(inv=i_uouter, ghost={"L": (lambda l: z3.IntVal(3), lambda l, h: z3.simplify(h.g("L") + 1))}, facts=lambda l: u_big(l) + ipows(l, l.g("L")), dec=lambda l: kk(l) - l.g("L")),
           4: Loop(inv=lambda l: i_block(l, l.g("L"), itL(l), l.v("i")), facts=lambda l: u_big(l) + ipows(l, l.g("L"))),
           5: Loop(inv=lambda l: i_block(l, l.g("L"), l.v("t"), l.v("i"), Z(l.v("j"))), facts=lambda l: u_big(l) + ipows(l, l.g("L")) + isteps(l, l.g("L"), l.v("i"), eight(l.v("j")), l.v("t"), l.v("m"))),
           6: Loop(inv=lambda l: i_block(l, lv(l, 1), l.v("t"), 0, Z(l.v("j"))), facts=lambda l: u_big(l) + isteps(l, lv(l, 1), 0, eight(l.v("j")), l.v("t"), 1))},
    post=ntt_post(True), cost=60, limit=800)

# ---- transforms as evaluation
# pev(a, off, N, x) = sum of a[off+j] x^j for j < N.   negtw / cyctw(tw, off, K, g): g^(2^K) = -1 and tw[k] = g^rv(K,k) for k < 2^K, resp.
# K = 0 or g^(2^(K-1)) = -1 and tw[2^l+i] = g^rv(K-1,i) for l < K, i < 2^l.      invtw: tw[k] * twInv[k] = 1 for 1 <= k < 2^K
negtw_ = z3.Function("negacyclic_twiddles", AR, INT, INT, F, BOOL)
cyctw_ = z3.Function("cyclic_twiddles", AR, INT, INT, F, BOOL)
invtw_ = z3.Function("inverse_twiddles", AR, INT, AR, INT, INT, BOOL)
def pev(c, p, N, x, old=False): return pev_(*arr(c, p, old), Z(num(N)), x)
def point(kind, g, K, k): r = rv(K, k); return fpow(g, z3.simplify(2 * r + 1) if kind == "neg" else r)
def root(c, tw, N, kind):
    """the root of unity the twiddle factors are powers of: their entry at the reversed index of 1"""
    N = Z(num(N)); at = lambda k: c.at(tw, k); h = c.ex.qr(N, 2, c.st)[0]
    if kind == "neg": return z3.If(N <= 1, fint(-1), at(h))
    return z3.If(N <= 2, fint(-1), at(z3.simplify(Z(h) + Z(c.ex.qr(N, 4, c.st)[0]))))
TWP = {"neg": negtw_, "cyc": cyctw_}
def good_tw(c, tw, N, kind, g=None): return TWP[kind](*arr(c, tw), log_(Z(num(N))), root(c, tw, N, kind) if g is None else g)
def fwd_theorem(c):      # theorems ntt_negacyclic, ntt_cyclic
    n = NTT(c, c[0], c[1]); g = z3.Const("g!tw", F); out = []
    for kind in ("neg", "cyc"):
        t = TWP[kind](*n.a[2:], n.K, g); k = z3.Int("k!ev"); e = n.at(n.K, k)
        out.append(z3.ForAll([g, k], z3.Implies(z3.And(t, n.N == Z(c.ex.pow2(n.K)), k >= 0, k < n.N), e == pev_(n.a[0], n.a[1], n.N, point(kind, g, n.K, k))), patterns=[z3.MultiPattern(t, e)]))
    return out
def fwd_post(c):
    n = NTT(c, c[0], c[1]); g = z3.Const("g!tw", F); out = list(ntt_post(False)(c))
    for kind in ("neg", "cyc"):
        k = z3.Int("k!ev"); t = TWP[kind](*n.a[2:], n.K, g); e = c.at(c[0], k)
        out.append(("values at the roots (%s)" % kind, z3.ForAll([g, k], z3.Implies(z3.And(t, k >= 0, k < n.N), e == pev_(n.a[0], n.a[1], n.N, point(kind, g, n.K, k))), patterns=[z3.MultiPattern(t, e)])))
    return out
con(BP + "nttInPlace", pre=ntt_pre, mods=lambda c: [c[0]], hints=fwd_theorem, post=fwd_post)
con(BP + "inttInPlace", pre=ntt_pre, mods=lambda c: [c[0]], post=ntt_post(True))
def scan(c, decl):
    """argument tuples of the applications of a function in the current hypotheses"""
    out = []; seen = set(); todo = list(c.st.pc) + list(c.ex.ax)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().eq(decl) and not any(all(x.eq(y) for x, y in zip(t.children(), o)) for o in out): out.append(t.children())
            todo += t.children()
    return out
def closed(t):
    if z3.is_var(t): return False
    return all(closed(x) for x in t.children()) if z3.is_app(t) else True
def pev_ext(c, a, off, N):
    """theorem: polyval depends on the coefficients only (extensionality, for the arrays that occur)"""
    out = []; seen = []
    for t in scan(c, pev_):
        b, o = t[0], t[1]
        if not (closed(b) and closed(o)) or (b.eq(a) and o.eq(off)) or any(b.eq(x) and o.eq(y) for x, y in seen): continue
        seen.append((b, o)); d = z3.FreshConst(INT, "d"); x = z3.Const("x!ev", F)
        for u in ((a, off, b, o),): out.append(z3.Or(z3.And(d >= 0, d < N, a[off + d] != b[o + d]), z3.ForAll([x], pev_(a, off, N, x) == pev_(b, o, N, x), patterns=[pev_(b, o, N, x)])))
    return out
def TR(t, m): return "(*%s%s[E]).%s" % (BP, t, m)
def tr(c): return c.fld(c[0], "tw"), c.fld(c[0], "twInv"), Z(c.fld(c[0], "rank"))
def valid(c, p, kind, old=False):
    """the transformer's invariant"""
    tw, ti, N = c.fld(p, "tw", old), c.fld(p, "twInv", old), Z(c.fld(p, "rank", old)); K = log_(N)
    return [("rank a power of two", z3.And(ispow2(c.ex, N), N < (1 << 47))), ("as many twiddle factors as the rank", z3.And(Z(c.len(tw, old)) == N, Z(c.len(ti, old)) == N)), ("powers of a root of unity in bit-reversed order", good_tw(c, tw, N, kind)),
            ("inverses of them", invtw_(*arr(c, tw, old), *arr(c, ti, old), K)), ("inverse of the rank", fmul(c.val(c.fld(p, "rankInv", old), old), fint(N)) == fint(1))]
def io_pre(kind): return lambda c: valid(c, c[0], kind) + [("vectors of the transformer's rank", z3.And(Z(c.len(c[1])) == tr(c)[2], Z(c.len(c[2])) == tr(c)[2]))]
def tpoint(c, kind, k): tw, ti, N = tr(c); return point(kind, root(c, tw, N, kind), log_(N), k)
def tr_post_fwd(kind): return lambda c: [("entry k is the polynomial's value at the k-th root", c.all(0, tr(c)[2], lambda k: c.at(c[1], k) == pev(c, c[2], tr(c)[2], tpoint(c, kind, k), True), lambda k: c.at(c[1], k)))]
def tr_post_inv(kind): return lambda c: [("the polynomial with the given values at the roots", c.all(0, tr(c)[2], lambda k: pev(c, c[1], tr(c)[2], tpoint(c, kind, k)) == c.old(c[2], k), lambda k: [c.old(c[2], k), rv(log_(tr(c)[2]), k)]))]
def inv_theorem(kind):   # theorems intt_negacyclic, intt_cyclic
    def f(c):
        tw, ti, N = tr(c); K = log_(N); g = root(c, tw, N, kind); b, bo = arr(c, c[1]); w = arr(c, tw); wi = arr(c, ti); cc = c.val(c.fld(c[0], "rankInv")); out = []
        for t in scan(c, NI_):
            a, ao = t[0], t[1]
            if not (closed(a) and closed(ao)) or not (t[2].eq(wi[0]) and t[3].eq(wi[1])) or any(x[0].eq(a) for x in out): continue
            d = z3.FreshConst(INT, "d"); k = z3.Int("k!iv"); p = pev_(b, bo, N, point(kind, g, K, k))
            out.append((a, z3.Or(z3.Not(TWP[kind](*w, K, g)), z3.Not(invtw_(*w, *wi, K)), fmul(cc, fint(N)) != fint(1), N != Z(c.ex.pow2(K)),
                                 z3.And(d >= 0, d < N, *[b[bo + d] != m for m in ((lambda x, y: (gen._fmul(x, y), gen._fmul(y, x)))(NI_(a, ao, *wi, K, K, d), cc))]), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), p == a[ao + k]), patterns=[a[ao + k], rv_(K, k)]))))
        return [x[1] for x in out]
    return f
for _t, _k in (("CyclotomicTransformer", "neg"), ("CyclicTransformer", "cyc")):
    con(TR(_t, "FwdNTTTo"), pre=io_pre(_k), mods=lambda c: [c[1]], alias=[((1, 2),)], post=tr_post_fwd(_k), hints=lambda c: pev_ext(c, *arr(c, c[2], True), tr(c)[2]))
    con(TR(_t, "InvNTTTo"), pre=io_pre(_k), mods=lambda c: [c[1]], alias=[((1, 2),)], post=tr_post_inv(_k), hints=inv_theorem(_k))

# ---- the evaluators' transforms, over the interface both transformers implement (the contracts above, with the k-th root called ipoint k)
ipoint_ = z3.Function("transform_point", INT, F)
TI = "iface " + BP + "transformer."
def i_len(c): return [("vectors of equal length", Z(c.len(c[1])) == Z(c.len(c[2])))]
con(TI + "FwdNTTTo", trusted=True, pre=i_len, mods=lambda c: [c[1]], alias=[((1, 2),)], post=lambda c: [("values", c.all(0, c.len(c[1]), lambda k: c.at(c[1], k) == pev(c, c[2], c.len(c[1]), ipoint_(k), True), lambda k: c.at(c[1], k)))])
con(TI + "InvNTTTo", trusted=True, pre=i_len, mods=lambda c: [c[1]], alias=[((1, 2),)], post=lambda c: [("interpolation", c.all(0, c.len(c[1]), lambda k: pev(c, c[1], c.len(c[1]), ipoint_(k)) == c.old(c[2], k), lambda k: [c.old(c[2], k), ipoint_(k)]))])
def bo_ntt(name, inv):
    def goal(c, out, p):
        o, q = co(c, out), co(c, p, True)
        if inv: return [("the polynomial with these values at the roots", c.all(0, rank(c), lambda k: pev(c, o, rank(c), ipoint_(k)) == c.old(q, k), lambda k: [c.old(q, k), ipoint_(k)]))]
        return [("values at the roots", c.all(0, rank(c), lambda k: c.at(o, k) == pev(c, q, rank(c), ipoint_(k), True), lambda k: c.at(o, k)))]
    con(M("baseOperator", name + "To"), mods=pmods, alias=[((1, 2),)], panics=lambda c: refused(c, [c[1], c[2]], flag(c, c[2], True) != z3.BoolVal(inv)),
        post=lambda c: goal(c, c[1], c[2]) + [("form", flag(c, c[1]) == z3.BoolVal(not inv)), ("accepted only in the other form", z3.And(B(okn(c, c[1], c[2])), flag(c, c[2], True) == z3.BoolVal(inv)))])
    def made(t):
        bs = (lambda c: c[0]) if t == "baseOperator" else (lambda c: base(c))
        bok = lambda c: Z(c.len(co(c, c[1], True))) == rank(c, bs(c))
        def g2(c):
            o, q = co(c, c.res[0]), co(c, c[1], True); N = rank(c, bs(c))
            if inv: return [("the polynomial with these values at the roots", c.all(0, N, lambda k: pev(c, o, N, ipoint_(k)) == c.old(q, k), lambda k: [c.old(q, k), ipoint_(k)]))]
            return [("values at the roots", c.all(0, N, lambda k: c.at(o, k) == pev(c, q, N, ipoint_(k), True), lambda k: c.at(o, k)))]
        con(M(t, name), mods=lambda c: [], pre=lambda c: [("rank not negative", rank(c, bs(c)) >= 0)], panics=lambda c: z3.Or(z3.Not(bok(c)), flag(c, c[1], True) != z3.BoolVal(inv)),
            result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(bs(c), "rank"), not inv)],
            post=lambda c: g2(c) + [("rank", Z(c.len(co(c, c.res[0]))) == rank(c, bs(c))), ("form", flag(c, c.res[0]) == z3.BoolVal(not inv)), ("accepted only in the other form", z3.And(bok(c), flag(c, c[1], True) == z3.BoolVal(inv)))])
    made("baseOperator")
    if not inv: made("CyclotomicEvaluator")
bo_ntt("NTT", False); bo_ntt("InvNTT", True)

# ---- constructors: the search for a root of unity and the tables
nr_ = z3.Int("nonresidue")
def unity(ex, x, t1, t2):
    """theorems nonresidue, euler and pow_pow at x, for the exponents t1 * t2 = (q-1)/2"""
    x, t1, t2 = Z(x), Z(t1), Z(t2); E = z3.simplify(t1 * t2); one, m1 = fint(1), fint(-1); fx = fint(x)
    h = z3.And(2 * E == Q - 1, Q > 2)
    return [z3.Implies(h, z3.And(nr_ >= 2, nr_ < Q, fpow(finj_(nr_), E) == m1)), z3.Implies(Q > 2, one != m1),
            z3.Implies(z3.And(h, x > 0, x < Q), z3.Or(fpow(fx, E) == one, fpow(fx, E) == m1)),
            z3.Implies(z3.And(t1 >= 0, t2 >= 0), fpow(fpow(fx, t1), t2) == fpow(fx, E))]
def bigval(l, r): return Z(l.val(r))
def cells(l, op="alloc"):
    return [l.env[i["n"]] for b in l.fn.blocks for i in b["ins"] if i["op"] == op and i.get("n") in l.env]
def se_exps(l): return bigval(l, l.call("Div")), bigval(l, nth_newint(l, -1))
def nth_newint(l, k):
    """the exponent of the second power, found as the second argument of the last Exp"""
    es = [i for b in l.fn.blocks for i in b["ins"] if i["op"] == "call" and (i.get("static") or "") == "(*math/big.Int).Exp"]
    return l.env[es[k]["args"][2]]
def search_x(l): return bigval(l, l.env[[i for b in l.fn.blocks for i in b["ins"] if i["op"] == "call" and (i.get("static") or "") == "(*math/big.Int).Exp"][0]["args"][1]])
def search_inv(l):
    t1, t2 = se_exps(l); E = z3.simplify(t1 * t2); x = search_x(l); N = Z(l.arg(0))
    return [("candidate", z3.And(x >= 2, Z(l.val(l.call("Add"))) == Q, t1 >= 0, t2 >= 0, 2 * E == Q - 1, Q > 2)), ("no smaller candidate", forall(2, x, lambda y: fpow(finj_(y), E) == fint(1), lambda y: finj_(y)))]
def search_facts(l):
    t1, t2 = se_exps(l); return unity(l.ex, search_x(l), t1, t2)
def slices_made(l): return cells(l, "makeslice")
def gval(l): return l.val(l.env[[i for b in l.fn.blocks for i in b["ins"] if i["op"] == "call" and i.get("invoke") == "Inverse"][0]["args"][0]])
def table_inv(l):
    a, b = slices_made(l)[:2]; g = gval(l); gi = l.val(l.call("Inverse")); c = l.c; i = Z(l.v("i"))
    return [("powers so far", c.all(0, i, lambda k: c.at(a, k) == fpow(g, k), lambda k: c.at(a, k))), ("inverse powers so far", c.all(0, i, lambda k: c.at(b, k) == fpow(gi, k), lambda k: c.at(b, k)))]
def table_facts(l):
    i = z3.simplify(Z(l.v("i")) - 1); return pow_step(gval(l), i) + pow_step(l.val(l.call("Inverse")), i)
def inv_facts(c, N):
    """theorems root_pow_inv and natCast_inv for the inverses that occur"""
    out = []; N = Z(N); e = ediv_(z3.simplify(Q - 1), z3.simplify(2 * N)); out.append(z3.Implies(z3.And(2 * N * e == Q - 1, Q > 2, N >= 1), z3.And(e >= 1, N * e >= N)))
    for g in [fint(N)] + [t[0] for t in scan(c, finv_)]:
        if not closed(g): continue
        n = z3.Int("n!iv")
        out.append(z3.Implies(z3.And(g == fint(N), N > 0, N < Q), z3.And(gen._fmul(finv_(g), g) == fint(1), gen._fmul(g, finv_(g)) == fint(1), fmul(g, finv_(g)) == fint(1))))
        if z3.is_app(g) and g.decl().eq(finj_):
            for e in scan(c, fpow_):
                if e[0].eq(g) and closed(e[1]) and not z3.is_int_value(e[1]): out.append(z3.Implies(z3.And(e[1] >= 1, fpow_(g, e[1]) == fint(-1)), z3.ForAll([n], z3.Implies(n >= 0, fmul(fpow_(g, n), fpow_(finv_(g), n)) == fint(1)), patterns=[fpow_(finv_(g), n)])))
    return out
def tw_defs(c, p, kind):
    """the twiddle predicates hold when their definitions do"""
    ex = c.ex; tw, ti, N = c.fld(p, "tw"), c.fld(p, "twInv"), Z(c.fld(p, "rank")); K = log_(N); r = root(c, tw, N, kind); a, ao = arr(c, tw); b, bo = arr(c, ti)
    d, e = z3.FreshConst(INT, "d"), z3.FreshConst(INT, "d")
    out = [z3.Or(invtw_(a, ao, b, bo, K), z3.And(e >= 1, e < N, *[m != fint(1) for m in (gen._fmul(a[ao + e], b[bo + e]), gen._fmul(b[bo + e], a[ao + e]))])), Z(ex.pow2(K)) >= 1]
    ex.pow2(z3.simplify(K - 1)); h = Z(ex.qr(N, 2, c.st)[0])
    if kind == "neg":
        out += [z3.Or(negtw_(a, ao, K, r), fpow(r, N) != fint(-1), z3.And(d >= 0, d < N, a[ao + d] != fpow(r, rv(K, d)))), z3.Implies(K >= 1, rv(K, pow2_(z3.simplify(K - 1))) == 1)]      # theorem rv_two_pow
        out += pow_step(fint(-1), 0) + [z3.Implies(N == 2 * h, rv(K, h) == 1)]
    else:
        k = z3.Int("k!crv"); Km = z3.simplify(K - 1); q4 = Z(ex.qr(N, 4, c.st)[0]); ex.pow2(Km); ex.pow2(z3.simplify(K - 2))
        out += [z3.Or(cyctw_(a, ao, K, r), fpow(r, z3.If(N <= 1, 1, h)) != fint(-1), z3.And(d >= 1, d < N, a[ao + d] != fpow(r, crv_(K, d)))), *pow_step(fint(-1), 0)]
        out += [z3.ForAll([k], z3.Implies(z3.And(N == Z(ex.pow2(K)), K >= 0, k >= 1, k < N), crv_(K, k) >= 0), patterns=[crv_(K, k)]), crv_(z3.IntVal(1), z3.IntVal(1)) == 0]
        out += [z3.Implies(z3.And(K >= 2, N == Z(ex.pow2(K))), z3.And(crv_(K, z3.simplify(h + q4)) == 1, h == 2 * q4, h + q4 < N)), z3.Implies(z3.And(K == 1), crv_(K, z3.IntVal(1)) == 0), z3.Implies(N == 2, K == 1), z3.Implies(N == 1, K == 0)]      # crv K (2^(K-1) + 2^(K-2)) = rv (K-1) 2^(K-2) = 1: theorem rv_two_pow
        out += [f for g in [x[0] for x in scan(c, fpow_)] if closed(g) for f in pow_step(g, 0)]
    return out + rv_all(ex, K)
def new_tr(c, t):
    ex = c.ex; o = Obj("Transformer", t, "sym"); return Ptr(o)
def named_type(ex, name):
    for k, d in enumerate(ex.p.types):
        if d["k"] == "named" and d["name"] == name and d.get("pkg", "").endswith("math/bigpoly"): return k
def ctor(name, kind, loops):
    con(BP + "New" + name, pre=lambda c: [("rank in range", Z(c[0]) < (1 << 46))], mods=lambda c: [], loops=loops,
        panics=lambda c: z3.Or(z3.Not(z3.And(log_(Z(c[0])) >= 0, Z(c[0]) == Z(c.ex.pow2(log_(Z(c[0])))))), (Q - 1) % (2 * Z(c[0])) != 0),
        result=lambda c: [new_tr(c, named_type(c.ex, name))], hints=lambda c: inv_facts(c, c[0]) + tw_defs(c, c.res[0], kind),
        post=lambda c: [("rank", Z(c.fld(c.res[0], "rank")) == Z(c[0]))] + valid(c, c.res[0], kind), cost=30)
SEARCH = Loop(inv=search_inv, facts=search_facts, dec=lambda l: Q - search_x(l))
ctor("CyclotomicTransformer", "neg", {0: SEARCH, 1: Loop(inv=table_inv, facts=table_facts)})
# the cyclic transform: entry 2^l + i of the table is g^rv(K-1, i), so entry k is g^crv(K, k)
crv_ = z3.Function("cyclic_index", INT, INT, INT)
def crv_def(ex, K, l, i):        # definition: crv K (2^l + i) = rv (K-1) i  for l < K, i < 2^l
    K, l, i = (Z(num(x)) for x in (K, l, i)); p = Z(ex.pow2(l)); Km = z3.simplify(K - 1); ex.pow2(Km); ex.pow2(K)
    return [z3.Implies(z3.And(l >= 0, l < K, i >= 0, i < p), z3.And(crv_(K, p + i) == rv(Km, i), rv(Km, i) >= 0)), z3.Implies(z3.And(l >= 0, l < K), p <= Z(ex.pow2(Km)))]
def cyc_search_facts(l):
    N = Z(l.arg(0)); e1, e2 = ediv_(z3.simplify(Q - 1), z3.simplify(2 * N)), ediv_(z3.simplify(Q - 1), N); h = ediv_(N, z3.IntVal(2))
    t1, t2 = se_exps(l)
    f = [z3.Implies(z3.And(N > 0, Q - 1 == 2 * N * e1), z3.And(e2 == 2 * e1, e2 * N == Q - 1)), z3.Implies(z3.And(N == 2 * t2, t1 * N == Q - 1), z3.And(2 * t2 * t1 == Q - 1, 2 * t1 * t2 == Q - 1))]
    return f + search_facts(l)
def half_log(l):      # theorem log2_half
    N = Z(l.arg(0)); K = log_(N); h = Z(l.ex.qr(N, 2, l.st)[0]); l.ex.pow2(z3.simplify(K - 1))
    return [z3.Implies(z3.And(K >= 1, N == Z(l.ex.pow2(K))), z3.And(log_(h) == K - 1, N == 2 * h, log_(z3.simplify(N / 2)) == K - 1))]
def cyc_table(l): return slices_made(l)[2:4]
def cyc_refs(l): return slices_made(l)[:2]
def cyc_level(k, up):
    """loop contracts of the nest that fills table k from the powers, going up or down the levels"""
    def K(l): return log_(Z(l.arg(0)))
    def other(l):
        if k == 0: return []
        a = cyc_table(l)[0]; g = gval(l); N = Z(l.arg(0)); return [("the other table", l.c.all(1, N, lambda j: l.c.at(a, j) == fpow(g, crv_(K(l), j)), lambda j: l.c.at(a, j)))]
    def done(l, lo, hi):
        a = cyc_table(l)[k]; g = gval(l) if k == 0 else l.val(l.call("Inverse"))
        return l.c.all(lo, hi, lambda j: l.c.at(a, j) == fpow(g, crv_(K(l), j)), lambda j: l.c.at(a, j))
    def outer(l):
        L = Z(num(l.g("L"))); m = Z(l.v("m")); N = Z(l.arg(0)); P = Z(l.ex.pow2(L))
        if up: return [("level", z3.And(L >= 0, L <= K(l), m == P)), ("levels so far", done(l, 1, m))]
        return [("level", z3.And(L >= -1, L < K(l), z3.Implies(L >= 0, m == P), z3.Implies(L == -1, m == 0))), ("levels so far", done(l, z3.If(L >= 0, 2 * m, 1), N))] + other(l)
    def inner(l):
        L = Z(num(l.g("L"))); m = Z(l.ex.pow2(L)); i = Z(l.v("i")); N = Z(l.arg(0))
        if up: return [("entries so far", done(l, 1, m + i))]
        return [("entries so far", z3.And(done(l, m, m + i), done(l, 2 * m, N)))] + other(l)
    def facts(l):
        L = Z(num(l.g("L"))); ex = l.ex; ex.pow2(z3.simplify(L + 1)); ex.pow2(z3.simplify(L - 1)); ex.pow2(z3.simplify(K(l) - 1)); return half_log(l) + crv_def(ex, K(l), L, 0)
    def ifacts(l): return facts(l) + crv_def(l.ex, K(l), l.g("L"), l.v("i")) + rv_all(l.ex, z3.simplify(K(l) - 1))
    d = 1 if up else -1
    return (Loop(inv=outer, facts=facts, ghost={"L": (lambda l: z3.IntVal(0) if up else z3.simplify(K(l) - 1), lambda l, h: z3.simplify(h.g("L") + d))}, dec=(lambda l: K(l) - l.g("L")) if up else (lambda l: l.v("m"))),
            Loop(inv=inner, facts=ifacts, dec=lambda l: Z(l.ex.pow2(l.g("L"))) - Z(l.v("i"))))
_u, _d = cyc_level(0, True), cyc_level(1, False)
ctor("CyclicTransformer", "cyc", {0: Loop(inv=search_inv, facts=cyc_search_facts, dec=lambda l: Q - search_x(l)), 1: Loop(inv=table_inv, facts=lambda l: table_facts(l) + half_log(l)), 2: _u[0], 3: _u[1], 4: _d[0], 5: _d[1]})
# the evaluators hold a transformer of their own rank
def ev_ctor(name, t, kind):
    def post(c):
        b = c.fld(c.res[0], "baseOperator"); n = c.fld(b, "ntt"); p = n.v
        return [("rank", Z(c.fld(b, "rank")) == Z(c[0])), ("rank of the transformer", Z(c.fld(p, "rank")) == Z(c[0]))] + valid(c, p, kind)
    con(BP + "New" + name, pre=lambda c: [("rank in range", Z(c[0]) < (1 << 46))], mods=lambda c: [], panics=CONS[BP + "New" + t].panics, post=post)
ev_ctor("CyclotomicEvaluator", "CyclotomicTransformer", "neg"); ev_ctor("CyclicEvaluator", "CyclicTransformer", "cyc")
