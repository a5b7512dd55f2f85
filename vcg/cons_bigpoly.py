"""Contracts of math/bigpoly and math/bignum."""
import z3
from gen import *
BP = "github.com/sp301415/ringo-snark/math/bigpoly."
def M(t, m): return "(*%s%s[E]).%s" % (BP, t, m)
CONS = {}
def con(name, **k): CONS[name] = Con(name, **k); return CONS[name]

# ---- vectors
def vec(name, nin, f, scalar=False, alias=None):
    con(BP + name, pre=lambda c: [("inputs as long as the output", band(*[Z(c.len(c[1 + j])) >= Z(c.len(c[0])) for j in range(nin)]))],
        mods=lambda c: [c[0]], elem=lambda c: [(c[0], lambda k: f(c, k))], alias=alias)
al2 = [((0, 1),)]; al3 = [((0, 1),), ((0, 2),), ((1, 2),), ((0, 1, 2),)]
vec("copyVecTo", 1, lambda c, k: c.old(c[1], k), alias=al2)
vec("addVecTo", 2, lambda c, k: fadd(c.old(c[1], k), c.old(c[2], k)), alias=al3)
vec("subVecTo", 2, lambda c, k: fsub(c.old(c[1], k), c.old(c[2], k)), alias=al3)
vec("negVecTo", 1, lambda c, k: fneg(c.old(c[1], k)), alias=al2)
vec("mulVecTo", 2, lambda c, k: fmul(c.old(c[1], k), c.old(c[2], k)), alias=al3)
vec("scalarMulVecTo", 1, lambda c, k: fmul(c.old(c[1], k), c.val(c[2], old=True)), alias=al2)

# ---- polynomials
def co(c, p, old=False): return c.fld(p, "Coeffs", old)
def flag(c, p, old=False): return B(c.fld(p, "IsNTT", old))
def new_poly(c, t, n, isntt):
    """a polynomial nobody else refers to"""
    ex = c.ex
    o = Obj("Poly", t, "sym")
    st = c.st; tf = ex.p.ut(t)["fields"]
    s = SliceV(Obj("coeffs", tf[0]["t"], "sym", "elems"), (), 0, n, n, tf[0]["t"])
    st.heap[(o.id, (0,))] = s; st.heap[(o.id, (1,))] = isntt
    return Ptr(o)
def poly_type(ex): 
    for k, d in enumerate(ex.p.types):
        if d["k"] == "named" and d["name"] == "Poly" and d.get("pkg", "").endswith("math/bigpoly"): return k
con(BP + "NewPoly", pre=lambda c: [("rank not negative", Z(c[0]) >= 0)], result=lambda c: [new_poly(c, poly_type(c.ex), c[0], c[1])],
    post=lambda c: [("rank", Z(c.len(co(c, c.res[0]))) == Z(c[0])), ("form", flag(c, c.res[0]) == B(c[1])),
                    ("coefficients zero", c.all(0, c[0], lambda k: c.at(co(c, c.res[0]), k) == fint(0), lambda k: c.at(co(c, c.res[0]), k)))],
    loops={0: Loop(cand=lambda L: [("zero so far", lambda l: forall(0, Z(l.v(0)) + s, lambda k, l=l: l.at(newest(l), k) == fint(0), lambda k: l.at(newest(l), k))) for s in (0, 1)])})
def newest(l):
    """the slice made by the function, found by its instruction"""
    for b in l.fn.blocks:
        for i in b["ins"]:
            if i["op"] == "makeslice": return l.env[i["n"]]
con(M("Poly", "CopyFrom"), pre=lambda c: [("source long enough", Z(c.len(co(c, c[1]))) >= Z(c.len(co(c, c[0]))))], mods=lambda c: [co(c, c[0]), (c[0], "IsNTT")], alias=al2,
    elem=lambda c: [(co(c, c[0], True), lambda k: c.old(co(c, c[1], True), k))], post=lambda c: [("form copied", flag(c, c[0]) == flag(c, c[1], True))])
con(M("Poly", "Clear"), mods=lambda c: [co(c, c[0])], elem=lambda c: [(co(c, c[0], True), lambda k: fint(0))])
con(M("Poly", "Rank"), mods=lambda c: [], result=lambda c: [c.len(co(c, c[0]))], post=lambda c: [("number of coefficients", Z(c.res[0]) == Z(c.len(co(c, c[0]))))])

# pev(a, off, N, x) = sum of a[off+j] x^j for j < N;   horner(a, off, N, x, k): the value of the coefficients from k on       (lean/horner.lean)
AR = z3.ArraySort(INT, F)
def arr(c, s, old=False):
    """the array a slice's elements live in, and where it starts"""
    k = z3.Int("k!arr"); t = c.at(s, k, old)
    t = z3.simplify(t) if not z3.is_select(t) else t
    if not z3.is_select(t): raise Unsupported("element array of %r" % (s,))
    return t.arg(0), Z(num(z3.simplify(t.arg(1) - k)))
pev_ = z3.Function("polyval", AR, INT, INT, F, F)
H_ = z3.Function("horner", AR, INT, INT, F, INT, F)
class Hn:
    def __init__(self, c):
        self.c, self.p, self.x = c, c.fld(c[0], "Coeffs", True), c.val(c[1], True); self.n = Z(c.len(self.p, True)); self.a = arr(c, self.p, True) + (self.n, self.x)
    def at(self, k): return H_(*self.a, Z(num(z3.simplify(Z(num(k))))))
    def unfold(self, k):
        k = Z(num(k)); n = self.n
        return [z3.Implies(k == n, self.at(k) == fint(0)), z3.Implies(z3.And(k >= 0, k < n), self.at(k) == fadd(fmul(self.at(k + 1), self.x), self.c.old(self.p, k)))]
    def value(self): return pev_(*self.a)
def ev_idx(l):
    """how far down the loop has come: the accumulator holds the coefficients from here on"""
    return Z(l.v(0)) + 1
con(M("Poly", "Evaluate"), panics=lambda c: flag(c, c[0], True),
    loops={0: Loop(inv=lambda l: [("partial value", l.val(l.acc()) == Hn(l.c).at(ev_idx(l)))], facts=lambda l: Hn(l.c).unfold(l.v(0)) + Hn(l.c).unfold(ev_idx(l)))},
    hints=lambda c: Hn(c).unfold(0) + Hn(c).unfold(Hn(c).n) + [Hn(c).value() == Hn(c).at(0)],      # theorem horner_is_evaluation
    result=lambda c: [c.ex.new_cell(c.st, Hn(c).value())],
    post=lambda c: [("the polynomial's value at the point", c.val(c.res[0]) == Hn(c).value()), ("not the transform", z3.Not(flag(c, c[0], True)))])

def rank(c, op=None): return Z(c.fld(op or c[0], "rank"))
def okn(c, *ps): return band(*[Z(c.len(co(c, p, True))) == Z(c.fld(c[0], "rank", True)) for p in ps])
def refused(c, ps, *more): return z3.Or(z3.Not(B(okn(c, *ps))), *[B(m) for m in more])
pmods = lambda c: [co(c, c[1]), (c[1], "IsNTT")]
def binop(name, f, form=None, need=None, self_in=False):
    con(M("baseOperator", name), mods=pmods, alias=[((1, 2),), ((1, 3),), ((2, 3),), ((1, 2, 3),)],
        panics=lambda c: refused(c, [c[1], c[2], c[3]], flag(c, c[2], True) != flag(c, c[3], True), *( [z3.Not(flag(c, c[2], True))] if need else [])),
        elem=lambda c: [(co(c, c[1], True), lambda k: f(c, k))],
        post=lambda c: [("form", flag(c, c[1]) == (z3.BoolVal(True) if form else flag(c, c[2], True))), ("accepted only if operable", z3.And(B(okn(c, c[1], c[2], c[3])), flag(c, c[2], True) == flag(c, c[3], True), *([flag(c, c[2], True)] if need else [])))])
o_ = lambda c, j, k: c.old(co(c, c[j], True), k)
binop("AddTo", lambda c, k: fadd(o_(c, 2, k), o_(c, 3, k)))
binop("SubTo", lambda c, k: fsub(o_(c, 2, k), o_(c, 3, k)))
binop("MulTo", lambda c, k: fmul(o_(c, 2, k), o_(c, 3, k)), True, True)
binop("MulAddTo", lambda c, k: fadd(o_(c, 1, k), fmul(o_(c, 2, k), o_(c, 3, k))), True, True)
binop("MulSubTo", lambda c, k: fsub(o_(c, 1, k), fmul(o_(c, 2, k), o_(c, 3, k))), True, True)
def unop(name, f):
    con(M("baseOperator", name), mods=pmods, alias=[((1, 2),)], panics=lambda c: refused(c, [c[1], c[2]]),
        elem=lambda c: [(co(c, c[1], True), lambda k: f(c, k))],
        post=lambda c: [("form", flag(c, c[1]) == flag(c, c[2], True)), ("accepted only if operable", okn(c, c[1], c[2]))])
sc = lambda c: c.val(c[3], True)
unop("NegTo", lambda c, k: fneg(o_(c, 2, k)))
unop("ScalarMulTo", lambda c, k: fmul(o_(c, 2, k), sc(c)))
unop("ScalarMulAddTo", lambda c, k: fadd(o_(c, 1, k), fmul(o_(c, 2, k), sc(c))))
unop("ScalarMulSubTo", lambda c, k: fsub(o_(c, 1, k), fmul(o_(c, 2, k), sc(c))))
# allocating forms
def alloc2(name, f, nin, need=False, scal=False):
    def ok(c): return z3.And(B(okn(c, *[c[j] for j in range(1, nin + 1)])), *([flag(c, c[1], True) == flag(c, c[2], True)] if nin == 2 else []), *([flag(c, c[1], True)] if need else []))
    con(M("baseOperator", name), alias=[((1, 2),)] if nin == 2 else [], mods=lambda c: [], panics=lambda c: z3.Not(ok(c)), pre=lambda c: [("rank not negative", rank(c) >= 0)],
        result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(c[0], "rank"), c.ex.fresh("isntt", BOOL))],
        elem=lambda c: [(co(c, c.res[0]), lambda k: f(c, k))] if c.res else [],
        post=lambda c: [("rank", Z(c.len(co(c, c.res[0]))) == rank(c)), ("form", flag(c, c.res[0]) == flag(c, c[1], True)), ("accepted only if operable", ok(c))])
alloc2("Add", lambda c, k: fadd(o_(c, 1, k), o_(c, 2, k)), 2)
alloc2("Sub", lambda c, k: fsub(o_(c, 1, k), o_(c, 2, k)), 2)
alloc2("Mul", lambda c, k: fmul(o_(c, 1, k), o_(c, 2, k)), 2, True)
alloc2("Neg", lambda c, k: fneg(o_(c, 1, k)), 1)
alloc2("ScalarMul", lambda c, k: fmul(o_(c, 1, k), c.val(c[2], True)), 1)

# pools hand out polynomials of the operator's rank that nobody else holds (newBaseOperator$1 makes them)
def pool(ex, st, p):
    c = Ctx(ex, ex.cur_ctx.args, st, st)
    op = c[0]
    for _ in range(4):
        names = [f["name"] for f in ex.p.ut(ex.type_at_p(op, st))["fields"]]
        if "rank" in names: break
        op = c.fld(op, "baseOperator")
    return new_poly(c, poly_type(ex), c.fld(op, "rank"), ex.fresh("isntt", BOOL))
con(BP + "newBaseOperator$1", setup=lambda c: None, pre=lambda c: [("rank not negative", Z(c.binds[0] if not isinstance(c.binds[0], Ptr) else c.ex.load(c.binds[0], c.ex.p.ut(c.ex.p.funcs[BP + "newBaseOperator$1"].freevars[0]["t"])["elem"], c.st0)) >= 0)],
    post=lambda c: [("a polynomial of the operator's rank", Z(c.len(co(c, c.res[0].v if isinstance(c.res[0], IfaceV) else c.res[0]))) == Z(c.binds[0] if not isinstance(c.binds[0], Ptr) else c.ex.load(c.binds[0], c.ex.p.ut(c.ex.p.funcs[BP + "newBaseOperator$1"].freevars[0]["t"])["elem"], c.st0)))])
HOOKS = {"pool": pool}

# ---- evaluators over the two rings
base = lambda c, k=0: c.fld(c[k], "baseOperator")
con(M("baseOperator", "NewPoly"), pre=lambda c: [("rank not negative", rank(c) >= 0)], mods=lambda c: [], result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(c[0], "rank"), c[1])],
    post=lambda c: [("rank", Z(c.len(co(c, c.res[0]))) == rank(c)), ("form", flag(c, c.res[0]) == B(c[1])),
                    ("coefficients zero", c.all(0, rank(c), lambda k: c.at(co(c, c.res[0]), k) == fint(0), lambda k: c.at(co(c, c.res[0]), k)))])
def qr_at(c, p, k): return c.at(co(c, p), k)
def qr_eq(c, quo, rem, p, N, n):
    u = lambda k: qr_at(c, quo, k); r = lambda k: qr_at(c, rem, k); old = lambda k: c.old(co(c, p, True), k)
    return [("dividend = quotient*(X^N-1) + remainder, low part", c.all(0, n, lambda k: z3.Implies(k < N, old(k) == fsub(r(k), u(k))), lambda k: [r(k), old(k)])),
            ("dividend = quotient*(X^N-1) + remainder, high part", c.all(0, n, lambda k: z3.Implies(k >= N, old(k) == fsub(fadd(r(k), u(k - N)), u(k))), lambda k: [r(k), old(k)]))]
def qr_inv(l):
    quo, rem = l.call("NewPoly", 0), l.call("NewPoly", 1); c = l.c; i = Z(l.v(0)); N = Z(l.arg(2)); n = Z(c.len(co(c, l.arg(1), True)))
    return qr_eq(c, quo, rem, l.arg(1), N, n) + [
        ("remainder cleared above", c.all(0, n, lambda k: z3.Implies(k > i, qr_at(c, rem, k) == fint(0)), lambda k: qr_at(c, rem, k))),
        ("quotient untouched below", c.all(0, n, lambda k: z3.Implies(k + N <= i, qr_at(c, quo, k) == fint(0)), lambda k: qr_at(c, quo, k))),
        ("quotient of bounded degree", c.all(0, n, lambda k: z3.Implies(k + N >= n, qr_at(c, quo, k) == fint(0)), lambda k: qr_at(c, quo, k))),
        ("lengths", z3.And(Z(c.len(co(c, quo))) == n, Z(c.len(co(c, rem))) == n)), ("position", z3.And(i < n, z3.Or(i >= N - 1, i == n - 1)))]
con(M("CyclicEvaluator", "QuoRemByVanishing"), pre=lambda c: [("N at least 1", Z(c[2]) >= 1), ("rank not negative", rank(c, base(c)) >= 0)], mods=lambda c: [],
    panics=lambda c: z3.Or(Z(c.len(co(c, c[1]))) != rank(c, base(c)), flag(c, c[1])),
    result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(base(c), "rank"), False), new_poly(c, poly_type(c.ex), c.fld(base(c), "rank"), False)],
    loops={0: Loop(inv=qr_inv)},
    post=lambda c: qr_eq(c, c.res[0], c.res[1], c[1], Z(c[2]), rank(c, base(c))) + [
        ("remainder of degree below N", c.all(0, rank(c, base(c)), lambda k: z3.Implies(k >= Z(c[2]), qr_at(c, c.res[1], k) == fint(0)), lambda k: qr_at(c, c.res[1], k))),
        ("quotient of degree below rank-N", c.all(0, rank(c, base(c)), lambda k: z3.Implies(k + Z(c[2]) >= rank(c, base(c)), qr_at(c, c.res[0], k) == fint(0)), lambda k: qr_at(c, c.res[0], k))),
        ("both of the evaluator's rank", z3.And(Z(c.len(co(c, c.res[0]))) == rank(c, base(c)), Z(c.len(co(c, c.res[1]))) == rank(c, base(c)))),
        ("input accepted only in coefficient form and of the right rank", z3.And(Z(c.len(co(c, c[1], True))) == rank(c, base(c)), z3.Not(flag(c, c[1], True)))), ("results in coefficient form", z3.And(z3.Not(flag(c, c.res[0])), z3.Not(flag(c, c.res[1]))))])

# ---- bignum.Exp
from lem import *
BN = "github.com/sp301415/ringo-snark/math/bignum."
def exp_inv(l):
    r, t = l.call("SetUint64"), l.call("Set")
    return [("r * t^e = x^e0", fmul(l.val(r), fpow(l.val(t), l.v(0))) == fpow(l.c.val(l.arg(0), True), l.arg(1)))]
con(BN + "Exp", mods=lambda c: [], result=lambda c: [c.ex.new_cell(c.st, c.ex.fresh("exp", F))],
    loops={0: Loop(inv=exp_inv, facts=lambda l: pow_half(l.val(l.call("Set")), l.v(0)), dec=lambda l: l.v(0))},
    post=lambda c: [("x to the e", c.val(c.res[0]) == fpow(c.val(c[0], True), c[1]))])

# ---- bit reversal
def br_inner(l):
    K = l.ex.K; L, a, bit, j = l.g("L"), l.g("a"), Z(l.v("bit")), Z(l.v("j")); i = Z(l.v("i"))
    return [("partial reversal", z3.And(L >= 0, bit == Z(l.ex.pow2(L)), a >= 0, a + 1 < 2 * bit, j == rv(L + 1, a), rv(K, i) == rv(L + 1, a + 1)))]
def br_len(l): return Z(l.len(l.arg(0)))
def br_outer(l):
    K = l.ex.K; i, j = Z(l.v("i")), Z(l.v("j")); v = l.arg(0); c = l.c
    return [("counter", z3.And(i >= 1, z3.Or(i <= br_len(l), br_len(l) <= 1))), ("reversed counter", z3.Implies(br_len(l) >= 1, j == rv(K, i - 1))),
            ("swapped so far", c.all(0, br_len(l), lambda k: c.at(v, k) == z3.If(z3.Or(k < i, rv(K, k) < i), c.old(v, rv(K, k)), c.old(v, k)), lambda k: c.at(v, k)))]


def br_pre(c):
    K = brK(c); return [("length a power of two", z3.And(K >= 0, Z(c.len(c[0])) == Z(c.ex.pow2(K))))]
log_ = z3.Function("log2", INT, INT)
def brK(c): return log_(Z(c.len(c[0])))
def br_axioms(c):
    K = brK(c); return rv_all(c.ex, K)
con(BP + "bitReverseInPlace", pre=br_pre, mods=lambda c: [c[0]], setup=lambda c: setattr(c.ex, "K", brK(c)),
    loops={0: Loop(inv=lambda l: br_outer(l), facts=lambda l: rv_all(l.ex, l.ex.K) + rv_unfold(l.ex, l.ex.K, 0) + [Z(l.ex.pow2(z3.simplify(l.ex.K - 1))) >= 0] + pw(l.ex, l.ex.K)),
           1: Loop(inv=lambda l: br_inner(l), dec=lambda l: l.v("bit"), ghost={"L": (lambda l: z3.simplify(l.ex.K - 1), lambda l, h: z3.simplify(h.g("L") - 1)), "a": (lambda l: z3.simplify(Z(l.v("i")) - 1), lambda l, h: z3.simplify((h.g("a") - 1) / 2))},
                   facts=lambda l: rv_unfold(l.ex, l.g("L") + 1, l.g("a")) + rv_unfold(l.ex, l.g("L") + 1, l.g("a") + 1) + pw(l.ex, l.g("L")) + pw(l.ex, l.g("L") + 1))},
    elem=None, hints=lambda c: rv_all(c.ex, brK(c)),
    post=lambda c: [("entry k holds what was at the reversed index", c.all(0, c.len(c[0]), lambda k: c.at(c[0], k) == c.old(c[0], rv(brK(c), k)), lambda k: c.at(c[0], k)))])
def pw(ex, L):
    L = z3.simplify(Z(L)); ex.pow2(L); return []

# ---- automorphisms
def EV(m): return M("CyclotomicEvaluator", m)
def evrank(c): return rank(c, base(c))
def evK(c): return log_(evrank(c))
def ispow2(ex, n):
    K = log_(Z(n)); return z3.And(K >= 0, Z(n) == Z(ex.pow2(K)))
def pol(c, p, k, old=False): return c.at(co(c, p, old), k, old)
def cof(c, p): return lambda k: c.at(co(c, p), k)
def opok(c, *ps): return [("operands of the evaluator's rank", band(*[Z(c.len(co(c, p))) == evrank(c) for p in ps]))]
def aut_goal(c, out, p, d, N, n):
    """coefficients 0..n-1 of p (before) are at their places in out"""
    J = lambda i: aut_(i, Z(d), Z(N)); o = lambda k: c.at(co(c, out), k); x = lambda k: pol(c, p, k, True)
    return [("coefficient i is at i*d mod 2N", c.all(0, n, lambda i: z3.Implies(J(i) < N, o(J(i)) == x(i)), lambda i: [J(i), x(i)])),
            ("with the sign of the wrap-around", c.all(0, n, lambda i: z3.Implies(J(i) >= N, o(J(i) - N) == fneg(x(i))), lambda i: [J(i), x(i)]))]
def aut_rng(d, N):
    i = z3.Int("i!ar"); return [z3.ForAll([i], z3.Implies(Z(N) > 0, z3.And(aut_(i, Z(d), Z(N)) >= 0, aut_(i, Z(d), Z(N)) < 2 * Z(N))), patterns=[aut_(i, Z(d), Z(N))])]      # a remainder modulo 2N
def aut_facts(l):
    c = l.c; N = evrank(c); d = l.arg(3); return aut_rng(d, N) + aut_def(l.ex, l.st, l.v("i"), d, N) + aut_inj(d, N, log_(N))
def autdef_pre(c): return opok(c, c[1], c[2]) + [("rank a power of two", ispow2(c.ex, evrank(c))), ("index odd and reduced", z3.And(Z(c[3]) % 2 == 1, Z(c[3]) >= 0, Z(c[3]) < 2 * evrank(c)))]
con(EV("autTo"), pre=autdef_pre, mods=pmods, alias=[((1, 2),)],
    loops={0: Loop(facts=aut_facts, inv=lambda l: aut_goal(l.c, l.call("Get"), l.arg(2), l.arg(3), evrank(l.c), Z(l.v("i"))))},
    post=lambda c: aut_goal(c, c[1], c[2], c[3], evrank(c), evrank(c)) + [("coefficient form", z3.Not(flag(c, c[1])))])
def autn(i, d, N):
    """index of the evaluation point that the automorphism of index d moves to i"""
    return z3.If(True, 0, 0)
autn_ = z3.Function("autntt", INT, INT, INT, INT)
def autn_def(ex, st, i, d, N):       # definition: autntt i d N = ((2i+1)*d mod 2N - 1) / 2; it is an index because the remainder is odd
    i, d, N = Z(num(i)), Z(num(d)), Z(num(N)); q, r = ex.qr(z3.simplify((2 * i + 1) * d), z3.simplify(2 * N), st); h = ex.qr(d, 2, st)[0]
    return [autn_(i, d, N) == (r - 1) / 2, z3.Implies(d == 2 * Z(h) + 1, i * d == 2 * (i * Z(h)) + i)]
def autn_rng(d, N):                  # theorem autntt_lt
    i = z3.Int("i!an"); return [z3.ForAll([i], z3.Implies(z3.And(Z(N) > 0, Z(d) % 2 == 1), z3.And(autn_(i, Z(d), Z(N)) >= 0, autn_(i, Z(d), Z(N)) < Z(N))), patterns=[autn_(i, Z(d), Z(N))])]
def autn_goal(c, out, p, d, N):
    K = log_(Z(N)); return [("value at a point is the old value at the point's image", c.all(0, N, lambda k: c.at(co(c, out), k) == pol(c, p, rv(K, autn_(rv(K, k), Z(d), Z(N))), True), lambda k: c.at(co(c, out), k)))]
def autn_inv(l):
    c = l.c; N = evrank(c); d = Z(l.arg(3)); buf = l.call("Get")
    return [("values so far", c.all(0, l.v("i"), lambda k: c.at(co(c, l.arg(1)), k) == c.at(co(c, buf), autn_(k, d, N)), lambda k: c.at(co(c, l.arg(1)), k)))]
con(EV("autNTTTo"), pre=autdef_pre, mods=pmods, alias=[((1, 2),)],
    loops={0: Loop(inv=autn_inv, facts=lambda l: autn_def(l.ex, l.st, l.v("i"), l.arg(3), evrank(l.c)) + autn_rng(l.arg(3), evrank(l.c)))},
    hints=lambda c: rv_all(c.ex, evK(c)) + autn_rng(c[3], evrank(c)),
    post=lambda c: autn_goal(c, c[1], c[2], c[3], evrank(c)) + [("transformed", flag(c, c[1]))])
def aut_d(c):
    """the index modulo 2N"""
    return Z(c.ex.qr(c[3], z3.simplify(2 * evrank(c)), c.st0)[1])
def autTo_post(c, out=None, p=None, d=None):
    out, p = out or c[1], p or c[2]; d = aut_d(c) if d is None else d; N = evrank(c); f = flag(c, p, True)
    return [(n, implies(z3.Not(f), g)) for n, g in aut_goal(c, out, p, d, N, N)] + [(n, implies(f, g)) for n, g in autn_goal(c, out, p, d, N)] + [("form kept", flag(c, out) == f)]
con(EV("AutTo"), pre=lambda c: [("rank a power of two", ispow2(c.ex, evrank(c)))], mods=pmods, alias=[((1, 2),)],
    panics=lambda c: z3.Or(Z(c.len(co(c, c[1]))) != evrank(c), Z(c.len(co(c, c[2]))) != evrank(c), Z(c[3]) % 2 == 0),
    setup=lambda c: (c.ex.ax.extend([Z(c[3]) == 2 * Z(c.ex.qr(c[3], 2, c.st)[0]) + Z(c.ex.qr(c[3], 2, c.st)[1])]), aut_d(c)),
    post=lambda c: autTo_post(c) + [("refused unless odd and of the right rank", z3.And(Z(c.len(co(c, c[1]))) == evrank(c), Z(c.len(co(c, c[2]))) == evrank(c), Z(c[3]) % 2 == 1))])
con(EV("Aut"), pre=lambda c: [("rank a power of two", ispow2(c.ex, evrank(c))), ("rank positive", evrank(c) >= 1)], mods=lambda c: [],
    panics=lambda c: z3.Or(Z(c.len(co(c, c[1]))) != evrank(c), Z(c[2]) % 2 == 0),
    setup=lambda c: (c.ex.ax.extend([Z(c[2]) == 2 * Z(c.ex.qr(c[2], 2, c.st)[0]) + Z(c.ex.qr(c[2], 2, c.st)[1])]), None),
    result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(base(c), "rank"), c.ex.fresh("isntt", BOOL))],
    post=lambda c: autTo_post(c, c.res[0], c[1], Z(c.ex.qr(c[2], z3.simplify(2 * evrank(c)), c.st0)[1])) + [("rank", Z(c.len(co(c, c.res[0]))) == evrank(c))])

# ---- modulus switching: nearest x Qb is the integer v with 2*(x*q - v*Qb) in (-Qb, Qb]        (exists and is unique: theorem nearest_unique)
nearest_ = z3.Function("nearest", INT, INT, INT)
def nearest_def(ex, x, Qb):
    """nearest is the only integer within the bounds (theorem nearest_unique), at the quotient and the one above"""
    x, Qb = Z(x), Z(Qb); t = z3.simplify(x * Q); q = Z(ex.qr(t, Qb, None)[0])
    return [z3.Implies(z3.And(Qb > 0, 2 * (t - Qb * w) <= Qb, 2 * (t - Qb * w) > -Qb), nearest_(x, Qb) == w) for w in (q, q + 1)]
def ms_goal(c, out, pb, Qb, n):
    return [("every coefficient is the nearest integer to c*q/Q", c.all(0, n, lambda k: c.at(co(c, out), k) == finj_(nearest_(c.old(pb, k), Z(Qb))), lambda k: c.at(co(c, out), k)))]
def ms_facts(l):
    c = l.c; return nearest_def(l.ex, c.old(l.arg(2), l.v("rangeint.iter") if "rangeint.iter" in l.phinames else l.v(0)), c.val(l.arg(3), True))
con(EV("ModSwitchTo"), pre=lambda c: [("Q positive", Z(c.val(c[3])) > 0), ("output of the evaluator's rank", Z(c.len(co(c, c[1]))) == evrank(c))], mods=pmods, panics=lambda c: Z(c.len(c[2])) != evrank(c),
    loops={0: Loop(inv=lambda l: [("q is the field's modulus, Q is untouched, half is floor(Q/2)", z3.And(Z(l.val(l.call("BigInt"))) == Q, Z(l.val(l.call("Rsh"))) == Z(l.ex.qr(l.c.val(l.arg(3), True), 2, l.st)[0])))] + ms_goal(l.c, l.arg(1), l.arg(2), l.c.val(l.arg(3), True), l.v(0)), facts=ms_facts)},
    post=lambda c: ms_goal(c, c[1], c[2], c.val(c[3], True), evrank(c)) + [("coefficient form", z3.Not(flag(c, c[1]))), ("as many coefficients as the rank", Z(c.len(c[2])) == evrank(c))])
con(EV("ModSwitch"), pre=lambda c: [("Q positive", Z(c.val(c[2])) > 0), ("rank not negative", evrank(c) >= 0)], mods=lambda c: [], panics=lambda c: Z(c.len(c[1])) != evrank(c),
    result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(base(c), "rank"), False)],
    post=lambda c: ms_goal(c, c.res[0], c[1], c.val(c[2], True), evrank(c)) + [("coefficient form", z3.Not(flag(c, c.res[0]))), ("rank", Z(c.len(co(c, c.res[0]))) == evrank(c))])
