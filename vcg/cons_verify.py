"""Contracts of the verifier of openings: the equations it checks, with the ring library's operations as functions of the values in the ring.

A ring element's value is its whole vector of residues: rv Q (content), in the product of the coefficient rings, where the library's coefficient-wise
operations are the ring operations; the transform, its inverse and the change of basis are functions of that value.  wf Q content rows lens: the
element has the ring's shape and reduced residues."""
from cons_jindo import *
from cons_jindo import CONS as _JD
CONS = dict(_JD)
def con(name, **k): CONS[name] = Con(name, **k)
from stubs import isqrt_, f64_
AA = z3.ArraySort(INT, ARI); A3 = z3.ArraySort(INT, AA)
rv_ = z3.Function("ring_value", INT, AA, F)
wf_ = z3.Function("in_ring", INT, AA, INT, ARI, BOOL)
nrm_ = z3.Function("norm_squared", INT, F, INT)
ns_ = z3.Function("norms_squared", INT, A3, INT, INT, INT)
part_ = z3.Function("norm_so_far", INT, AA, INT, INT)
bal_ = z3.Function("balanced", INT, AA, INT, INT)
Q_ = lambda g: g
def ix(x): return Z(num(z3.simplify(Z(num(x)))))
class P:
    """an element of a ring in memory: residues, number of rows, their lengths"""
    def __init__(self, ex, st, v):
        if isinstance(v, Ptr): v = StructV([ex.load_place(v.obj, tuple(v.path) + (0,), ex.p.ut(ex.type_at_p(v, st))["fields"][0]["t"], st)])
        self.ex, self.st, self.rows = ex, st, v.f[0]; r = self.rows
        if r.obj is None or r.off != 0: raise Unsupported("ring element that is part of a slice")
        self.o, self.p = ex.resolve(st, r.obj, r.path); self.u64 = ex.p.ut(ex.p.ut(r.t)["elem"])["elem"]
        self.C = self.read(("*", "*"), self.u64); self.lens = self.read(("*", "len"), "len"); self.n = Z(num(r.len))
    def read(self, sh, t):
        x = self.ex.leaf(self.st, self.o, shape(self.p) + sh, INT, t)
        for i in idxs(self.p): x = self.ex.simp_select(z3.Select(x, i))
        return x
    def wf(self, Q): return wf_(Q, self.C, self.n, self.lens)
    def rv(self, Q): return rv_(Q, self.C)
    def set(self, new):
        key = (self.o.id, shape(self.p) + ("*", "*")); base = self.ex.leaf(self.st, self.o, key[1], INT, self.u64)
        def put(arr, ix): return new if not ix else z3.Store(arr, ix[0], put(z3.Select(arr, ix[0]), ix[1:]))
        self.st.heap[key] = put(base, idxs(self.p)); self.ex.note_write(self.o, key[1])
class V:
    """a vector of ring elements"""
    def __init__(self, c, s): self.c, self.s = c, s; self.len = Z(c.len(s, True))
    def __call__(self, k, old=False): st = self.c.st0 if old else self.c.st; return P(self.c.ex, st, self.c.ex.elem(self.s, k, st))
def array(c, s, old=False):
    """residues of the elements of a vector as one array, and where it begins"""
    ex, st = c.ex, c.st0 if old else c.st; o, p = ex.resolve(st, s.obj, s.path); x = ex.leaf(st, o, shape(p) + ("*", 0, "*", "*"), INT, P(ex, st, ex.elem(s, 0, st)).u64)
    for i in idxs(p): x = z3.Select(x, i)
    return x, Z(s.off)
# ---- norms
def ring_of(c, g): return RNS(c, None).set_ring(g)
def wf_def(r, p, Q):
    """what it means to be in the ring"""
    l, k = z3.Ints("l!wf k!wf"); t = z3.Select(p.lens, l); x = z3.Select(z3.Select(p.C, l), k)
    return p.wf(Q) == z3.And(p.n == r.L, FA([l], z3.Implies(z3.And(l >= 0, l < r.L), t == r.N), patterns=[t]), FA([l, k], z3.Implies(z3.And(l >= 0, l < r.L, k >= 0, k < r.N), z3.And(x >= 0, x < r.q(l))), patterns=[x]))
class Norm:
    def __init__(self, c):
        self.c = c; self.r = RNS(c, c[2]); self.Q = self.r.Q; self.p = V(c, c[3]); self.A, self.off = array(c, c[3])
    def sum(self, i): return ns_(self.Q, self.A, self.off, ix(i))
    def part(self, i, j): return part_(self.Q, self.p(i).C, ix(j))
    def sum_step(self, i):
        i = ix(i); n = nrm_(self.Q, self.p(i).rv(self.Q)); return [self.sum(0) == 0, z3.Implies(i >= 0, self.sum(i + 1) == self.sum(i) + n), n == self.part(i, self.r.N), wf_def(self.r, self.p(i), self.Q)]
    def b(self, i, j): return bal_(self.Q, self.p(i).C, ix(j))
    def part_step(self, i, j, v):
        """the balanced value with these residues is unique: theorem rns_unique"""
        j = ix(j); b = self.b(i, j); x = z3.Select(self.p(i).C, z3.Int("l!u")); l = z3.Int("l!u"); q = self.r.q(l)
        isv = z3.And(2 * v > -self.Q, 2 * v <= self.Q, FA([l], z3.Implies(z3.And(l >= 0, l < self.r.L), emod(v, q) == z3.Select(x, j)), patterns=[q]))
        return [self.part(i, 0) == 0, z3.Implies(j >= 0, self.part(i, j + 1) == self.part(i, j) + b * b), z3.Implies(isv, v == b), z3.Implies(v == b, z3.simplify(v * v) == b * b)]
    def elems(self):
        k = z3.Int("k!norm"); t = self.p(k).wf(self.Q); return FA([k], z3.Implies(z3.And(k >= 0, k < self.p.len), t), patterns=[t])
    def want(self): return gen.fless_(f64_(isqrt_(self.sum(self.p.len))), self.c.ex.freal(self.c[4]))
def vn_pre(c):
    n = Norm(c); N = lambda g: Z(c.fld(c.ex.elem(c.fld(g, "SubRings", True), 0, c.st0), "N", True)); g = sub(c, c[0], "params", "ringQ", old=True)
    return n.r.valid() + level_ok(c, n.r.ring) + [("rings of one degree", z3.And(N(c[1]) == n.r.N, N(g) == n.r.N)), ("rings not empty", z3.And(Z(c.len(c.fld(c[1], "SubRings", True))) >= 1, Z(c.len(c.fld(g, "SubRings", True))) >= 1)), ("every element in the ring", n.elems())]
def vn_big(l): return [x for x in slices_made(l)][0]
def vn_acc(l, n):
    """the sum: the big integer whose root is taken"""
    return l.call("NewInt", n)
def vn_rec(l, i):
    """the coefficients are those of element i"""
    r = RNS(l.c, l.c[2], l.c.ex.elem(l.c[3], i, l.c.st0)); return r.values(vn_big(l), r.N)
vrfn = lambda m: "(*%sVerifier[E]).%s" % (JD, m)
def vn0(l): n = Norm(l.c); return n
con(vrfn("verifyNorm"), pre=vn_pre, mods=lambda c: [sub(c, c[2], "buf", n) for n in ("coeff", "mul", "acc", "accTmp")], result=lambda c: [c.ex.fresh("short", BOOL)],
    loops={1: Loop(inv=lambda l: [("norms so far", z3.And(Z(l.val(vn_acc(l, 0))) == Norm(l.c).sum(l.idx()), Norm(l.c).sum(l.idx()) >= 0))], facts=lambda l: Norm(l.c).sum_step(l.idx())),
           2: Loop(inv=lambda l: [("norm so far", z3.And(Z(l.val(vn_acc(l, 0))) == Norm(l.c).sum(l.idx(1)) + Norm(l.c).part(l.idx(1), l.idx()), Norm(l.c).part(l.idx(1), l.idx()) >= 0)), ("coefficients", vn_rec(l, l.idx(1))), ("position", z3.And(Z(l.idx()) >= 0, Z(l.idx()) <= Norm(l.c).r.N))], dec=lambda l: Norm(l.c).r.N - Z(l.idx()),
                   facts=lambda l: Norm(l.c).part_step(l.idx(1), l.idx(), Z(l.c.at(vn_big(l), l.idx()))))},
    hints=lambda c: Norm(c).sum_step(0),
    post=lambda c: [("accepted exactly when the root of all squared norms is below the bound", B(c.res[0]) == Norm(c).want())])
# ---- the ring library: operations on whole vectors of residues
ntt_ = z3.Function("ntt", INT, F, F); intt_ = z3.Function("inverse_ntt", INT, F, F); rinv_ = z3.Function("montgomery_inverse", INT, F); mont_ = z3.Function("montgomery_factor", INT, F)
rs_ = z3.Function("scalar", INT, ARI, F); modup_ = z3.Function("change_of_basis", INT, INT, F, F)
LR = "github.com/tuneinsight/lattigo/v6/ring."
def rtype(ex): return next(k for k, d in enumerate(ex.p.types) if d["k"] == "named" and d["str"] == LR + "Ring")
def rfield(ex, g, n): return g.f[[f["name"] for f in ex.p.ut(rtype(ex))["fields"]].index(n)]
def rq(ex, st, g):
    """which ring: its modulus. Operations are on all residues only at the full level"""
    lv = rfield(ex, g, "level"); ex.prove(st, Z(num(lv)) + 1 == Z(num(rfield(ex, g, "SubRings").len)), "ring at its full level")
    Q = Z(ex.elem_val(rfield(ex, g, "ModulusAtLevel"), lv, st)); R = ex.__dict__.setdefault("rings", [])
    if not any(x.eq(Q) for x in R): R.append(Q)
    return Q
def mont(x, Q): return fmul(x, rinv_(Q))
def ring_op(nin, f, acc=False):
    """reads the first nin elements (and the last, when it accumulates), writes the last"""
    def go(ex, st, a, i):
        Q = rq(ex, st, a[0]); xs = [t if isinstance(t, SliceV) else P(ex, st, t) for t in a[1:]]; out = xs[-1]
        for x in xs:
            if isinstance(x, P): ex.prove(st, x.wf(Q), "operand of the ring library has the ring's shape and reduced residues")
        v = f(Q, *[x.rv(Q) if isinstance(x, P) else scalar(ex, st, Q, x) for x in (xs if acc else xs[:nin])]); new = z3.FreshConst(AA, "ring"); out.set(new)
        st.pc.append(wf_(Q, new, out.n, out.lens)); st.pc.append(rv_(Q, new) == v); return ()
    return go
def scalar(ex, st, Q, s):
    o, p = ex.resolve(st, s.obj, s.path); x = ex.leaf(st, o, shape(p) + ("*",), INT, ex.p.ut(s.t)["elem"])
    for i in idxs(p): x = z3.Select(x, i)
    return rs_(Q, x)
def new_poly(ex, st, a, i):
    Q = rq(ex, st, a[0]); t = ex.p.ut(i["t"])["fields"][0]["t"]; subs = rfield(ex, a[0], "SubRings"); L = Z(num(subs.len)); s0 = ex.elem(subs, 0, st); N = Z(ex.getfield(s0, "N", st))
    o = Obj("poly", t, "zero", "elems"); st.heap[(o.id, ("*", "len"))] = z3.K(INT, N); r = StructV([SliceV(o, (), 0, L, L, t)]); p = P(ex, st, r)
    st.pc.append(p.wf(Q)); st.pc.append(p.rv(Q) == fint(0)); return r
def poly_copy(ex, st, a, i):
    d, s = P(ex, st, a[0]), P(ex, st, a[1]); new = z3.FreshConst(AA, "copy"); R = ex.__dict__.get("rings", [])
    g = [z3.And(d.wf(Q), s.wf(Q)) for Q in R]; ex.prove(st, z3.Or(*g) if g else False, "copied element is of the same ring")
    v = [s.rv(Q) for Q in R]; d.set(new)
    for Q, h, x in zip(R, g, v): st.pc.append(z3.Implies(h, wf_(Q, new, d.n, d.lens)))
    for Q, h, x in zip(R, g, v):
        if ex.quick(st, h, 2000): st.pc.append(rv_(Q, new) == x)
    return ()
def poly_equal(ex, st, a, i):
    d, s = P(ex, st, a[0]), P(ex, st, a[1]); R = ex.__dict__.get("rings", []); r = ex.fresh("equal", BOOL)
    for Q in R: st.pc.append(z3.Implies(z3.And(d.wf(Q), s.wf(Q)), r == (d.rv(Q) == s.rv(Q))))
    return r
def mod_up(ex, st, a, i):
    be, lq, lp, x, y = a; gq, gp = (ex.load(ex.getfield(be, n, st), rtype(ex), st) for n in ("ringQ", "ringP")); Q, P_ = rq(ex, st, gq), rq(ex, st, gp); x, y = P(ex, st, x), P(ex, st, y)
    ex.prove(st, z3.And(Z(num(lq)) == Z(num(rfield(ex, gq, "level"))), Z(num(lp)) == Z(num(rfield(ex, gp, "level")))), "change of basis at the full levels"); ex.prove(st, z3.And(x.wf(Q), y.wf(P_)), "operands of the change of basis are in its rings")
    v = modup_(Q, P_, x.rv(Q)); new = z3.FreshConst(AA, "ring"); y.set(new); st.pc.append(wf_(P_, new, y.n, y.lens)); st.pc.append(rv_(P_, new) == v); return ()
RING = {"MulCoeffsMontgomery": ring_op(2, lambda Q, a, b: mont(fmul(a, b), Q)), "MulCoeffsMontgomeryThenAdd": ring_op(2, lambda Q, a, b, c: fadd(c, mont(fmul(a, b), Q)), True), "MulCoeffsMontgomeryThenSub": ring_op(2, lambda Q, a, b, c: fsub(c, mont(fmul(a, b), Q)), True),
        "MulRNSScalarMontgomery": ring_op(2, lambda Q, a, s: mont(fmul(a, s), Q)), "IMForm": ring_op(1, lambda Q, a: mont(a, Q)), "MForm": ring_op(1, lambda Q, a: fmul(a, mont_(Q))), "NTT": ring_op(1, lambda Q, a: ntt_(Q, a)), "INTT": ring_op(1, lambda Q, a: intt_(Q, a)),
        "Add": ring_op(2, lambda Q, a, b: fadd(a, b)), "Sub": ring_op(2, lambda Q, a, b: fsub(a, b)), "Neg": ring_op(1, lambda Q, a: fneg(a)), "NewPoly": new_poly}
STUBS = {"(%sRing).%s" % (LR, n): f for n, f in RING.items()}
STUBS["(*%sPoly).Copy" % LR] = poly_copy; STUBS["(%sPoly).Equal" % LR] = poly_equal; STUBS["(*%sBasisExtender).ModUpQtoP" % LR] = mod_up
def with_ring_library(c): c.ex.stubs.update(STUBS)
# ---- the outer commitment
def same_ring(c, *paths):
    """the reconstructors' and encoders' rings are the parameters' (their constructors put them there)"""
    for p, g in paths:
        o = c[0]
        for n in p[:-1]: o = Ptr(o.obj, o.path + (fidx(c, o, n),)) if not is_ptr(c, o, n) else c.fld(o, n)
        g = sub(c, c[0], "params", g); c.st.heap[(o.obj.id, shape(o.path) + (fidx(c, o, p[-1]),))] = g
def fidx(c, o, n): return [f["name"] for f in c.ex.p.ut(c.ex.type_at_p(o, c.st))["fields"]].index(n)
def is_ptr(c, o, n): return c.ex.p.ut(c.ex.p.ut(c.ex.type_at_p(o, c.st))["fields"][fidx(c, o, n)]["t"])["k"] == "ptr"
def place_is(c, p, g): return same_place(sub(c, c[0], *p), sub(c, c[0], "params", g))
def full(c, g): return Z(c.fld(g, "level", True)) + 1 == Z(c.len(c.fld(g, "SubRings", True)))
class Vf:
    """what the verifier's checks are about"""
    def __init__(self, c): self.c = c; self.Q, self.R = (ring_of(c, sub(c, c[0], "params", n, old=True)) for n in ("ringQ", "ringQOut"))
    def par(self, n): return Z(sub(self.c, self.c[0], "params", n, old=True))
    def pf(self, k, n): return V(self.c, self.c.fld(self.c[k], n, True))
    def ckrow(self, n, i): ck = self.c.fld(self.c[0], "ck", True); return V(self.c, self.c.ex.elem(self.c.fld(ck, n, True), i, self.c.st0))
    def ckrows(self, n): ck = self.c.fld(self.c[0], "ck", True); return Z(self.c.len(self.c.fld(ck, n, True), True))
    def com(self, j, i=None): v = V(self.c, self.c.fld(self.c.ex.elem(self.c[2], j, self.c.st0), "Value", True)); return v if i is None else v(i, True)
    def scalar(self, n, Q): return scalar(self.c.ex, self.c.st0, Q, self.c.fld(self.c[0], n, True))
    def all_in(self, v, n, Q, name, eager=False):
        k = z3.Int("k!in"); p = v(k, True); t = p.wf(Q); return [("enough elements: " + name, v.len >= n), (name + " in the ring", FA([k], z3.Implies(z3.And(k >= 0, k < v.len), t), patterns=[t] + ([p.C, p.n, p.lens] if eager else [])))]
    def key(self, n, rows, cols, Q):
        i, k = z3.Ints("i!ck k!ck"); v = self.ckrow(n, i); t = v(k, True).wf(Q)
        return [("enough rows of the key " + n, self.ckrows(n) >= rows), ("rows of the key %s long enough" % n, FA([i], z3.Implies(z3.And(i >= 0, i < rows), v.len >= cols), patterns=[v.len])), ("key %s in the ring" % n, FA([i, k], z3.Implies(z3.And(i >= 0, i < rows, k >= 0, k < cols), t), patterns=[t]))]
    def rings(self):
        out = []
        for r, n in ((self.Q, "ringQ"), (self.R, "ringQOut")):
            g = sub(self.c, self.c[0], "params", n, old=True); out += [(n + " " + x, y) for x, y in r.moduli() + level_ok(self.c, g)] + [(n + " at its full level", full(self.c, g))]
        return out + [("rings of one degree", self.Q.N == self.R.N)]
acc_ = lambda n: z3.Function("sum_" + n, INT, INT, F)
def steps(f, i, j, term):
    """the sum over j' < j of term(i, j')"""
    i, j = ix(i), ix(j); return [f(i, 0) == fint(0), f(i, z3.simplify(j + 1)) == fadd(f(i, j), term(i, j))]
class Norms:
    """norm check of a vector given by its values"""
    def __init__(self, name): self.T = z3.Function(name + "_vector", INT, F); self.S = z3.Function(name + "_norms", INT, INT)
    def congruence(self, Q, n):
        """theorem sum_congr: sums of equal terms are equal"""
        A, o, k, N = z3.Const("A!cg", A3), z3.Int("o!cg"), z3.Int("k!cg"), z3.Int("n!cg"); t = ns_(Q, A, o, N)
        return FA([A, o, N], z3.Implies(z3.And(N == n, FA([k], z3.Implies(z3.And(k >= 0, k < n), rv_(Q, z3.Select(A, o + k)) == self.T(k)))), t == self.S(n)), patterns=[t])
    def below(self, c, n, nm): return gen.fless_(f64_(isqrt_(self.S(n))), c.ex.freal(nm))
ON = Norms("outer"); osum_, ocom_ = acc_("outer_key"), acc_("outer_commitments")
class Out_(Vf):
    def __init__(self, c): super().__init__(c); self.n, self.m = self.par("inComDcmpLen"), self.par("outMSISRank"); self.batch = V(c, c[1]); self.ic, self.iv = self.pf(3, "InCommit"), self.pf(4, "InCommit"); self.q = self.R.Q
    def key_term(self, i, j): return mont(fmul(self.ckrow("Out", i)(j, True).rv(self.q), self.ic(j, True).rv(self.q)), self.q)
    def com_term(self, i, j): return mont(fmul(self.com(j, i).rv(self.q), self.batch(j, True).rv(self.q)), self.q)
    def combined(self, i): return z3.If(self.par("batch") > 1, ocom_(i, self.par("batch")), self.com(0, i).rv(self.q))
    def cut(self, i): return mont(fmul(self.combined(i), self.scalar("outCutOff", self.q)), self.q)
    def cutm(self, i, many): return mont(fmul(ocom_(i, self.par("batch")) if many else self.com(0, i).rv(self.q), self.scalar("outCutOff", self.q)), self.q)
    def value(self, i, many): i = ix(i); return intt_(self.q, mont(fsub(self.cutm(i, many), osum_(i, self.n)), self.q))
    def defs(self):
        c = self.c; k = z3.Int("k!od"); t = ON.T(k); x = self.iv(k, True).rv(self.q); many = self.par("batch") > 1
        return [FA([k], z3.Implies(z3.And(k >= 0, k < self.n), t == x), patterns=[t]), ON.congruence(self.q, z3.simplify(self.n + self.m))]
    def tail(self, i):
        """entry i of what is cut off"""
        i = ix(i); many = self.par("batch") > 1; t = ON.T(z3.simplify(self.n + i)); return [z3.Implies(many, t == self.value(i, True)), z3.Implies(z3.Not(many), t == self.value(i, False))]
    def pre(self):
        c = self.c; b = self.par("batch"); j, i = z3.Ints("j!cm i!cm"); v = self.com(j); t = v(i, True).wf(self.q); k = z3.Int("k!ba"); bt = self.batch(k, True).wf(self.q)
        rns = RNS(c, c.fld(c[0], "rnsOut"))
        return self.rings() + [("the reconstructor's ring", place_is(c, ("rnsOut", "ringQ"), "ringQOut"))] + rns.valid() + self.all_in(self.ic, self.n, self.q, "inner commitments") + self.all_in(self.iv, self.n, self.q, "inner commitments transformed back") + [("as many as needed", z3.And(self.iv.len == self.n, self.n >= 1, self.m >= 1, b >= 1, Z(c.len(c[2])) >= b)),
               ("commitments long enough", FA([j], z3.Implies(z3.And(j >= 0, j < b), v.len >= self.m), patterns=[v.len])), ("commitments in the ring", FA([j, i], z3.Implies(z3.And(j >= 0, j < b, i >= 0, i < self.m), t), patterns=[t])),
               ("weights", z3.Implies(b > 1, z3.And(self.batch.len >= b, FA([k], z3.Implies(z3.And(k >= 0, k < b), bt), patterns=[bt]))))] + self.key("Out", self.m, self.n, self.q)
def appended(l, n=0):
    """the vector made by appending"""
    for b in l.fn.blocks:
        for i in b["ins"]:
            if i["op"] == "call" and isinstance(i["fn"], dict) and i["fn"]["c"] == "builtin" and i["fn"]["name"] == "append" and i.get("n") in l.env: r = l.env[i["n"]]
    return r
def od(l): return V(l.c, appended(l))
def vec_same(d, v, n):
    k = z3.Int("k!same"); a, b = d(k), v(k, True); g = z3.And(k >= 0, k < n)
    return [("first part unchanged", z3.And([FA([k], z3.Implies(g, x == y), patterns=[x]) for x, y in ((a.C, b.C), (a.n, b.n), (a.lens, b.lens))]))]
def od_same(l): o = Out_(l.c); return vec_same(od(l), o.iv, o.n)
def od_done(l, n):
    o = Out_(l.c); d = od(l); k = z3.Int("k!done"); a = d(k); g = z3.And(k >= o.n, k < o.n + n)
    return [("cut-offs so far", z3.And(FA([k], z3.Implies(g, a.rv(o.q) == ON.T(k)), patterns=[a.rv(o.q)]), FA([k], z3.Implies(g, a.wf(o.q)), patterns=[a.wf(o.q)])))]
def od_cur(l, i, v):
    o = Out_(l.c); a = od(l)(z3.simplify(o.n + Z(i))); return [("this one so far", a.rv(o.q) == v), ("this one in the ring", a.wf(o.q))]
def od_last(l):
    i = Z(l.head.idx()); o = Out_(l.c); many = o.par("batch") > 1; x = od(l)(z3.simplify(o.n + i)).rv(o.q)
    return [("cut off", z3.And(z3.Implies(many, x == o.value(i, True)), z3.Implies(z3.Not(many), x == o.value(i, False))))]
def od_cut(l, i, s):
    o = Out_(l.c); many = o.par("batch") > 1; a, w = od_cur(l, i, fint(0)); x = od(l)(z3.simplify(o.n + Z(i))).rv(o.q)
    return [("this one so far", z3.And(z3.Implies(many, x == fsub(o.cutm(ix(i), True), s)), z3.Implies(z3.Not(many), x == fsub(o.cutm(ix(i), False), s)))), w]
con(vrfn("verifyOuterCommitment"), branch_ms=150, cost=15, pre=lambda c: Out_(c).pre(), setup=lambda c: (with_ring_library(c), same_ring(c, (("rnsOut", "ringQ"), "ringQOut")), c.ex.ax.extend(Out_(c).defs())),
    mods=lambda c: [sub(c, c[0], "rnsOut", "buf", n) for n in ("coeff", "mul", "acc", "accTmp")], result=lambda c: [c.ex.fresh("outer", BOOL)],
    loops={0: Loop(inv=lambda l: od_same(l) + od_done(l, Z(l.idx())), last=lambda l: od_last(l), facts=lambda l: Out_(l.c).tail(l.idx()) + steps(osum_, l.idx(), 0, Out_(l.c).key_term) + steps(ocom_, l.idx(), 0, Out_(l.c).com_term)),
           1: Loop(inv=lambda l: od_same(l) + od_done(l, Z(l.idx(1))) + od_cur(l, l.idx(1), ocom_(Z(l.idx(1)), Z(l.idx()))), facts=lambda l: steps(ocom_, l.idx(1), l.idx(), Out_(l.c).com_term)),
           2: Loop(inv=lambda l: od_same(l) + od_done(l, Z(l.idx(1))) + od_cut(l, l.idx(1), osum_(Z(l.idx(1)), Z(l.idx()))), facts=lambda l: steps(osum_, l.idx(1), l.idx(), Out_(l.c).key_term))},
    post=lambda c: [("accepted exactly when the norms of the inner commitments and of what is cut off are below the bound", B(c.res[0]) == ON.below(c, z3.simplify(Out_(c).n + Out_(c).m), sub(c, c[0], "params", "inComDcmpTwoNm", old=True)))])
# ---- the inner commitment
IN = Norms("inner"); isum_, iek_, imk_ = acc_("inner_commitments"), acc_("inner_key"), acc_("inner_masking_key")
class In_(Vf):
    def __init__(self, c):
        super().__init__(c); self.q, self.qo = self.Q.Q, self.R.Q; self.rows, self.mlwe, self.msis, self.cols = (self.par(n) for n in ("rows", "mlweRank", "inMSISRank", "cols"))
        self.ch = V(c, c[1]); self.enc, self.ml = self.pf(2, "Encode"), self.pf(2, "MLWE"); self.ie, self.im, self.ic = (self.pf(3, n) for n in ("Encode", "MLWE", "InCommit")); self.nm = z3.simplify(self.mlwe + self.msis); self.n = z3.simplify(self.rows + self.mlwe + self.msis)
    def up(self, i, j): return ntt_(self.q, fmul(modup_(self.qo, self.q, self.ic(z3.simplify(j * self.msis + i), True).rv(self.qo)), mont_(self.q)))
    def com_term(self, i, j): return mont(fmul(self.up(i, j), self.ch(j, True).rv(self.q)), self.q)
    def key_term(self, i, j): return mont(fmul(self.ckrow("In", i)(j, True).rv(self.q), self.enc(j, True).rv(self.q)), self.q)
    def mask_term(self, i, j): return mont(fmul(self.ckrow("MLWE", i)(j, True).rv(self.q), self.ml(j, True).rv(self.q)), self.q)
    def combined(self, i): i = ix(i); return fadd(isum_(i, self.cols), self.up(i, self.cols))
    def cut(self, i): return mont(fmul(self.combined(i), self.scalar("inCutOff", self.q)), self.q)
    def value(self, i):
        i = ix(i); r = fsub(fsub(self.cut(i), iek_(i, self.rows)), imk_(i, self.mlwe)); return intt_(self.q, mont(fsub(r, self.ml(z3.simplify(self.mlwe + i), True).rv(self.q)), self.q))
    def defs(self):
        k = z3.Int("k!id"); t = IN.T(k)
        return [FA([k], z3.Implies(z3.And(k >= 0, k < self.rows), t == self.ie(k, True).rv(self.q)), patterns=[t]), FA([k], z3.Implies(z3.And(k >= self.rows, k < self.n), t == self.im(k - self.rows, True).rv(self.q)), patterns=[t]), IN.congruence(self.q, z3.simplify(self.n + self.msis))]
    def tail(self, i): i = ix(i); return [IN.T(z3.simplify(self.n + i)) == self.value(i)]
    def pre(self):
        c = self.c; rns = RNS(c, sub(c, c[0], "ecd", "rns", old=True))
        return self.rings() + [("the reconstructor's ring", place_is(c, ("ecd", "rns", "ringQ"), "ringQ")), ("the change of basis", z3.And(place_is(c, ("embQOutToQ", "ringQ"), "ringQOut"), place_is(c, ("embQOutToQ", "ringP"), "ringQ")))] + rns.valid() + [("as many as needed", z3.And(self.ie.len == self.rows, self.im.len == self.nm, self.rows >= 1, self.mlwe >= 1, self.msis >= 1, self.cols >= 1))] + \
            self.all_in(self.enc, self.rows, self.q, "encodings") + self.all_in(self.ml, self.nm, self.q, "masks") + self.all_in(self.ie, self.rows, self.q, "encodings transformed back") + self.all_in(self.im, self.nm, self.q, "masks transformed back") + self.all_in(self.ic, (self.cols + 1) * self.msis, self.qo, "inner commitments transformed back") + \
            self.all_in(self.ch, self.cols, self.q, "challenges") + self.key("In", self.msis, self.rows, self.q) + self.key("MLWE", self.msis, self.mlwe, self.q)
def id_same(l):
    o = In_(l.c); d = od(l); k = z3.Int("k!same2"); a, b = d(k), o.im(k - o.rows, True); g = z3.And(k >= o.rows, k < o.n)
    return vec_same(od(l), o.ie, o.rows) + [("second part unchanged", z3.And([FA([k], z3.Implies(g, x == y), patterns=[x]) for x, y in ((a.C, b.C), (a.n, b.n), (a.lens, b.lens))]))]
def id_done(l, n):
    o = In_(l.c); d = od(l); k = z3.Int("k!done"); a = d(k); g = z3.And(k >= o.n, k < o.n + n)
    return [("cut-offs so far", z3.And(FA([k], z3.Implies(g, a.rv(o.q) == IN.T(k)), patterns=[a.rv(o.q)]), FA([k], z3.Implies(g, a.wf(o.q)), patterns=[a.wf(o.q)])))]
def up_place(l): return P(l.c.ex, l.c.st, l.call("NewPoly", 0))
def id_up(l): return [("the changed basis' element in the ring", up_place(l).wf(In_(l.c).q))]
def id_at(l, i): o = In_(l.c); return od(l)(z3.simplify(o.n + Z(i)))
def id_cur(l, i, v): o = In_(l.c); a = id_at(l, i); return [("this one so far", a.rv(o.q) == v), ("this one in the ring", a.wf(o.q))]
def id_sum(l):
    o = In_(l.c); i, j = Z(l.idx(1)), Z(l.idx()); a = id_at(l, i)
    return [("commitments so far", z3.And(z3.Implies(j <= o.cols, a.rv(o.q) == isum_(i, j)), z3.Implies(j == o.cols + 1, a.rv(o.q) == o.combined(i)))), ("this one in the ring", a.wf(o.q))]
def id_facts(l, i, j):
    o = In_(l.c); return o.tail(i) + steps(isum_, i, j, o.com_term) + steps(iek_, i, j, o.key_term) + steps(imk_, i, j, o.mask_term)
def id_last(l): o = In_(l.c); i = Z(l.head.idx()); return [("cut off", id_at(l, i).rv(o.q) == o.value(i))]
def id_base(l): return id_same(l) + id_done(l, Z(l.idx(1)))
con(vrfn("verifyInnerCommitment"), branch_ms=150, cost=200, limit=700, pre=lambda c: In_(c).pre(), setup=lambda c: (with_ring_library(c), same_ring(c, (("ecd", "rns", "ringQ"), "ringQ"), (("embQOutToQ", "ringQ"), "ringQOut"), (("embQOutToQ", "ringP"), "ringQ")), c.ex.ax.extend(In_(c).defs())),
    mods=lambda c: [sub(c, c[0], "ecd", "rns", "buf", n) for n in ("coeff", "mul", "acc", "accTmp")], result=lambda c: [c.ex.fresh("inner", BOOL)],
    loops={0: Loop(inv=lambda l: id_same(l) + id_done(l, Z(l.idx())) + id_up(l), last=lambda l: id_last(l), facts=lambda l: id_facts(l, l.idx(), 0)),
           1: Loop(inv=lambda l: id_base(l) + id_up(l) + id_sum(l), facts=lambda l: id_facts(l, l.idx(1), l.idx())),
           2: Loop(inv=lambda l: id_base(l) + id_up(l) + id_cur(l, l.idx(1), fsub(In_(l.c).cut(l.idx(1)), iek_(Z(l.idx(1)), Z(l.idx())))), facts=lambda l: id_facts(l, l.idx(1), l.idx())),
           3: Loop(inv=lambda l: id_base(l) + id_up(l) + id_cur(l, l.idx(1), fsub(fsub(In_(l.c).cut(l.idx(1)), iek_(Z(l.idx(1)), In_(l.c).rows)), imk_(Z(l.idx(1)), Z(l.idx())))), facts=lambda l: id_facts(l, l.idx(1), l.idx()))},
    post=lambda c: [("accepted exactly when the norms of encodings, masks and of what is cut off are below the bound", B(c.res[0]) == IN.below(c, z3.simplify(In_(c).n + In_(c).msis), sub(c, c[0], "params", "resTwoNm", old=True)))])
# ---- encodings of one value, and the consistency of the opening
enc1_ = z3.Function("encoded_value", INT, INT, INT, INT, F, F)
class Enc1(BE):
    """the transform, in Montgomery form, of the element whose position (j, 0) holds digit j of the value, and zero elsewhere"""
    def __init__(self, c, e=None, v=None):
        Ecd.__init__(self, c, e)
        self.r = ring_of(c, sub(c, self.e, "params", "ringQ", old=True)); self.Q = self.r.Q
        if v is None: self.p, self.v = c[1], c[2]; self.nv = Z(c.len(self.v))
    def of(self, x): return ntt_(self.Q, fmul(enc1_(self.Q, self.b, self.n, self.S, x), mont_(self.Q)))
    def pre(self):
        return self.valid() + [(a, b) for a, b in self.r.moduli()] + level_ok(self.c, self.r.ring_) + [("ring at its full level", full(self.c, self.r.ring_)), ("as many coefficients as digits", self.r.N == self.S * self.n), ("digits below the moduli", self.r.each(lambda l: self.b < self.r.q(l)))]
    def defs(self):
        """which element has the encoding as its value, what it is to be in the ring;  theorem position_below"""
        C, n, ls, k, m = z3.Const("C!en", AA), z3.Int("n!en"), z3.Const("l!en", ARI), z3.Int("k!en"), z3.Int("m!en"); r = self.r; x = z3.Select(z3.Select(C, k), m); g = z3.And(k >= 0, k < r.L, m >= 0, m < r.N); j, i = self.at(m)
        v = self.c.old(self.v, 0); w = z3.And(z3.Implies(i == 0, x == self.want(j, 0)), z3.Implies(i != 0, x == 0)); t = rv_(self.Q, C); u = wf_(self.Q, C, n, ls); y = z3.Select(ls, k)
        jj = z3.Int("j!en"); rr = rest_(self.x(0), self.b, jj); dg = gen.emod_(rr, self.b)
        return [FA([jj], z3.Implies(self.b > 0, z3.And(dg >= 0, dg < self.b)), patterns=[dg]), FA([C], z3.Implies(FA([k, m], z3.Implies(g, w)), t == enc1_(self.Q, self.b, self.n, self.S, v)), patterns=[t]),
                FA([C, n, ls], u == z3.And(n == r.L, FA([k], z3.Implies(z3.And(k >= 0, k < r.L), y == r.N), patterns=[y]), FA([k, m], z3.Implies(g, z3.And(x >= 0, x < r.q(k))), patterns=[x])), patterns=[u]),
                FA([m], z3.Implies(z3.And(m >= 0, m < r.N), j < self.n), patterns=[j])] + positions(self.S) + self.top(self.x(0)) + [z3.And(self.x(0) >= 0, self.x(0) <= bpow_(self.b, self.n))]
def full_ring(c, e): return sub(c, e, "params", "ringQ", old=True)
_so = RNS.set_ring
def _sr(self, g): self.ring_ = g; return _so(self, g)
RNS.set_ring = _sr
def en_p(c, old=False): return P(c.ex, c.st0 if old else c.st, c[1])
con("(*%sEncoder[E]).encodeTo" % JD, pre=lambda c: Enc1(c).pre() + [("one value", Enc1(c).nv == 1), ("element of the ring", en_p(c, True).wf(Enc1(c).Q))], setup=lambda c: (with_ring_library(c), c.ex.ax.extend(Enc1(c).defs())), mods=lambda c: [rows(c[1]), Enc1(c).buf],
    post=lambda c: [("the encoding of the value, transformed", en_p(c).rv(Enc1(c).Q) == Enc1(c).of(c.old(c[2], 0))), ("element of the ring", en_p(c).wf(Enc1(c).Q))])
wfl_ = z3.Function("in_ring_lazily", INT, AA, INT, ARI, BOOL)
def mform_lazy(ex, st, a, i):
    """residues below twice the modulus"""
    Q = rq(ex, st, a[0]); x, y = P(ex, st, a[1]), P(ex, st, a[2]); ex.prove(st, z3.And(x.wf(Q), y.n == x.n), "operand of the ring library has the ring's shape and reduced residues"); v = fmul(x.rv(Q), mont_(Q))
    new = z3.FreshConst(AA, "lazy"); y.set(new); st.pc.append(wfl_(Q, new, y.n, y.lens)); st.pc.append(rv_(Q, new) == v); return ()
def ntt_op(ex, st, a, i):
    """takes lazily reduced residues too"""
    Q = rq(ex, st, a[0]); x, y = P(ex, st, a[1]), P(ex, st, a[2]); ex.prove(st, z3.Or(x.wf(Q), wfl_(Q, x.C, x.n, x.lens)), "operand of the transform is in the ring, at least lazily reduced"); v = ntt_(Q, x.rv(Q))
    new = z3.FreshConst(AA, "ring"); y.set(new); st.pc.append(wf_(Q, new, y.n, y.lens)); st.pc.append(rv_(Q, new) == v); return ()
STUBS["(%sRing).MFormLazy" % LR] = mform_lazy; STUBS["(%sRing).NTT" % LR] = ntt_op
lv_ = z3.Function("left_value", INT, F); esum_, csum_ = acc_("encodings"), acc_("challenges"); gap_ = z3.Const("consistency_gap", F)
class Cons_(Vf):
    def __init__(self, c):
        super().__init__(c); self.q = self.Q.Q; self.rows, self.cols, self.slots = (self.par(n) for n in ("rows", "cols", "slots")); self.ch, self.enc, self.part = V(c, c[2]), self.pf(3, "Encode"), self.pf(3, "Partial")
        self.mask = P(c.ex, c.st0, c.fld(c[3], "PartialMask", True)); self.en = Enc1(c, c.fld(c[0], "ecd", True), False); self.skip = fpow(c.val(c[1], True), z3.simplify(self.cols * self.slots))
    def enc_term(self, _, j): return mont(fmul(self.en.of(lv_(j)), self.enc(j, True).rv(self.q)), self.q)
    def chal_term(self, _, j): return mont(fmul(self.ch(j, True).rv(self.q), self.part(j, True).rv(self.q)), self.q)
    def gap(self): return fsub(fsub(esum_(0, self.rows), csum_(0, self.cols)), self.mask.rv(self.q))
    def defs(self):
        k = z3.Int("k!lv"); t = lv_(k); return [FA([k], z3.Implies(z3.And(k >= 0, k < self.rows - 1), t == fpow(self.skip, k)), patterns=[t]), lv_(self.rows - 1) == self.c.val(self.c[1], True), gap_ == self.gap()]
    def pre(self):
        return self.rings() + [("the encoder's ring", place_is(self.c, ("ecd", "params", "ringQ"), "ringQ"))] + self.en.pre() + [("sizes", z3.And(self.rows >= 1, self.cols >= 1, self.cols * self.slots >= 1, self.cols * self.slots < (1 << 62)))] + self.all_in(self.ch, self.cols, self.q, "challenges") + \
            self.all_in(self.enc, self.rows, self.q, "encodings") + self.all_in(self.part, self.cols, self.q, "partial evaluations") + [("mask in the ring", self.mask.wf(self.q))]
def vc_p(l, k): return P(l.c.ex, l.c.st, l.call("NewPoly", k))
def vc_cur(l, v): p = vc_p(l, 1); q = Cons_(l.c).q; return [("this far", p.rv(q) == v), ("sum in the ring", p.wf(q))]
def vc_left(l): return [("buffer in the ring", vc_p(l, 2).wf(Cons_(l.c).q))]
def vc_powers(l):
    o = Cons_(l.c); s = l.call("leftVec"); return [("powers", z3.And(pows(l.c, s, o.skip, o.rows - 1), l.c.at(s, o.rows - 1) == l.c.val(l.c[1], True)))]
def vc_equal(ex, st, a, i):
    """first, that what is compared is the gap"""
    d, s = P(ex, st, a[0]), P(ex, st, a[1]); Q = ex.rings[0]
    for x in (d, s):
        if not ex.quick(st, x.rv(Q) == fint(0)): ex.prove(st, x.rv(Q) == gap_, "what is compared with zero is the gap")
    return poly_equal(ex, st, a, i)
con(vrfn("verifyConsistency"), branch_ms=150, pre=lambda c: Cons_(c).pre(), setup=lambda c: (with_ring_library(c), c.ex.stubs.update({"(%sPoly).Equal" % LR: vc_equal}), same_ring(c, (("ecd", "params", "ringQ"), "ringQ")), c.ex.ax.extend(Cons_(c).defs())),
    mods=lambda c: [sub(c, c[0], "ecd", "buf", "coeff")], result=lambda c: [c.ex.fresh("consistent", BOOL)],
    loops={0: Loop(inv=lambda l: vc_powers(l) + vc_left(l) + vc_cur(l, esum_(0, Z(l.idx()))), facts=lambda l: steps(esum_, 0, l.idx(), Cons_(l.c).enc_term)),
           1: Loop(inv=lambda l: vc_cur(l, fsub(esum_(0, Cons_(l.c).rows), csum_(0, Z(l.idx())))), facts=lambda l: steps(csum_, 0, l.idx(), Cons_(l.c).chal_term))},
    post=lambda c: [("accepted exactly when the combined encodings are the combined partial evaluations and the mask", B(c.res[0]) == (gap_ == fint(0)))])
# ---- the value of the opening
import copy
dvv_ = z3.Function("decoded_value", INT, INT, INT, INT, F, INT, F)
_dec = "(*%sEncoder[E]).DecodeTo" % JD
class DecV(Dec):
    """decoding as a function of the element's value: residues in range are determined by it, and with them the balanced coefficients (theorem rns_unique)"""
    def __init__(self, c): super().__init__(c); self.r = RNS(c, c.fld(c[0], "rns", True), c[2]); self.Q = self.r.Q; self.pp = P(c.ex, c.st0, c[2])
    def of(self, i): return dvv_(self.Q, self.b, self.n, self.S, self.pp.rv(self.Q), i)
    def hints(self):
        C = arr(self.c, sub(self.c, self.c[0], "buf", "coeffBig")); a, o = C; m, l, i = z3.Int("m!dv"), z3.Int("l!dv"), z3.Int("i!dv"); x = z3.Select(a, o + m); q = self.r.q(l); v = self.val(C, i, 0); bal = bal_(self.Q, self.pp.C, m); N = self.r.N
        isv = z3.And(2 * x > -self.Q, 2 * x <= self.Q, FA([l], z3.Implies(z3.And(l >= 0, l < self.r.L), emod(x, q) == z3.Select(z3.Select(self.pp.C, l), m)), patterns=[q]))
        return [FA([m], z3.Implies(z3.And(m >= 0, m < N, isv), x == bal), patterns=[bal]), FA([m], z3.Implies(z3.And(m >= 0, m < N, isv), x == bal), patterns=[x]),
                FA([i], z3.Implies(z3.And(i >= 0, i < self.S, FA([m], z3.Implies(z3.And(m >= 0, m < N), x == bal))), v == self.of(i)), patterns=[v])]
def dv_new(k):
    d = copy.copy(k); d.pre = lambda c: dec_pre(c) + [("element of the ring", DecV(c).pp.wf(DecV(c).Q))]; d.hints = lambda c: (k.hints(c) if k.hints else []) + DecV(c).hints(); d.setup = lambda c: ((k.setup(c) if k.setup else None), with_ring_library(c))
    d.post = lambda c: k.post(c) + [("value i is a function of the element's value", c.all(0, DecV(c).S, lambda i: c.at(c[1], i) == DecV(c).of(i), lambda i: c.at(c[1], i)))]; return d
CONS[_dec] = dv_new(CONS[_dec])
ysum_, tot_, row_ = acc_("weighted_values"), acc_("columns"), acc_("slots"); claim_, value_ = z3.Const("claimed", F), z3.Const("opened", F)
class Ev(Vf):
    def __init__(self, c):
        super().__init__(c); self.q = self.Q.Q; self.cols, self.slots, self.batch = (self.par(n) for n in ("cols", "slots", "batch")); self.bt = V(c, c[2]); self.part = self.pf(4, "Partial"); self.x = c.val(c[1], True)
        self.d = Ecd(c, c.fld(c[0], "ecd", True))
    def dv(self, rv, i): return dvv_(self.q, self.d.b, self.d.n, self.d.S, rv, ix(i))
    def y_term(self, _, j): return fmul(self.dv(intt_(self.q, mont(self.bt(j, True).rv(self.q), self.q)), 0), self.c.old(self.c[3], j))
    def slot_term(self, i, j): return fmul(fpow(self.x, z3.simplify(ix(i) * self.slots + ix(j))), self.dv(self.part(i, True).rv(self.q), j))
    def tot_steps(self, i): i = ix(i); return [tot_(0, 0) == fint(0), tot_(0, z3.simplify(i + 1)) == fadd(tot_(0, i), row_(i, self.slots))]
    def defs(self):
        many = self.batch > 1; return wf_axiom(self.Q) + [z3.Implies(many, claim_ == ysum_(0, self.batch)), z3.Implies(z3.Not(many), claim_ == self.c.old(self.c[3], 0)), value_ == tot_(0, self.cols)]
    def pre(self):
        c = self.c; r = RNS(c, sub(c, c[0], "ecd", "rns", old=True)); d = self.d; k = z3.Int("k!ba"); bt = self.bt(k, True).wf(self.q)
        return self.rings() + [("the reconstructor's ring", place_is(c, ("ecd", "rns", "ringQ"), "ringQ"))] + d.valid() + r.valid() + [("as many coefficients as digits", z3.And(r.N == d.S * d.n, Z(c.len(sub(c, c[0], "ecd", "buf", "coeffBig"))) >= r.N)), ("one number of slots", d.S == self.slots),
            ("sizes", z3.And(self.cols >= 1, self.slots >= 1, self.batch >= 1, Z(c.len(c[3])) >= self.batch)), ("weights", z3.Implies(self.batch > 1, z3.And(self.bt.len >= self.batch, FA([k], z3.Implies(z3.And(k >= 0, k < self.batch), bt), patterns=[bt]))))] + self.all_in(self.part, self.cols, self.q, "partial evaluations", True)
def wf_axiom(r):
    C, n, ls, k, m = z3.Const("C!en", AA), z3.Int("n!en"), z3.Const("l!en", ARI), z3.Int("k!en"), z3.Int("m!en"); x = z3.Select(z3.Select(C, k), m); u = wf_(r.Q, C, n, ls); y = z3.Select(ls, k)
    return [FA([C, n, ls], u == z3.And(n == r.L, FA([k], z3.Implies(z3.And(k >= 0, k < r.L), y == r.N), patterns=[y]), FA([k, m], z3.Implies(z3.And(k >= 0, k < r.L, m >= 0, m < r.N), z3.And(x >= 0, x < r.q(k))), patterns=[x])), patterns=[u])]
def ve_right(l):
    o = Ev(l.c); return [("powers", pows(l.c, l.call("rightVec"), o.x, z3.simplify(o.cols * o.slots)))]
def ve_claim(l): return [("claimed value", l.val(l.call("New", 0)) == claim_)]
def ve_dcd(l, i):
    o = Ev(l.c); s = slices_made(l)[-1]; return [("decoded column", l.c.all(0, o.slots, lambda k: l.c.at(s, k) == o.dv(o.part(i, True).rv(o.q), k), lambda k: l.c.at(s, k)))]
def news(l): return [l.env[i["n"]] for b in l.fn.blocks for i in b["ins"] if i["op"] == "call" and (i.get("invoke") or "").split(".")[-1] == "New" and i.get("n") in l.env and not in_loop(l, b)]
def in_loop(l, b): l.fn.analyse(); return any(b["i"] in l.fn.loops[h] for h in l.fn.loops) if "i" in b else any(l.fn.blocks.index(b) in l.fn.loops[h] for h in l.fn.loops)
def ve_mult(l): o = Ev(l.c); i = Z(l.idx(1)); l.ex.mult(o.slots, i); l.ex.mult(o.slots, o.cols); l.ex.mult(o.slots, z3.simplify(i + 1)); return []
con(vrfn("verifyEval"), branch_ms=150, pre=lambda c: Ev(c).pre(), setup=lambda c: (with_ring_library(c), same_ring(c, (("ecd", "rns", "ringQ"), "ringQ")), c.ex.ax.extend(Ev(c).defs())),
    mods=lambda c: [sub(c, c[0], "ecd", "buf", n) for n in ("coeffBig", "baseE", "coeffE")] + [sub(c, c[0], "ecd", "rns", "buf", n) for n in ("coeff", "mul", "acc", "accTmp")], result=lambda c: [c.ex.fresh("evaluates", BOOL)],
    loops={1: Loop(inv=lambda l: ve_right(l) + [("weighted sum", l.val(l.call("New", 0)) == ysum_(0, Z(l.idx()))), ("buffer in the ring", vc_p(l, 0).wf(Ev(l.c).q))], facts=lambda l: steps(ysum_, 0, l.idx(), Ev(l.c).y_term)),
           3: Loop(inv=lambda l: ve_right(l) + ve_claim(l) + [("columns so far", l.val(news(l)[2]) == tot_(0, Z(l.idx())))], facts=lambda l: Ev(l.c).tot_steps(l.idx())),
           4: Loop(inv=lambda l: ve_right(l) + ve_claim(l) + ve_dcd(l, l.idx(1)) + [("slots so far", l.val(news(l)[2]) == fadd(tot_(0, Z(l.idx(1))), row_(Z(l.idx(1)), Z(l.idx()))))], facts=lambda l: ve_mult(l) + steps(row_, l.idx(1), l.idx(), Ev(l.c).slot_term))},
    post=lambda c: [("accepted exactly when the opened value is the claimed one", B(c.res[0]) == (value_ == claim_))])
