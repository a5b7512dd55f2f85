"""Contracts of the prover's checks: the polynomials it commits to are those the verifier's identities speak about."""
from cons_check import *
from cons_check import CONS as _CK, sc as _sc
import gen
CONS = dict(_CK)
def con(name, **k): CONS[name] = Con(name, **k)
def PR(m): return "(*%sProver[E]).%s" % (BK, m)
# the recurrences of a batch, entry by entry of the transformed witnesses
pterm_ = z3.Function("term_at", INT, INT, INT, INT, INT, F); pcsum_ = z3.Function("constraint_at", INT, INT, INT, INT, F); phb_ = z3.Function("batch_at", INT, INT, INT, F)
class PBatch(Batch):
    """constraints cs evaluated at entry e of the transformed witnesses"""
    def __init__(self, c, cs, beta, wd):
        t = [k for k, d in enumerate(c.ex.p.types) if d["k"] == "named" and d["name"] == "witnessData"][0]; ns = [f["name"] for f in c.ex.p.ut(t)["fields"]]
        self.e = None; self.R = rank(c, prbase(c)); super().__init__(c, cs, beta, wd.f[ns.index("wEcdNTT")], wd.f[ns.index("pwEcdNTT")])
    def at(self, s, j):
        if s is not self.w and s is not self.pw: return super().at(s, j)
        return self.c.old(co(self.c, self.c.ex.elem(s, j, self.c.st0), True), self.e)
    def poly(self, s, j): return self.c.ex.elem(s, j, self.c.st0)
    def term(self, i, j, k=None): return pterm_(self.o, Z(num(i)), Z(num(j)), Z(num(k)) if k is not None else self.factors(i, j), Z(self.e))
    def csum(self, i, j=None): return pcsum_(self.o, Z(num(i)), Z(num(j)) if j is not None else self.terms(i), Z(self.e))
    def batch(self, i=None): return phb_(self.o, Z(num(i)) if i is not None else self.n, Z(self.e))
    def all(self, steps):
        """the defining equations at every entry"""
        e = z3.Int("e!pb"); self.e = e; fs = steps(); out = []
        for f in fs: out.append(z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < self.R), f), patterns=[f.arg(0)]))
        return out
    def same(self, out, f):
        """the polynomial's entries are f"""
        c = self.c; o = co(c, out)
        def g(e): self.e = e; return c.at(o, e) == f()
        return c.all(0, self.R, g, lambda e: c.at(o, e))
    def wellformed(self):
        c = self.c; j = z3.Int("j!pw"); out = []
        for s in (self.w, self.pw):
            p = self.poly(s, j); l = Z(c.len(co(c, p, True), True)); fl = flag(c, p, True)
            out += [("transformed polynomials of the prover's rank", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(c.len(s, True))), z3.And(l == self.R, fl)), patterns=[l]))]
        return out
def prbase(c):
    pe = c.fld(c[0], "polyEval", True); return c.fld(pe, "baseOperator", True)
def pe_(c): return PBatch(c, c[2], c.val(c[1], True), c[3])
def written(l, h):
    """polynomials the body of loop h writes to, inner loops left out"""
    f = l.fn; inner = set().union(*[f.loops[h2] for h2 in f.loops if h2 != h and h2 in f.loops[h]] or [set()]); out = set()
    for b in f.loops[h] - inner:
        for i in f.blocks[b]["ins"]:
            c = (i.get("origin") or "").split(".")[-1]
            if i["op"] == "call" and "bigpoly" in (i.get("origin") or "") and (c.endswith("To") or c in ("Clear", "CopyFrom")): out.add(i["args"][0 if c in ("Clear", "CopyFrom") else 1])
    return out
def polyacc(l, up=0):
    """the polynomial the loop (or the up-th one around it) accumulates into: written there and not further inside"""
    l.fn.analyse(); f = l.fn; hs = sorted([h for h in f.loops if l.h in f.loops[h]], key=lambda h: len(f.loops[h])); h = hs[up]
    inner = set().union(*[written(l, h2) for h2 in f.loops if h2 != h and h2 in f.loops[h]] or [set()])
    w = [x for x in written(l, h) - inner if x in l.env]
    if len(w) != 1: raise Unsupported("polynomial the loop accumulates into: %d candidates" % len(w))
    return l.env[w[0]]
def pel(l): return pe_(l.c)
def pterm_poly(l): return [l.env[x] for h in l.fn.loops for x in [*written(l, h)] if not any(h2 in l.fn.loops[h] for h2 in l.fn.loops if h2 != h) and x in l.env][-1]
def all_flags(l): return z3.And(*[flag(l.c, l.env[x]) for x in sorted(set().union(*[written(l, h) for h in l.fn.loops])) if x in l.env])
def pe_inv(l, d):
    b = pel(l); I = [l.idx(k) for k in range(d, -1, -1)]; P = [polyacc(l, d - k) for k in range(d + 1)]
    out = [("constraints so far", b.same(P[0], lambda: b.batch(I[0])))]
    if d > 0: out.append(("terms so far", b.same(P[1], lambda: b.csum(I[0], I[1]))))
    if d > 1: out.append(("factors so far", b.same(P[2], lambda: b.term(*I))))
    return out + [("transformed form", all_flags(l))]
def pe_set(l):
    b = pel(l); i0, i1 = l.idx(2), l.idx(1); t = pterm_poly(l); o = co(l.c, t)
    return [("constraints so far", b.same(polyacc(l, 2), lambda: b.batch(i0))), ("terms so far", b.same(polyacc(l, 1), lambda: b.csum(i0, i1))), ("transformed form", all_flags(l)),
            ("coefficient set so far", l.c.all(0, l.idx(), lambda e: l.c.at(o, e) == b.coeff(i0, i1), lambda e: l.c.at(o, e)))]
con(PR("evalCircuit"), pre=lambda c: pe_(c).valid() + pe_(c).wellformed() + [("rank positive", rank(c, prbase(c)) >= 1)], mods=lambda c: [], result=lambda c: [new_poly(c, poly_type(c.ex), c.fld(prbase(c), "rank"), True)],
    loops={0: Loop(inv=lambda l: pe_inv(l, 0), facts=lambda l: pe_facts(l, 0)), 1: Loop(inv=lambda l: pe_inv(l, 1), facts=lambda l: pe_facts(l, 1)), 2: Loop(inv=pe_set), 3: Loop(inv=lambda l: pe_inv(l, 2), facts=lambda l: pe_facts(l, 2))},
    post=lambda c: [("every entry is the batch there", (lambda b: b.same(c.res[0], b.batch))(pe_(c))), ("rank", Z(c.len(co(c, c.res[0]))) == rank(c, prbase(c))), ("form", flag(c, c.res[0]))])
def pe_facts(l, d):
    b = pel(l); I = [l.idx(k) for k in range(d, -1, -1)]
    return b.all(lambda: [b.batch_step, b.csum_step, b.term_step][d](*I))
