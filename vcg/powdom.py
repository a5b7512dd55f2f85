"""Field elements as formal powers of a base: used for the exponentiation routines, where only exponents matter."""
from field import *

class Pow:
    """base^e; e is an LP"""
    __slots__ = ("b", "e")
    def __init__(self, b, e): self.b, self.e = b, e

def check_const_exp(owner, fn, res, lab, want):
    ex = owner
    st = ex.new_state(); base = "x"
    vals = {}
    z = Ptr(Obj("z", ex.uint, "sym"))
    saved = dict(ex.stubs); old_contract = ex.contract_for; ex.contract_for = lambda n: None
    def key(p): return (p.obj, tuple(p.path))
    def get(st, p):
        v = st.heap.get(("pow", key(p)))
        if v is None: raise Unsupported("element without a known power")
        return v
    def put(st, p, v): st.heap[("pow", key(p))] = v; return p
    m = ex.m
    def mul(e_, st, a, i): x, y = get(st, a[1]), get(st, a[2]); return put(st, a[0], x + y)
    def square(e_, st, a, i): return put(st, a[0], get(st, a[1]) * 2)
    def set_(e_, st, a, i): return put(st, a[0], get(st, a[1]))
    def setone(e_, st, a, i): return put(st, a[0], LP.c(0))
    ex.stubs.update({m("Mul"): mul, m("Square"): square, m("Set"): set_, m("SetOne"): setone})
    ex.stubs[ex.f("Modulus")] = lambda e_, st, a, i: ex.bput(st, Ptr(ex.new_obj("mod", ex.bigt(), "zero", st)), LP.c(ex.q))
    ol, os_ = ex.load, ex.store
    def load(p, t, st):
        if isinstance(p, Ptr) and ("pow", key(p)) in st.heap and ex.p.ut(t)["k"] == "array": return Pow("x", st.heap[("pow", key(p))])
        return ol(p, t, st)
    def store(p, v, t, st):
        if isinstance(v, Pow): st.heap[("pow", key(p))] = v.e; return
        return os_(p, v, t, st)
    ex.load, ex.store = load, store
    try:
        x = Pow("x", LP.c(1))
        outs = ex.run_fn(fn, [z, x], [], st)
        for o in outs:
            if o.kind == "panic": res.append((lab + ": does not panic", "failed", "")); continue
            e = o.st.heap.get(("pow", key(z)))
            ok = e is not None and norm(o.st, e).const() == want
            res.append((lab + ": z = x^(q-2)", "proved" if ok else "failed", "exponent %s" % e))
            res.append((lab + ": returns its receiver", "proved" if isinstance(o.vals[0], Ptr) and o.vals[0].obj is z.obj else "failed", ""))
    finally:
        ex.stubs = saved; del ex.load, ex.store; del ex.contract_for
