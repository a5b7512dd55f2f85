"""Symbolic executor for the generic code: integers and arrays go to z3, field elements are an uninterpreted sort whose terms are
kept in polynomial normal form, memory is a forest of owned places.

A place is a root object and a path of field numbers and ('*', index) steps. Pointers, slices and field elements stored below a '*' are owned by
their slot: the slot's contents live at the path itself. Storing a reference into a slot moves the cell there; the old name is forwarded,
and two slots sharing one cell are frozen (writing through either is refused)."""
import itertools, time, re
import z3
from core import *

F = z3.DeclareSort("F")
INT = z3.IntSort(); BOOL = z3.BoolSort()
_fadd = z3.Function("fadd", F, F, F); _fmul = z3.Function("fmul", F, F, F); finj_ = z3.Function("finj", INT, F)
finv_ = z3.Function("finv", F, F); flift = z3.Function("flift", F, INT)
Q = z3.Int("q")                       # the modulus of the field
pow2_ = z3.Function("pow2", INT, INT)
ediv_ = z3.Function("ediv", INT, INT, INT); emod_ = z3.Function("emod", INT, INT, INT)

# ---- field terms in polynomial normal form
_atoms = {}; _poly = {}; _keep = []
def isz(x): return isinstance(x, z3.ExprRef)
def fpoly(t):
    k = t.get_id()
    p = _poly.get(k)
    if p is None:
        _keep.append(t); _atoms[k] = t
        p = {((k, 1),): 1}; _poly[k] = p
    return p
_mkc = {}
_ak = {}
def akey(a):
    """ordering of atoms that does not depend on the names of bound variables and skolem constants"""
    k = _ak.get(a)
    if k is None:
        t = _atoms[a]
        x = t; n = 0
        while z3.is_select(x): x = x.arg(0); n += 1
        k = _ak[a] = (n, x.decl().name(), x.get_id() if n else 0, brief(t))
    return k
def brief(t, depth=6):
    if not z3.is_app(t): return "?"
    if z3.is_int_value(t): return str(t)
    if t.num_args() == 0: return t.decl().name()
    return t.decl().name() + ("(" + ",".join(brief(x, depth - 1) for x in t.children()) + ")" if depth else "")
def fterm(p):
    p = {m: c for m, c in p.items() if c != 0}
    key = tuple(sorted(p.items()))
    t = _mkc.get(key)
    if t is not None: return t
    if not p: t = finj_(z3.IntVal(0))
    else:
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return _atoms[m[0][0]]
        ts = []
        for m, c in sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(sorted((akey(a), e) for a, e in mc[0])))):
            fs = []
            for a, e in sorted(m, key=lambda ae: akey(ae[0])): fs += [_atoms[a]] * e
            if c != 1 or not fs: fs = [finj_(z3.IntVal(c))] + fs
            x = fs[0]
            for y in fs[1:]: x = _fmul(x, y)
            ts.append(x)
        t = ts[0]
        for y in ts[1:]: t = _fadd(t, y)
    _keep.append(t); _poly[t.get_id()] = p; _mkc[key] = t
    return t
def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def _pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n: e[x] = e.get(x, 0) + k
            mm = tuple(sorted(e.items())); v = r.get(mm, 0) + c * d
            if v: r[mm] = v
            else: r.pop(mm, None)
    return r
def fadd(a, b): return fterm(_padd(fpoly(a), fpoly(b)))
def fsub(a, b): return fterm(_padd(fpoly(a), fpoly(b), -1))
def fneg(a): return fterm(_padd({}, fpoly(a), -1))
def fmul(a, b): return fterm(_pmul(fpoly(a), fpoly(b)))
def fint(n):
    """image of an integer in the field (a ring homomorphism that does not see multiples of q)"""
    n = num(n)
    if isinstance(n, int): return fterm({(): n} if n else {})
    return fterm(ipoly(n))
def ipoly(n):
    if z3.is_int_value(n): v = n.as_long(); return {(): v} if v else {}
    k = n.decl().kind() if z3.is_app(n) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in n.children(): r = _padd(r, ipoly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = ipoly(n.arg(0))
        for c in n.children()[1:]: r = _padd(r, ipoly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return _padd({}, ipoly(n.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in n.children(): r = _pmul(r, ipoly(c))
        return r
    if z3.is_app(n) and n.decl().eq(emod_) and n.arg(1).eq(Q): return ipoly(n.arg(0))
    if n.eq(Q): return {}
    return fpoly(finj_(n))
def finv(a): return finv_(a)
fzero = fint(0) if False else None

def num(x):
    if isinstance(x, bool): raise Unsupported("bool as int")
    if isinstance(x, int): return x
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        return x
    raise Unsupported("not a number: %r" % (x,))
def Z(x): return z3.IntVal(x) if isinstance(x, int) else x
def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def band(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def bnot(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(a, B(b))
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, Z(a) if isinstance(a, int) and not isinstance(a, bool) else B(a) if isinstance(a, bool) else a,
                 Z(b) if isinstance(b, int) and not isinstance(b, bool) else B(b) if isinstance(b, bool) else b)

class Ref:
    """a field element: the cell at a place"""
    __slots__ = ("obj", "path", "ver")
    def __init__(self, obj, path, ver=0): self.obj = obj; self.path = tuple(path); self.ver = ver
    def __repr__(self): return "E@%s%s" % (self.obj, list(self.path))
class ElemPtr(Ptr):
    __slots__ = ("sl",)
    def __init__(self, obj, path, sl): Ptr.__init__(self, obj, path); self.sl = sl
class MapV:
    __slots__ = ("obj",)
    def __init__(self, obj): self.obj = obj

_hv = {}
def has_var(t):
    k = t.get_id(); r = _hv.get(k)
    if r is None:
        _keep.append(t)
        r = _hv[k] = True if z3.is_var(t) else any(has_var(c) for c in t.children())
    return r
def mentions(t, x):
    """x occurs in t"""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        todo += y.children()
    return False
def shape(path): return tuple("*" if isinstance(s, tuple) else s for s in path)
def idxs(path): return [Z(s[1]) for s in path if isinstance(s, tuple)]
def starred(path): return any(isinstance(s, tuple) or s == "*" for s in path)

class Path0: pass

class Loop:
    """contract of a loop: inv(L) gives [(name, formula)], dec(L) a natural-number measure, facts(L) instances of axioms usable in the body"""
    def __init__(self, inv=None, dec=None, facts=None, auto=True, end=None, cand=None, mods=None, ghost=None, last=None):
        self.last = last              # what holds at the end of an iteration, proved before the invariant
        self.ghost = ghost or {}      # name: (value on entry (l), value after an iteration (l at its end, l at its head))
        self.inv, self.dec, self.facts, self.auto, self.end, self.cand, self.mods = inv, dec, facts, auto, end, cand, mods

class Con:
    """contract of a function"""
    def __init__(self, name, pre=None, post=None, mods=None, result=None, alias=(), loops=None, elem=None, setup=None, axioms=None, panics=None, pure=False, when=None, hints=None, trusted=False, cost=2, limit=300, branch_ms=1500):
        self.trusted, self.cost, self.limit, self.branch_ms = trusted, cost, limit, branch_ms      # branch_ms: how long to look for a branch being impossible
        self.name = name; self.pre = pre; self.post = post; self.mods = mods; self.result = result; self.alias = list(alias); self.loops = loops or {}
        self.elem = elem; self.setup = setup; self.axioms = axioms; self.panics = panics; self.when = when; self.hints = hints

class Ctx:
    """what contracts see: arguments, results, the state before and after"""
    def __init__(self, ex, args, st0, st, res=None, con=None):
        self.ex, self.args, self.st0, self.st, self.res, self.con = ex, args, st0, st, res, con
    def __getitem__(self, k): return self.args[k]
    def len(self, s, old=False): return self.ex.slen(s, self.st0 if old else self.st)
    def at(self, s, k, old=False):
        return self.ex.elem_val(s, k, self.st0 if old else self.st)
    def old(self, s, k): return self.at(s, k, True)
    def val(self, r, old=False): return self.ex.content(r, self.st0 if old else self.st)
    def fld(self, p, name, old=False): return self.ex.getfield(p, name, self.st0 if old else self.st)
    def all(self, lo, hi, f, pat=None): return forall(lo, hi, f, pat)

fless_ = z3.Function("float_less", z3.RealSort(), z3.RealSort(), BOOL)
_bv = itertools.count()
def forall(lo, hi, f, pat=None):
    k = z3.Int("k!%d" % next(_bv))
    body = implies(band(Z(lo) <= k if lo is not None else True, k < Z(hi) if hi is not None else True), f(k))
    if body is True: return True
    ps = pat(k) if pat else None
    if ps is None: return z3.ForAll([k], B(body))
    if not isinstance(ps, list): ps = [ps]
    try: return z3.ForAll([k], B(body), patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in ps])
    except z3.Z3Exception: return z3.ForAll([k], B(body))

class GenExec(Exec):
    timeout = 12000
    def __init__(self, prog):
        super().__init__(prog); self.ax = []; self.cons = {}; self.budget = None; self.skcnt = itertools.count(); self.hyp_unused = []
        self.stats = dict(queries=0, time=0.0); self.loopnotes = []; self.loop_accs = {}; self.assumed = set()
        self.cur = None; self.terminates = True
        self.lines = {}
        from stubs import STUBS
        self.stubs = dict(STUBS)
        self.hooks = {}

    # ---- types
    def tt(self, t): return self.p.t(t) if isinstance(t, int) else t
    def is_E(self, t):
        d = self.p.t(t)
        return d["k"] == "tparam" and d["name"] in ("E", "T")
    def is_big(self, t):
        d = self.p.t(t)
        return d["k"] == "ptr" and self.p.t(d["elem"])["str"] == "math/big.Int"
    def kind(self, t):
        if self.is_E(t): return "E"
        if self.is_big(t): return "big"
        u = self.p.ut(t); k = u["k"]
        if k == "basic":
            n = u["name"]
            if n in ("bool", "untyped bool"): return "bool"
            if n in ("string", "untyped string"): return "str"
            if n.startswith("float") or n == "untyped float": return "float"
            if n == "Pointer": return "raw"
            return "int"
        if k == "tparam": return "E" if u.get("name") == "E" else "opaque"
        return {"ptr": "ptr", "slice": "slice", "array": "array", "struct": "struct", "map": "map", "iface": "iface", "func": "func", "tuple": "tuple"}.get(k, "opaque")
    def irange(self, t):
        n = self.p.ut(t)["name"]
        return {"uint64": (0, 1 << 64), "uint": (0, 1 << 64), "uintptr": (0, 1 << 64), "uint32": (0, 1 << 32), "uint16": (0, 1 << 16), "uint8": (0, 256), "byte": (0, 256),
                "int64": (-(1 << 63), 1 << 63), "int": (-(1 << 63), 1 << 63), "int32": (-(1 << 31), 1 << 31), "int16": (-(1 << 15), 1 << 15), "int8": (-128, 128), "rune": (-(1 << 31), 1 << 31)}.get(n, (None, None))
    def unsigned(self, t):
        try: return self.p.ut(t)["name"].startswith(("uint", "byte"))
        except KeyError: return False

    # ---- values
    def int_const(self, n, t): return n
    def fresh(self, name, sort=INT): return z3.FreshConst(sort, name)
    def sym(self, t, name):
        k = self.kind(t)
        if k == "int":
            x = self.fresh(name); lo, hi = self.irange(t)
            if lo is not None: self.ax.append(z3.And(x >= lo, x < hi))
            return x
        if k == "bool": return self.fresh(name, BOOL)
        if k == "E": return Ref(Obj(name, t, "sym", "cell"), ())
        if k == "big": return Ptr(Obj(name, self.p.t(t)["elem"], "sym", "big"))
        if k == "ptr": return Ptr(Obj(name, self.p.ut(t)["elem"], "sym"))
        if k == "slice":
            n = self.fresh(name + ".len"); c = self.fresh(name + ".cap"); self.ax.append(z3.And(n >= 0, n < (1 << 48), c >= n))
            return SliceV(Obj(name, t, "sym", "elems"), (), 0, n, c, t)
        if k == "struct": return StructV([self.sym(f["t"], name + "." + f["name"]) for f in self.p.ut(t)["fields"]])
        if k == "array": return ArrV([self.sym(self.p.ut(t)["elem"], "%s%d" % (name, i)) for i in range(self.p.ut(t)["len"])]) if self.p.ut(t)["len"] <= 64 else OpaqueV(name, t)
        if k == "map": return MapV(Obj(name, t, "sym", "map"))
        return OpaqueV(name, t, {"sym": True})

    def zero(self, t, st):
        k = self.kind(t)
        if k == "E": return NIL
        if k == "big": return NIL
        if k == "map": return NIL
        return super().zero(t, st)

    # ---- places
    def resolve(self, st, obj, path, ver=None):
        f = st.ghost.get("fwd")
        n = 0
        while f and obj.id in f:
            o2, p2, v2 = f[obj.id]
            if v2 is not None and self.version(st, o2, p2) != v2: raise Unsupported("use of a cell whose slot has been overwritten")
            obj, path = o2, tuple(p2) + tuple(path); n += 1
            if n > 50: raise Unsupported("forwarding")
        return obj, tuple(path)
    def version(self, st, obj, path): return st.ghost.get(("ver", obj.id, shape(path)), 0)
    def bump(self, st, obj, path):
        k = ("ver", obj.id, shape(path)); st.ghost[k] = st.ghost.get(k, 0) + 1
    def sort_of(self, k): return {"int": INT, "bool": BOOL, "E": F, "big": INT, "float": z3.RealSort()}[k]

    def leaf(self, st, obj, sh, sort, t=None):
        """value of a leaf: a term, or nested arrays with one level per '*'"""
        key = (obj.id, sh)
        if key in st.heap: return st.heap[key]
        d = obj.meta.get(sh)
        if d is None:
            depth = sum(1 for s in sh if s == "*")
            if obj.init == "zero" and sort == INT: d = z3.IntVal(0)
            elif obj.init == "zero" and sort == BOOL: d = z3.BoolVal(False)
            else: d = None
            if d is not None:
                for _ in range(depth): d = z3.K(INT, d)
            else:
                s = sort
                for _ in range(depth): s = z3.ArraySort(INT, s)
                d = z3.FreshConst(s, re.sub(r"[^A-Za-z0-9_.]", "", obj.name) + "".join("." + str(x) for x in sh))
                if sort == INT and t is not None and (t == "len" or (self.kind(t) == "int" and self.irange(t)[0] is not None)):
                    ks = [z3.Int("i!%d" % next(_bv)) for _ in range(depth)]
                    x = d
                    for k in ks: x = z3.Select(x, k)
                    lo, hi = (0, 1 << 48) if t == "len" else self.irange(t)
                    b = z3.And(x >= lo, x < hi)
                    self.ax.append(z3.ForAll(ks, b, patterns=[x]) if ks else b)
            obj.meta[sh] = d
        return d
    def getc(self, st, obj, path, sort, t=None):
        obj, path = self.resolve(st, obj, path)
        if st.ghost.get("pend") and obj.id in st.ghost["pend"]: raise Unsupported("read between the two stores of an exchange")
        x = self.leaf(st, obj, shape(path), sort, t)
        for i in idxs(path): x = z3.Select(x, i)
        if z3.is_select(x): x = self.simp_select(x, st if sort == F else None)
        return num(x) if sort == INT else x
    def simp_select(self, x, st=None):
        """reads through stores whose index is equal or different (by a constant, or by a quick query)"""
        a, i = x.arg(0), x.arg(1)
        while z3.is_store(a):
            d = z3.simplify(a.arg(1) - i)
            if z3.is_int_value(d):
                if d.as_long() == 0: return a.arg(2)
                a = a.arg(0)
            elif st is not None and self.apart(st, d): a = a.arg(0)
            else: return z3.Select(a, i)
        if z3.is_K(a): return a.arg(0)
        return z3.Select(a, i)
    def apart(self, st, d):
        """d /= 0 under the hypotheses? (what was shown under fewer hypotheses stays true)"""
        c = self._apart = getattr(self, "_apart", {}); l = c.setdefault(d.get_id(), [d])
        for pre, n in l[1:]:
            if len(st.pc) >= len(pre) and all(x is y for x, y in zip(pre, st.pc)):
                if n is None: return True
                if n == (len(st.pc), len(self.ax) // 64): return False
        r = self.quick(st, d != 0)
        l.append((list(st.pc), None if r else (len(st.pc), len(self.ax) // 64)))
        return r
    def setc(self, st, obj, path, val, sort, t=None):
        obj, path = self.resolve(st, obj, path)
        if st.ghost.get("pend") and obj.id in st.ghost["pend"]: raise Unsupported("write between the two stores of an exchange")
        if (obj.id, shape(path)) in st.ghost.get("frozen", ()): raise Unsupported("write to a cell shared by two slots")
        sh = shape(path)
        base = self.leaf(st, obj, sh, sort, t)
        v = Z(val) if sort == INT else B(val) if sort == BOOL else val
        def put(arr, ix):
            if not ix: return v
            return z3.Store(arr, ix[0], put(z3.Select(arr, ix[0]), ix[1:]))
        ix = idxs(path)
        if len(ix) == 1: base = self.drop_store(base, z3.simplify(ix[0]))
        st.heap[(obj.id, sh)] = put(base, ix)
        self.note_write(obj, sh)
    def drop_store(self, a, i, depth=6):
        """the array without earlier stores at i: they are about to be overwritten"""
        if depth == 0 or not z3.is_store(a): return a
        d = z3.simplify(a.arg(1) - i)
        if z3.is_int_value(d) and d.as_long() == 0: return self.drop_store(a.arg(0), i, depth - 1)
        b = self.drop_store(a.arg(0), i, depth - 1)
        return a if b.eq(a.arg(0)) else z3.Store(b, a.arg(1), a.arg(2))
    def note_write(self, obj, sh):
        if self.writes is not None: self.writes.setdefault((obj.id, sh), obj)

    def load_place(self, obj, path, t, st, sl=None):
        k = self.kind(t)
        obj, path = self.resolve(st, obj, path)
        if k == "E": return Ref(obj, path, self.version(st, obj, path))
        if k == "int": 
            if not starred(path) and (obj.id, shape(path)) in st.heap: return st.heap[(obj.id, shape(path))]
            if obj.init == "zero" or starred(path): return self.getc(st, obj, path, INT, t)
        if k == "bool":
            if not starred(path) and (obj.id, shape(path)) in st.heap: return st.heap[(obj.id, shape(path))]
            if obj.init == "zero" or starred(path):
                x = self.getc(st, obj, path, BOOL)
                return True if z3.is_true(x) else False if z3.is_false(x) else x
        if k == "struct": 
            fs = self.p.ut(t)["fields"]
            return StructV([self.load_place(obj, path + (i,), f["t"], st) for i, f in enumerate(fs)])
        if k == "array":
            u = self.p.ut(t)
            return ArrV([self.load_place(obj, path + (("*", i),), u["elem"], st) for i in range(u["len"])])
        if starred(path):
            if k == "ptr" or k == "big": return Ptr(obj, path)
            if k == "slice":
                n = self.getc(st, obj, path + ("len",), INT, "len")
                return SliceV(obj, path, 0, n, n, t)
            if k in ("iface", "func", "opaque", "str", "float"):
                key = ("opq", obj.id, shape(path))
                f = obj.meta.get(key)
                return OpaqueV("%s%s" % (obj.name, shape(path)), t, {"place": (obj, path)})
            raise Unsupported("load of %s below an index" % k)
        key = (obj.id, shape(path))
        if key in st.heap: return st.heap[key]
        d = obj.meta.get(key)
        if d is None:
            if obj.init == "zero": d = self.zero(t, st)
            else:
                fn = obj.name + "".join("." + str(s) for s in path)
                d = self.sym(t, re.sub(r"#\d+", "", fn))
            obj.meta[key] = d
        return d

    def store_place(self, obj, path, val, t, st):
        k = self.kind(t)
        obj, path = self.resolve(st, obj, path)
        if k == "E": return self.store_ref(obj, path, val, st)
        if k == "struct":
            if not isinstance(val, StructV): raise Unsupported("store of struct")
            for i, f in enumerate(self.p.ut(t)["fields"]): self.store_place(obj, path + (i,), val.f[i], f["t"], st)
            return
        if k == "array" and val is NIL:
            n = self.p.ut(t)["len"]; m = SliceV(obj, path, 0, n, n, t); c = Ctx(self, [], st, st); ek = self.kind(self.p.ut(t)["elem"])
            if ek not in ("int", "bool"): raise Unsupported("zero value of an array of %s" % ek)
            self.havoc_mod(m, st.copy(), st); zero = 0 if ek == "int" else z3.BoolVal(False)
            st.pc.append(B(c.all(0, n, lambda k: c.at(m, k) == zero, lambda k: c.at(m, k)))); return
        if k == "array":
            for i, x in enumerate(val.e): self.store_place(obj, path + (("*", i),), x, self.p.ut(t)["elem"], st)
            return
        if starred(path):
            if k in ("int", "bool"): return self.setc(st, obj, path, val, self.sort_of(k), t)
            if k in ("ptr", "big", "slice"):
                if val is NIL: raise Unsupported("nil stored below an index")
                if isinstance(val, SliceV):
                    if val.obj is None: self.setc(st, obj, path + ("len",), 0, INT, "len"); return
                    if val.off != 0: raise Unsupported("part of a slice stored below an index")
                    self.setc(st, obj, path + ("len",), val.len, INT, "len")
                    return self.move(val.obj, val.path, obj, path, t, st)
                return self.move(val.obj, val.path, obj, path, t, st)
            if k in ("iface", "func", "opaque"): self.note_write(obj, shape(path)); return
            raise Unsupported("store of %s below an index" % k)
        st.heap[(obj.id, shape(path))] = val; self.note_write(obj, shape(path))

    def leaves(self, t, pre=(), seen=()):
        """(shape, kind, type) of every leaf reachable from a value of type t stored at a place"""
        k = self.kind(t)
        if k in ("E", "big", "int", "bool"): yield pre, k, t; return
        d = self.p.ut(t)
        if t in seen: raise Unsupported("recursive type")
        seen = seen + (t,)
        if k == "ptr": yield from self.leaves(d["elem"], pre, seen); return
        if k == "slice":
            yield pre + ("len",), "int", "len"
            yield from self.leaves(d["elem"], pre + ("*",), seen); return
        if k == "array": yield from self.leaves(d["elem"], pre + ("*",), seen); return
        if k == "struct":
            for i, f in enumerate(d["fields"]): yield from self.leaves(f["t"], pre + (i,), seen)
            return
        yield pre, "opaque", t

    def move(self, so, sp, do, dp, t, st):
        """the slot (do, dp) takes over what is at (so, sp)"""
        so, sp = self.resolve(st, so, sp)
        u = self.p.ut(t)
        for sh, k, lt in self.leaves(t):
            if k == "opaque": continue
            if sh and sh[-1] == "len" and len(sh) == 1 and self.kind(t) == "slice": continue
            self.copy_leaf(so, sp, do, dp, sh, k, lt, st)
        root = (so.kind != "param" and not sp)
        self.bump(st, do, dp)
        f = dict(st.ghost.get("fwd", {}))
        if not sp and so.id not in f: f[so.id] = (do, dp, self.version(st, do, dp)); st.ghost["fwd"] = f
        else:
            fr = set(st.ghost.get("frozen", ()))
            for sh, k, lt in self.leaves(t):
                fr.add((so.id, shape(sp) + sh)); fr.add((do.id, shape(dp) + sh))
            st.ghost["frozen"] = frozenset(fr)

    def copy_leaf(self, so, sp, do, dp, sh, k, lt, st):
        """copies the whole leaf sub-array below the two places; explicit pointers inside the source are followed"""
        sort = INT if lt == "len" else self.sort_of(k)
        v = self.read_sub(so, sp, sh, sort, lt, st)
        key = shape(dp) + sh
        base = self.leaf(st, do, key, sort, lt)
        def put(arr, ix):
            if not ix: return v
            return z3.Store(arr, ix[0], put(z3.Select(arr, ix[0]), ix[1:]))
        st.heap[(do.id, key)] = put(base, idxs(dp)); self.note_write(do, key)
    def read_sub(self, so, sp, sh, sort, lt, st):
        """the (nested array) value of the leaf sh below the place, following explicit pointers and slices"""
        so, sp = self.resolve(st, so, sp)
        path = tuple(sp)
        for n, s in enumerate(sh):
            if s == "*" or starred(path): break
            if s == "len":
                v = st.heap.get((so.id, shape(path)))
                if isinstance(v, SliceV): return Z(v.len)
                break
            path = path + (s,)
            v = st.heap.get((so.id, shape(path)), so.meta.get((so.id, shape(path))))
            if v is None and so.init == "sym" and not starred(path):
                # materialise the default
                ty = self.type_at(so, path)
                if ty is not None and self.kind(ty) in ("ptr", "slice"): v = self.load_place(so, path, ty, st)
            if isinstance(v, SliceV):
                if sh[n + 1:] == ("len",): return Z(v.len)
                if v.obj is None: return self.fresh_arr(sort, sum(1 for x in sh[n + 1:] if x == "*"))
                if v.off != 0: raise Unsupported("part of a slice moved")
                return self.read_sub(v.obj, v.path, sh[n + 1:], sort, lt, st)
            if isinstance(v, Ptr): return self.read_sub(v.obj, v.path, sh[n + 1:], sort, lt, st)
            if v is NIL: return self.fresh_arr(sort, sum(1 for x in sh[n + 1:] if x == "*"))
            if v is not None and n == len(sh) - 1 and not starred(path):
                return Z(v) if sort == INT else B(v) if sort == BOOL else v
        x = self.leaf(st, so, shape(sp) + sh, sort, lt)
        for i in idxs(sp): x = z3.Select(x, i)
        return x
    def fresh_arr(self, sort, depth):
        for _ in range(depth): sort = z3.ArraySort(INT, sort)
        return z3.FreshConst(sort, "undef")
    def type_at(self, obj, path):
        t = obj.t
        for s in path:
            u = self.p.ut(t)
            while u["k"] == "ptr": u = self.p.ut(u["elem"])
            if isinstance(s, tuple):
                if u["k"] not in ("slice", "array", "map"): return None
                t = u["elem"]
            elif s == "len" or s == "id": return s
            else:
                if u["k"] != "struct": return None
                t = u["fields"][s]["t"]
        return t

    def store_ref(self, obj, path, val, st):
        if val is NIL: return                                  # the slot's cell becomes unusable; its value stays unspecified
        if not isinstance(val, Ref): raise Unsupported("store of %r as field element" % (val,))
        so, sp = val.obj, val.path
        so2, sp2 = self.resolve(st, so, sp)
        if so2 is obj and shape(sp2) == shape(path):
            if all(z3.is_true(z3.simplify(a == b)) for a, b in zip(idxs(sp2), idxs(path))): return
            # exchange of two slots
            pend = dict(st.ghost.get("pend", {}))
            a, b = idxs(path), idxs(sp2)
            if obj.id not in pend:
                pend[obj.id] = (shape(path), a, b, val.ver); st.ghost["pend"] = pend; return
            sh, a0, b0, ver = pend[obj.id]
            if sh != shape(path) or not all(z3.is_true(z3.simplify(x == y)) for x, y in zip(a0, b)) or not all(z3.is_true(z3.simplify(x == y)) for x, y in zip(b0, a)) or ver != val.ver:
                raise Unsupported("unrecognised permutation of slots")
            del pend[obj.id]; st.ghost["pend"] = pend
            x, y = self.getc(st, obj, path, F), self.getc(st, obj, sp2, F)
            fz = st.ghost.get("frozen", ())
            self.setc(st, obj, path, y, F); self.setc(st, obj, sp2, x, F)
            self.bump(st, obj, path); return
        self.setc_slot(st, obj, path, self.content(val, st))
        self.bump(st, obj, path)
        if not sp2 and so2.kind == "cell":
            f = dict(st.ghost.get("fwd", {})); f[so2.id] = (obj, tuple(path), self.version(st, obj, path)); st.ghost["fwd"] = f
        else:
            fr = set(st.ghost.get("frozen", ())); fr.add((so2.id, shape(sp2))); fr.add((obj.id, shape(path))); st.ghost["frozen"] = frozenset(fr)
    def setc_slot(self, st, obj, path, v):
        """overwriting the slot itself is allowed even when its cell is shared"""
        fr = st.ghost.get("frozen", ()); st.ghost["frozen"] = frozenset(x for x in fr if x != (obj.id, shape(path)))
        try: self.setc(st, obj, path, v, F)
        finally: st.ghost["frozen"] = fr

    def content(self, r, st):
        """value of a field element or of a big integer"""
        if isinstance(r, Ref):
            o, p = self.resolve(st, r.obj, r.path)
            if p == tuple(r.path) and o is r.obj and starred(p) and r.ver != self.version(st, o, p): raise Unsupported("use of a field element whose slot was overwritten")
            return self.getc(st, o, p, F)
        if isinstance(r, Ptr): return self.getc(st, r.obj, r.path, INT)
        raise Unsupported("content of %r" % (r,))
    def setcontent(self, r, v, st):
        if isinstance(r, Ref):
            o, p = self.resolve(st, r.obj, r.path)
            if p == tuple(r.path) and o is r.obj and starred(p) and r.ver != self.version(st, o, p): raise Unsupported("use of a field element whose slot was overwritten")
            self.setc(st, o, p, v, F)
        elif isinstance(r, Ptr): self.setc(st, r.obj, r.path, v, INT)
        else: raise Unsupported("content of %r" % (r,))
    def new_cell(self, st, v=None, t=None):
        o = Obj("cell", t, "sym", "cell")
        if v is not None: st.heap[(o.id, ())] = v
        return Ref(o, ())
    def new_big(self, st, v):
        o = Obj("big", None, "sym", "big"); st.heap[(o.id, ())] = Z(v); return Ptr(o)
    def slen(self, s, st):
        if s is NIL: return 0
        return num(s.len)
    def elem_val(self, s, k, st):
        et = self.p.ut(s.t)["elem"] if s.t is not None else None
        kd = self.kind(et) if et is not None else "E"
        return self.getc(st, s.obj, s.path + (("*", num(z3.simplify(Z(s.off) + Z(k)))),), self.sort_of(kd), et)
    def elem(self, s, k, st):
        et = self.p.ut(s.t)["elem"]
        return self.load_place(s.obj, s.path + (("*", num(z3.simplify(Z(s.off) + Z(k)))),), et, st)
    def getfield(self, p, name, st):
        if isinstance(p, StructV): raise Unsupported("getfield of struct value")
        t = self.type_at_p(p, st)
        for i, f in enumerate(self.p.ut(t)["fields"]):
            if f["name"] == name: return self.load_place(p.obj, p.path + (i,), f["t"], st)
        raise Unsupported("no field " + name)
    def type_at_p(self, p, st):
        t = self.type_at(*self.resolve(st, p.obj, p.path))
        while self.p.ut(t)["k"] == "ptr": t = self.p.ut(t)["elem"]
        return t

    # ---- core hooks
    def new_obj(self, name, t, init, st):
        return Obj(name, t, init)
    def make_global(self, name, et): return Obj("G:" + name, et, "sym", "global")
    def load(self, p, t, st):
        if isinstance(p, Ptr): return self.load_place(p.obj, p.path, t, st)
        if isinstance(p, WinPtr): return ArrV([self.load_place(p.obj, p.path + (("*", num(z3.simplify(Z(p.base) + k))),), self.p.ut(t)["elem"], st) for k in range(p.n)])
        if p is NIL: raise Unsupported("nil dereference")
        raise Unsupported("load through %r" % (p,))
    def store(self, p, v, t, st):
        if isinstance(p, Ptr): return self.store_place(p.obj, p.path, v, t, st)
        raise Unsupported("store through %r" % (p,))
    def concrete(self, x, st):
        x = num(x); return x if isinstance(x, int) else None
    def indexaddr(self, x, i, ins, st):
        i = num(i)
        if isinstance(x, SliceV):
            if x.obj is None: self.prove(st, False, "index within nil slice"); raise Unsupported("index into nil slice")
            self.prove(st, band(Z(i) >= 0, Z(i) < Z(x.len)), "index in range")
            return ElemPtr(x.obj, x.path + (("*", num(z3.simplify(Z(x.off) + Z(i)))),), x)
        if isinstance(x, WinPtr):
            if not isinstance(i, int) or not 0 <= i < x.n: self.prove(st, band(Z(i) >= 0, Z(i) < x.n), "index in window")
            return ElemPtr(x.obj, x.path + (("*", num(z3.simplify(Z(x.base) + Z(i)))),), None)
        if isinstance(x, Ptr):
            n = self.p.ut(self.p.ut(ins["xt"])["elem"])["len"]
            self.prove(st, band(Z(i) >= 0, Z(i) < n), "index in range")
            return ElemPtr(x.obj, x.path + (("*", i),), None)
        raise Unsupported("index of %r" % (x,))
    def iface_id(self, v, st):
        """identity of an interface value kept below an index"""
        if isinstance(v, OpaqueV) and isinstance(v.meta if hasattr(v, "meta") else None, dict) and "place" in v.meta: o, p = v.meta["place"]; return Z(self.getc(st, o, p + ("id",), INT))
        raise Unsupported("identity of %r" % (v,))
    def lookup(self, x, k, i, st):
        if not isinstance(x, MapV): raise Unsupported("map lookup")
        key = k if isinstance(k, int) or isz(k) else self.iface_id(k, st)
        t = self.p.ut(i["xt"])["elem"] if "xt" in i else self.p.ut(x.obj.t)["elem"]
        v = self.load_place(x.obj, (("*", num(key)),), t, st)
        return TupleV([v, self.fresh("present", BOOL)]) if i.get("commaok") else v
    def do_slice(self, x, lo, hi, mx, i, st):
        lo = 0 if lo is None else num(lo)
        if isinstance(x, SliceV):
            hi = x.len if hi is None else num(hi)
            self.prove(st, band(Z(lo) >= 0, Z(lo) <= Z(hi), Z(hi) <= Z(x.cap)), "slice bounds")
            return SliceV(x.obj, x.path, num(z3.simplify(Z(x.off) + Z(lo))), num(z3.simplify(Z(hi) - Z(lo))), num(z3.simplify(Z(x.cap) - Z(lo))), x.t)
        if isinstance(x, Ptr):
            n = self.p.ut(self.p.ut(i["xt"])["elem"])["len"]; hi = n if hi is None else num(hi)
            self.prove(st, band(Z(lo) >= 0, Z(lo) <= Z(hi), Z(hi) <= n), "slice bounds")
            return SliceV(x.obj, x.path, lo, num(z3.simplify(Z(hi) - Z(lo))), n - lo if isinstance(lo, int) else Z(n) - lo, i["t"])
        raise Unsupported("slice of %r" % (x,))
    def makeslice(self, n, c, i, st):
        n = num(n); self.prove(st, Z(n) >= 0, "make length not negative")
        et = self.p.ut(i["t"])["elem"]
        o = Obj("make", i["t"], "zero", "elems")
        return SliceV(o, (), 0, n, num(c) if c is not None else n, i["t"])
    def unop(self, u, x, t, st, ins):
        if u == "!": return bnot(x)
        if u == "-":
            if isinstance(x, OpaqueV): return OpaqueV("float", t)
            r = num(z3.simplify(-Z(num(x)))); return self.wrap(r, t, st)
        if u == "^":
            lo, hi = self.irange(t); r = (hi - 1 - Z(num(x))) if lo == 0 else (-1 - Z(num(x)))
            return num(z3.simplify(r))
        raise Unsupported("unop " + u)
    def wrap(self, r, t, st):
        if isinstance(r, int):
            lo, hi = self.irange(t)
            if lo is None: return r
            return (r - lo) % (hi - lo) + lo
        n = self.p.ut(t)["name"]
        if n == "int": 
            self.assumed.add("machine int arithmetic on lengths, indices and counters treated as mathematical")
            return r
        lo, hi = self.irange(t)
        if lo is None: return r
        if self.quick(st, band(r >= lo, r < hi)): return r
        if lo == 0: return r % hi
        return (r - lo) % (hi - lo) + lo
    def quick(self, st, goal, ms=300):
        if goal is True: return True
        if goal is False: return False
        g = z3.simplify(B(goal))
        if z3.is_true(g): return True
        return self.solve(st, g, ms) == "proved"
    def qr(self, x, y, st):
        """Euclidean quotient and remainder for y > 0 (by its defining inequalities when y is no literal)"""
        x, y = num(x), num(y)
        if isinstance(x, int) and isinstance(y, int): return x // y, x % y
        if isinstance(y, int): return num(z3.simplify(Z(x) / y)), num(z3.simplify(Z(x) % y))
        x, y = z3.simplify(Z(x)), z3.simplify(Z(y))
        q, r = ediv_(x, y), emod_(x, y)
        key = (x.get_id(), y.get_id()); c = self._qr = getattr(self, "_qr", {})
        if key not in c:
            self.ax.append(z3.Implies(y > 0, z3.And(x == y * q + r, r >= 0, r < y)))
            self.ax.append(z3.Implies(z3.And(y > 0, x >= 0), q >= 0))
            self.mult(y, q)
            self.ax.append(z3.Implies(z3.And(y > 0, x >= 0, x < y), z3.And(q == 0, r == x)))
            for t in (x.children() if z3.is_add(x) else []):      # x = X - (X mod y) + k y with a small k: the quotient is X/y + k
                if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == -1 and t.arg(1).decl().eq(emod_) and t.arg(1).arg(1).eq(y):
                    k = z3.simplify(x - t - t.arg(1).arg(0))
                    for n in (-1, 0, 1):
                        if z3.is_true(z3.simplify(k == n * y)): self.ax.append(z3.Implies(y > 0, z3.And(q == ediv_(t.arg(1).arg(0), y) + n, r == 0)))
            c[key] = (q, r, x, y)
        return q, r
    def mult(self, y, a):
        """notes a as a multiplicand of y: multiplication by a positive number is monotone"""
        y, a = z3.simplify(Z(y)), z3.simplify(Z(a))
        l = self._mult = getattr(self, "_mult", {}); l = l.setdefault(y.get_id(), [y])
        if any(a.eq(b) for b in l[1:]): return
        for b in l[1:][-12:]:
            for u, v in ((a, b), (b, a)):
                for d in (0, 1, 2): self.ax.append(z3.Implies(z3.And(y > 0, u + d <= v), y * u + d * y <= y * v))
        l.append(a)
    def pow2(self, k):
        k = num(k)
        if isinstance(k, int): return 1 << k if k >= 0 else 0
        self.ax.append(z3.Implies(k >= 0, z3.And(pow2_(k) >= 1, pow2_(k + 1) == 2 * pow2_(k), pow2_(k) > k)))
        self.ax.append(z3.Implies(k >= 1, pow2_(k) == 2 * pow2_(k - 1))); self.ax.append(pow2_(z3.IntVal(0)) == 1)
        return pow2_(k)
    def binop(self, op, x, y, t, xt, yt, st, ins):
        if isinstance(x, OpaqueV) or isinstance(y, OpaqueV) or isinstance(x, StrV) or isinstance(y, StrV): return self.opaque_binop(op, x, y, t, st)
        kx = self.kind(xt)
        if op in ("==", "!="):
            r = self.equal(x, y, xt, st); return r if op == "==" else bnot(r)
        if kx == "bool":
            if op in ("&", "&&"): return band(B(x), B(y))
            if op in ("|", "||"): return z3.Or(B(x), B(y))
        x, y = num(x), num(y)
        if op in ("<", "<=", ">", ">="):
            if isinstance(x, int) and isinstance(y, int): return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            return {"<": Z(x) < Z(y), "<=": Z(x) <= Z(y), ">": Z(x) > Z(y), ">=": Z(x) >= Z(y)}[op]
        conc = isinstance(x, int) and isinstance(y, int)
        if op == "+": return self.wrap(num(z3.simplify(Z(x) + Z(y))) if not conc else x + y, t, st)
        if op == "-": return self.wrap(num(z3.simplify(Z(x) - Z(y))) if not conc else x - y, t, st)
        if op == "*": return self.wrap(num(z3.simplify(Z(x) * Z(y))) if not conc else x * y, t, st)
        if op in ("/", "%"):
            self.prove(st, Z(y) != 0, "divisor not zero")
            if conc:
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return q if op == "/" else x - q * y
            xpos = self.unsigned(xt) or self.quick(st, Z(x) >= 0); ypos = self.unsigned(xt) or self.quick(st, Z(y) > 0)
            if not ypos: raise Unsupported("division by a possibly negative number")
            if xpos: q, r = self.qr(x, y, st); return q if op == "/" else r
            q, r = self.qr(x, y, st); qn, rn = self.qr(num(z3.simplify(-Z(x))), y, st)
            if not isinstance(y, int): self.mult(y, -Z(qn))
            return ite(Z(x) >= 0, q, -Z(qn)) if op == "/" else ite(Z(x) >= 0, r, -Z(rn))
        if op == "<<":
            p = self.pow2(y)
            return self.wrap(num(z3.simplify(Z(x) * Z(p))), t, st)
        if op == ">>":
            p = self.pow2(y)
            if isinstance(x, int) and isinstance(p, int): return x // p if p else 0
            return self.qr(x, p, st)[0]
        if conc and op in ("&", "|", "^", "&^"): return {"&": x & y, "|": x | y, "^": x ^ y, "&^": x & ~y}[op]
        if op == "&":
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return num(z3.simplify(Z(a) % (b + 1)))
            if not isinstance(x, int) and not isinstance(y, int):
                d = z3.simplify(Z(x) - Z(y))
                if z3.is_int_value(d) and abs(d.as_long()) == 1:
                    n = x if d.as_long() == 1 else y
                    r = self.fresh("and"); e = z3.Function("log2", INT, INT)(n)
                    # n & (n-1) = 0 exactly for powers of two (n > 0)
                    self.ax.append(z3.Implies(n > 0, z3.And(r >= 0, (r == 0) == z3.And(e >= 0, n == self.pow2(e)))))
                    self.assumed.add("n&(n-1) = 0 only for powers of two")
                    return r
        if op in ("|",):
            if self.disjoint_or(x, y, st): return num(z3.simplify(Z(x) + Z(y)))
        raise Unsupported("bit operation %s on symbolic values" % op)
    def disjoint_or(self, x, y, st):
        """x | y = x + y when one is below 2^k and the other a multiple of 2^k"""
        for a, b in ((x, y), (y, x)):
            for k in (8, 16, 24, 32, 40, 48, 56, 52):
                if self.quick(st, band(Z(a) >= 0, Z(a) < (1 << k), Z(b) >= 0, Z(b) % (1 << k) == 0)): return True
        return False
    def freal(self, x):
        """a floating-point number as an unknown real: the same value, the same number"""
        if "real" not in x.meta: x.meta["real"] = z3.FreshConst(z3.RealSort(), "float")
        return x.meta["real"]
    def opaque_binop(self, op, x, y, t, st):
        if self.kind(t) == "bool" and op in ("<", ">") and all(isinstance(v, OpaqueV) and v.t is not None and not isinstance(v.t, str) and self.kind(v.t) == "float" for v in (x, y)):
            a, b = (self.freal(x), self.freal(y)) if op == "<" else (self.freal(y), self.freal(x)); return fless_(a, b)
        if self.kind(t) == "bool": return self.fresh("cmp", BOOL)
        return OpaqueV("op" + op, t)
    def equal(self, x, y, t, st):
        k = self.kind(t)
        if k == "int":
            x, y = num(x), num(y)
            return x == y if isinstance(x, int) and isinstance(y, int) else z3.simplify(Z(x) == Z(y)) if True else None
        if k == "bool":
            if isinstance(x, bool) and isinstance(y, bool): return x == y
            return B(x) == B(y)
        if x is NIL or y is NIL:
            o = y if x is NIL else x
            if o is NIL: return True
            if isinstance(o, (Ptr, Ref, FuncV, IfaceV, WinPtr)): return False
            if isinstance(o, MapV): return False
            if isinstance(o, SliceV): return o.obj is None
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if x.obj is None: return y.obj is None
            if y.obj is None: return False
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.path == y.path: return True
        if isinstance(x, IfaceV) and isinstance(y, IfaceV) and x.t == y.t and (x.v is NIL or y.v is NIL): return self.equal(x.v, y.v, x.t, st)
        raise Unsupported("comparison of %r and %r" % (x, y))
    def convert(self, x, a, b, st, ins):
        ka, kb = self.kind(a), self.kind(b)
        if kb == "raw": return RawPtr(x)
        if ka == "raw":
            p = x.p if isinstance(x, RawPtr) else None
            el = self.p.ut(self.p.ut(b)["elem"])
            if isinstance(p, ElemPtr) and p.sl is not None and el["k"] == "array":
                base = p.path[-1][1]; n = el["len"]
                self.prove(st, Z(base) + n <= Z(p.sl.off) + Z(p.sl.len), "window of %d elements stays inside the vector" % n)
                return WinPtr(p.obj, p.path[:-1], base, n, None)
            raise Unsupported("unsafe conversion")
        if ka == "int" and kb == "int":
            if self.p.ut(b)["name"] == "int" and not self.unsigned(a): return x
            if self.p.ut(a)["name"] == self.p.ut(b)["name"]: return x
            x = num(x)
            if isinstance(x, int): return self.wrap(x, b, st)
            lo, hi = self.irange(b)
            if self.quick(st, band(x >= lo, x < hi)): return x
            return (x - lo) % (hi - lo) + lo
        if ka == kb and ka not in ("float",): return x
        if kb == "float" or ka == "float":
            if kb == "int": return self.sym(b, "ffloat")
            return OpaqueV("float", b)
        if isinstance(x, OpaqueV) or kb == "str" or ka == "str": return OpaqueV("conv", b) if kb != "slice" else self.sym(b, "bytes")
        return x
    def select_fixed(self, x, i, st): raise Unsupported("symbolic index into an array value")
    def fork(self, st, c):
        if isinstance(c, bool): return [(c, st)]
        if isinstance(c, OpaqueV): c = self.fresh("cond", BOOL)
        c = z3.simplify(c)
        if z3.is_true(c): return [(True, st)]
        if z3.is_false(c): return [(False, st)]
        out = []
        for tr, f in ((True, c), (False, z3.simplify(z3.Not(c)))):
            if self.solve(st, z3.Not(f), self.branch_ms) == "proved": continue
            s2 = st.copy(); s2.pc.append(f); out.append((tr, s2))
        return out
    def typeassert(self, x, i, st):
        if isinstance(x, OpaqueV) and not i["commaok"]:
            return self.sym(i["at"], "asserted")
        if isinstance(x, IfaceV): return super().typeassert(x, i, st)
        if not i["commaok"] and isinstance(x, (Ptr, Ref)): return x
        if isinstance(x, OpaqueV): return TupleV([self.sym(i["at"], "asserted"), self.fresh("ok", BOOL)])
        raise Unsupported("type assertion of %r" % (x,))

    # ---- solver
    def axioms(self):
        """the background facts, without repetitions"""
        c = self._axc = getattr(self, "_axc", None) or dict(n=0, src=self.ax, ids=set(), keep=[], out=[])
        if c["src"] is not self.ax or len(self.ax) < c["n"]: c = self._axc = dict(n=0, src=self.ax, ids=set(), keep=[], out=[])
        for a in self.ax[c["n"]:]:
            a = B(a)
            if a.get_id() not in c["ids"]: c["ids"].add(a.get_id()); c["keep"].append(a); c["out"].append(a.as_ast())
        c["n"] = len(self.ax)
        return c["out"]
    def impossible(self, st, cond):
        """each way the condition could come about is refuted"""
        todo, alts = [cond], []
        while todo:
            x = todo.pop()
            if z3.is_or(x): todo += x.children()
            elif z3.is_not(x) and z3.is_and(x.arg(0)): todo += [z3.Not(y) for y in x.arg(0).children()]
            else: alts.append(x)
        return all(self.solve(st, z3.Not(x), 3000) == "proved" or self.solve(st, z3.Not(x), 6000, relevancy=0) == "proved" for x in alts)
    def solve(self, st, goal, ms=None, relevancy=None):
        t = time.time(); self.stats["queries"] += 1
        s = z3.SimpleSolver(); s.set("timeout", ms or self.timeout); s.set("auto_config", False); s.set("mbqi", False); s.set("random_seed", 7)
        if relevancy is not None: s.set("relevancy", relevancy)
        put, ctx, sv = z3.Z3_solver_assert, s.ctx.ref(), s.solver
        for a in self.axioms(): put(ctx, sv, a)
        have = set()
        for a in st.pc:
            a = B(a)
            if a.get_id() not in have: have.add(a.get_id()); put(ctx, sv, a.as_ast())
        s.add(z3.Not(B(goal)))
        r = s.check()
        self.stats["time"] += time.time() - t
        if r == z3.unsat: return "proved"
        if r == z3.sat: self.last_model = s.model(); return "refuted"
        return "unknown"
    def prove(self, st, goal, name, assume=True):
        """an obligation; also assumed afterwards"""
        if goal is True: 
            self.record(name, "proved", ""); return True
        g = B(goal)
        gs = self.split(g)
        ok = True
        for one in gs:
            if z3.is_true(z3.simplify(one)): continue
            r = "muted" if self.quiet else self.prove1(st, one)
            if r not in ("proved", "muted"): ok = False; det = self.explain(one, st, r); break
        if ok: self.record(name, "proved", "")
        else: self.record(name, r if r != "refuted" else "failed", det)
        if assume: st.pc.append(g)
        return ok
    def split(self, g):
        if z3.is_and(g): return [x for c in g.children() for x in self.split(c)]
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(g.num_vars())]
            return self.split(z3.substitute_vars(g.body(), *reversed(vs)))
        if z3.is_implies(g):
            return [z3.Implies(g.arg(0), x) for x in self.split(g.arg(1))]
        if z3.is_eq(g) and g.arg(0).sort() == BOOL and not any(z3.is_const(a) for a in g.children()):
            a, b = (z3.simplify(x) for x in g.children()); return self.split(z3.Implies(a, b)) + self.split(z3.Implies(b, a))
        return [g]
    def prove1(self, st, g):
        hyps, c = [], g
        while z3.is_implies(c): hyps.append(c.arg(0)); c = c.arg(1)
        s2 = st.copy() if hyps else st
        for h in hyps: s2.pc.append(h)
        for k, h in enumerate(getattr(self, "goal_facts", [])):
            for f in h(self, s2, c): s2 = s2.copy(); s2.pc.append(f)
        r = self.solve(s2, c, 3000)
        if r == "proved": return r
        if z3.is_eq(c) and c.arg(0).sort() == F:
            if self.field_eq(s2, c.arg(0), c.arg(1)): return "proved"
        # case split on array reads, then with model-based instantiation
        r2 = self.solve(s2, c)
        if r2 == "unknown": r2 = self.solve(s2, c, 6000, relevancy=0)
        if r2 != "proved": self.last_goal = c
        return r2
    def field_eq(self, st, a, b, depth=24):
        """rewrites both sides by the equations among the hypotheses (quantified ones instantiated by matching), splitting cases on
        undecided indices and guards, and compares polynomial normal forms"""
        p = _padd(self.fexpand(a), self.fexpand(b), -1)
        return self.poly_zero(st, p, self.rules(st), depth, {})
    def rules(self, st):
        """oriented equations  forall k. guard -> Select(.., e(k)) == rhs  of the hypotheses"""
        out = []
        def add(h, vs):
            g = []
            while z3.is_implies(h): g.append(h.arg(0)); h = h.arg(1)
            for c in (h.children() if z3.is_and(h) else [h]):
                g2 = list(g)
                while z3.is_implies(c): g2.append(c.arg(0)); c = c.arg(1)
                if z3.is_eq(c) and c.arg(0).sort() == F: out.append((vs, g2, c.arg(0), c.arg(1)))
        for h in list(self.ax) + list(st.pc):
            if not isz(h): continue
            for c in (h.children() if z3.is_and(h) else [h]):
                if z3.is_quantifier(c) and c.is_forall():
                    if c.num_vars() == 1: add(c.body(), 1)
                elif z3.is_implies(c): add(c, 0)
        return out
    def inst(self, rule, t):
        """instance of the rule whose left side is t: (guards, rhs)"""
        vs, gs, l, r = rule
        if vs == 0:
            if l.eq(t): return gs, r
            if l.decl() != t.decl() or l.num_args() == 0: return None
        bind = [None]
        def m(p, x):
            if z3.is_var(p):
                if bind[0] is None: bind[0] = x; return True
                return z3.is_true(z3.simplify(bind[0] == x))
            if not z3.is_app(p) or not z3.is_app(x): return False
            if p.sort() == INT:
                if not has_var(p): return p.eq(x) or z3.is_true(z3.simplify(p == x))
                e = [z3.simplify(z3.substitute_vars(p, z3.IntVal(v))) for v in (0, 1, 2)]
                d1, d2 = z3.simplify(e[1] - e[0]), z3.simplify(e[2] - e[0])
                if z3.is_int_value(d1) and z3.is_int_value(d2) and abs(d1.as_long()) == 1 and d2.as_long() == 2 * d1.as_long():
                    v = z3.simplify(d1.as_long() * (x - e[0]))
                    if bind[0] is None: bind[0] = v; return True
                    return z3.is_true(z3.simplify(bind[0] == v))
                if p.decl() != x.decl() or p.num_args() == 0: return False
                return all(m(a, b) for a, b in zip(p.children(), x.children()))
            if not has_var(p) and (p.eq(x) or p.sort() != F or p.num_args() == 0): return p.eq(x)
            if p.decl() != x.decl() or p.num_args() != x.num_args(): return False
            return all(m(a, b) for a, b in zip(p.children(), x.children()))
        if not m(l, t): return None
        if vs == 0: return gs, r
        if bind[0] is None: return None
        return [z3.substitute_vars(g, bind[0]) for g in gs], z3.substitute_vars(r, bind[0])
    def poly_zero(self, st, p, rules, depth, memo):
        """p = 0 under the hypotheses? memo: what is already known about atoms on this path: rewriting of reads, instances of rules"""
        split, gsplit, eqs = None, None, []
        seen = set(); todo = sorted({x for m in p for x, _ in m}); base = set(todo)
        ground = {}
        for n, e in enumerate(self.ground_eqs(st)):
            for x in {x for m in e for x, _ in m}: ground.setdefault(x, []).append((n, e))
        used = set()
        while todo and len(seen) < 150:
            a = todo.pop(0)
            if a in seen: continue
            seen.add(a); t = _atoms[a]
            for n, e in ground.get(a, ()):
                if n not in used: used.add(n); eqs.append(e); todo += [x for m in e for x, _ in m]
            r = memo.get(a)
            if r is None:
                r = self.read_step(st, t)
                if not isinstance(r, tuple): memo[a] = r = ("eq", _padd(r, {((a, 1),): 1}, -1)) if r is not None else ("atom", {})
            if r[0] == "split": split = r[1] if split is None else split; continue
            if r[0] == "eq": eqs.append(r[1]); todo += [x for m in r[1] for x, _ in m]; continue
            for k, rule in enumerate(rules):
                g = r[1].get(k)
                if g is None:
                    m = self.inst(rule, t)
                    if m is None: r[1][k] = False; continue
                    gs, rhs = m
                    e = _padd(self.fexpand(rhs), {((a, 1),): 1}, -1)
                    c = band(*gs) if gs else True
                    d = True if c is True else self.decide(st, c)
                    g = e if d else False if d is False else ("split", c)
                    if d is not None: r[1][k] = g
                if isinstance(g, tuple):
                    if a in base and gsplit is None: gsplit = g[1]
                elif g is not False:
                    eqs.append(g); todo += [x for m in g for x, _ in m]
        if self.eliminate(p, eqs): return True
        ats = sorted({x for e in [p] + eqs for m in e for x, _ in m})
        for broad in (False, True):
            if len(ats) > 80 or split is not None and depth > 0 and (broad or self.skolem_value(split) is not None): continue
            rep, reps = {}, []
            for x in ats:
                rep[x] = x
                if not broad and memo.get(x, ("",))[0] == "eq": continue
                for r in reps:
                    if (self.similar if broad else self.alike)(_atoms[x], _atoms[r]) and self.same_atom(st, _atoms[x], _atoms[r], rules, depth): rep[x] = r; break
                else: reps.append(x)
            if any(rep[x] != x for x in rep):
                def sub(e):
                    for x in ats:
                        if rep[x] != x: e = self.psubst(e, x, {((rep[x], 1),): 1})
                    return e
                if self.eliminate(sub(p), [sub(e) for e in eqs]): return True
        if split is None: split = gsplit
        if split is not None and depth > 0:
            for c in (split, z3.Not(split)):
                s2 = st.copy(); s2.pc.append(c)
                if self.solve(s2, z3.BoolVal(False), 500) == "proved": continue
                v = self.skolem_value(c)
                if v is not None:        # the index is known now: go on with its value
                    p2 = self.subst_atoms(p, *v)
                    if p2 is not None and self.poly_zero(s2, p2, rules, depth - 1, {}): continue
                if not self.poly_zero(s2, p, rules, depth - 1, {k: (v if v[0] == "eq" else ("atom", {n: g for n, g in v[1].items() if g is not False or True})) for k, v in memo.items()}): return False
            return True
        return False
    def skolem_value(self, c):
        if not z3.is_eq(c) or c.arg(0).sort() != INT: return None
        for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if z3.is_const(x) and x.decl().name().startswith("sk!"): return x, y
        d = z3.simplify(c.arg(0) - c.arg(1))
        for y in (d.children() if z3.is_add(d) else [d]):
            k, x = (1, y) if z3.is_const(y) else (y.arg(0).as_long(), y.arg(1)) if z3.is_mul(y) and y.num_args() == 2 and z3.is_int_value(y.arg(0)) else (0, None)
            if abs(k) == 1 and z3.is_const(x) and x.decl().name().startswith("sk!"): return x, z3.simplify(x - k * d)
        return None
    def subst_atoms(self, p, x, v):
        v = z3.simplify(v)
        if any(v.eq(x) for _ in (0,)): return None
        out = {}
        for m, c in p.items():
            q = {(): c}
            for a, e in m:
                t = z3.substitute(_atoms[a], (x, v))
                for _ in range(e): q = _pmul(q, self.fexpand(t))
            out = _padd(out, q)
        return out
    def eliminate(self, p, eqs):
        eqs = [e for e in eqs if e]
        for rnd in range(400):
            if not p: return True
            best = None
            for n, e in enumerate(eqs):
                for m, c in e.items():
                    if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and not any(x == m[0][0] for m2 in e if m2 != m for x, _ in m2):
                        if best is None or len(e) < len(eqs[best[0]]): best = (n, m[0][0], c)
                        break
            if best is None: return not p
            n, a, c = best
            q = {m: -v * c for m, v in eqs[n].items() if m != ((a, 1),)}
            eqs = [y for y in (self.psubst(e, a, q) if any(x == a for m in e for x, _ in m) else e for k, e in enumerate(eqs) if k != n) if y]
            p = self.psubst(p, a, q)
        return not p
    def ground_eqs(self, st):
        out = []
        for h in list(self.ax) + list(st.pc):
            for c in ([h] if not z3.is_and(h) else h.children()) if isz(h) else []:
                if z3.is_eq(c) and c.arg(0).sort() == F: out.append(_padd(self.fexpand(c.arg(0)), self.fexpand(c.arg(1)), -1))
        return out
    def read_step(self, st, t):
        """a conditional or a read of a stored array: the polynomial it equals, None if it is neither, ('split', c) when it depends on c"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            d = self.decide(st, t.arg(0))
            if d is None: return ("split", t.arg(0))
            return self.fexpand(t.arg(1 if d else 2))
        if z3.is_app(t) and t.decl().eq(finj_) and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
            x = t.arg(0); d = self.decide(st, x.arg(0))
            if d is None: return ("split", x.arg(0))
            return ipoly(x.arg(1 if d else 2))
        x, path = t, []
        while z3.is_select(x): path.append(x.arg(1)); x = x.arg(0)
        if z3.is_select(t) and z3.is_store(x):
            i = path[-1]; d = self.decide(st, i == x.arg(1))
            if d is None: return ("split", i == x.arg(1))
            y = x.arg(2) if d else z3.Select(x.arg(0), i)
            for j in reversed(path[:-1]): y = z3.Select(y, j)
            return self.fexpand(y)
        if z3.is_select(t) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            d = self.decide(st, x.arg(0))
            if d is None: return ("split", x.arg(0))
            y = x.arg(1 if d else 2)
            for j in reversed(path): y = z3.Select(y, j)
            return self.fexpand(y)
        return None
    def alike(self, a, b):
        if a.decl() != b.decl(): return False
        if z3.is_select(a): return a.arg(0).eq(b.arg(0))
        if a.decl().name() == "ring_value":
            return self.read_base(a.arg(1)).eq(self.read_base(b.arg(1)))
        return True
    def same_atom(self, st, a, b, rules, depth):
        """functions of field values agree where the values do"""
        n = a.decl().name()
        if n.startswith("sum_") and b.decl().eq(a.decl()): return self.same_indices(st, a.children(), b.children())
        if n == "ring_value" and b.decl().eq(a.decl()) and a.arg(0).eq(b.arg(0)):
            x, y, e = a.arg(1), b.arg(1), []
            while z3.is_select(x) and z3.is_select(y): e.append((x.arg(1), y.arg(1))); x, y = x.arg(0), y.arg(0)
            if x.eq(y) and not z3.is_store(x): return self.same_indices(st, [p for p, _ in e], [q for _, q in e])
        if self.solve(st, a == b, 500) == "proved": return True
        if not (z3.is_app(a) and z3.is_app(b) and a.decl() == b.decl() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in ("inverse_ntt", "ntt")) or depth < 16: return False
        for x, y in zip(a.children(), b.children()):
            if x.eq(y): continue
            if x.sort() != F:
                if self.solve(st, x == y, 500) != "proved": return False
            elif not self.poly_zero(st, _padd(self.fexpand(x), self.fexpand(y), -1), rules, depth - 6, {}): return False
        return True
    def read_base(self, x):
        while z3.is_select(x): x = x.arg(0)
        return x
    def same_indices(self, st, a, b):
        """could these be the same by their indices? decided from the hypotheses on integers alone"""
        s = z3.SimpleSolver(); s.set("timeout", 200)
        for h in st.pc:
            if isz(h) and not z3.is_quantifier(h) and self.only_int(h): s.add(h)
        eqs = [x == y for x, y in zip(a, b) if not x.eq(y)]
        s.add(z3.Not(z3.And(eqs))) if eqs else s.add(z3.BoolVal(False)); return s.check() == z3.unsat
    def only_int(self, h):
        m = self.__dict__.setdefault("_onlyint", {}); k = h.get_id()
        if k in m: return m[k][0]
        r = not z3.is_quantifier(h) and (h.sort() in (INT, BOOL)) and len(h.children()) < 12 and all(self.only_int(x) for x in h.children()); m[k] = (r, h); return r
    def similar(self, a, b):
        if a.decl().name() == "ring_value" and b.decl().eq(a.decl()) and not any(z3.is_store(self.read_base(x.arg(1))) for x in (a, b)): return self.read_base(a.arg(1)).eq(self.read_base(b.arg(1)))
        return a.decl() == b.decl() or (z3.is_select(a) or z3.is_select(b))
    def psubst(self, p, a, q):
        r = {}
        for m, c in p.items():
            e = dict(m); k = e.pop(a, 0)
            x = {tuple(sorted(e.items())): c}
            for _ in range(k): x = _pmul(x, q)
            r = _padd(r, x)
        return r
    def decide(self, st, c):
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if self.solve(st, c, 600) == "proved": return True
        if self.solve(st, z3.Not(c), 600) == "proved": return False
        return None
    def fexpand(self, t):
        """normal form of a term possibly built outside the normaliser"""
        k = t.get_id()
        if k in _poly and not (len(_poly[k]) == 1 and ((k, 1),) in _poly[k]): return _poly[k]
        d = t.decl().name() if z3.is_app(t) else ""
        if d == "fadd": return _padd(self.fexpand(t.arg(0)), self.fexpand(t.arg(1)))
        if d == "fmul": return _pmul(self.fexpand(t.arg(0)), self.fexpand(t.arg(1)))
        if d == "finj" and z3.is_int_value(t.arg(0)):
            n = t.arg(0).as_long(); return {(): n} if n else {}
        return fpoly(t)
    def explain(self, g, st, r):
        d = "goal %s" % re.sub(r"\s+", " ", str(g))[:600]
        if r == "refuted":
            try: d += " ; candidate counterexample " + re.sub(r"\s+", " ", str(self.last_model))[:600]
            except Exception: pass
        return d
    def record(self, name, status, det):
        if self.quiet: return
        self.obls.append(("%s%s line %s: %s" % (self.curfn, "", getattr(self, "line", "?"), name), status, det))
    def prove_ge(self, st, a, b, name): self.prove(st, Z(num(a)) >= Z(num(b)), name)

    # ---- loops
    def loop_key(self, fn, h):
        """ordinal of a loop in source order, outer before inner"""
        if not hasattr(fn, "d"): return None
        o = fn.d.get("_loopord")
        if o is None:
            fn.analyse()
            def line(L): return min([i["line"] for b in L for i in fn.blocks[b]["ins"] if "line" in i and i["op"] != "phi"] or [0])
            hs = sorted(fn.loops, key=lambda x: (line(fn.loops[x]), -len(fn.loops[x])))
            # program order by reverse post order when lines tie
            o = fn.d["_loopord"] = {x: k for k, x in enumerate(hs)}
        return o[h]
    def loop_contract(self, fn, h):
        for nm in (fn.name,):
            c = self.cons.get(nm)
            if c is not None and self.loop_key(fn, h) in c.loops: return c.loops[self.loop_key(fn, h)]
        return None

    def enter_loop(self, fn, h, prev, env, st, items, outs, depth, L, header, backs, exits):
        lc = self.loop_contract(fn, h)
        if lc is None and self.unrollable(fn, h, prev, env, st):
            items.append(Item(h, prev, env, st)); return
        if lc is None: lc = Loop()
        b = fn.blocks[h]; body = fn.loops[h]
        entry = st
        init = self.phis(fn, h, prev, env, st)
        phis = [i for i in b["ins"] if i["op"] == "phi"]
        saved_w = self.writes
        # discover what the loop writes
        W = {}; changed = {p["n"] for p in phis}; refphi = {}
        for rnd in range(8):
            self.quiet += 1; self.writes = {}
            mark = next(Obj.cnt)
            try:
                h0, env0, s0 = self.havoc(fn, h, env, entry, init, phis, W, refphi)
                for g in lc.ghost: env0["$" + g] = self.fresh(g)
                lctx = LoopCtx(self, fn, h, phis, env0, s0, entry, init, env)
                for f in self.loop_facts(lc, lctx): s0.pc.append(f)
                it = [Item(h, None, env0, s0)]; o2 = []
                # Mute: exploring the body only to find its writes
                b2, e2 = self.explore(fn, it, o2, depth, body, h)
                new = {k: o for k, o in self.writes.items() if o.id < mark}
                newref = {}
                for (pv, en, s) in b2:
                    for p in phis:
                        v = self.val(p["edges"][b["preds"].index(pv)], fn, en, s)
                        if isinstance(v, (Ref, Ptr, SliceV, FuncV, IfaceV, OpaqueV)) or v is NIL:
                            if not self.same_ref(v, init[p["n"]]) and not self.same_ref(v, env0[p["n"]]): newref[p["n"]] = True
            finally:
                self.quiet -= 1
            grow = {k: o for k, o in new.items() if k not in W}
            W.update(grow)
            if newref and not all(k in refphi for k in newref): refphi.update(newref); grow = grow or newref
            if not grow: break
        else: raise Unsupported("loop writes do not settle")
        self.writes = saved_w
        own = []
        for k, o in W.items():
            if o.kind == "cell" and k[1] == () and k in s0.heap and any(k in s.heap and not s.heap[k].eq(s0.heap[k]) and mentions(s.heap[k], s0.heap[k]) for (pv, en, s) in b2): own.append(o)
        self.loop_accs[(fn.name, h)] = own
        if self.writes is not None:
            for k, o in W.items(): self.writes.setdefault(k, o)
        # establish
        pe = dict(env); pe.update(init)
        l0 = LoopCtx(self, fn, h, phis, pe, entry, entry, init, env)
        for g, (gi, gs) in lc.ghost.items(): pe["$" + g] = num(gi(l0))
        cands = self.candidates(fn, h, lc, phis, init, W, entry, env)
        live = []
        for nm, f in cands:
            g = f(l0)
            if self.holds(entry, g): live.append((nm, f))
        if lc.inv:
            for f in self.loop_facts(lc, l0): entry.pc.append(f)
            for nm, g in lc.inv(l0): self.prove(entry, g, "loop %d invariant established: %s" % (self.loop_key(fn, h), nm))
        # Houdini on the candidates, then the real pass
        while True:
            h0, env0, s0 = self.havoc(fn, h, env, entry, init, phis, W, refphi)
            for g in lc.ghost: env0["$" + g] = self.fresh(g)
            l1 = LoopCtx(self, fn, h, phis, env0, s0, entry, init, env)
            for f in self.loop_facts(lc, l1): s0.pc.append(f)
            for nm, f in live: s0.pc.append(B(f(l1)))
            if lc.inv:
                for nm, g in lc.inv(l1): s0.pc.append(B(g))
            dropped = False
            if live:
                self.quiet += 1; w0 = self.writes; self.writes = {}
                try:
                    b2, e2 = self.explore(fn, [Item(h, None, dict(env0), s0.copy())], [], depth, body, h)
                    keep = []
                    for nm, f in live:
                        ok = True
                        for (pv, en, s) in b2:
                            en2 = dict(en); en2.update(self.phis(fn, h, pv, en, s))
                            lb = LoopCtx(self, fn, h, phis, en2, s, entry, init, env, head=l1); self.step_ghosts(lc, lb, l1)
                            if not self.holds(s, f(lb)): ok = False; break
                        if ok: keep.append((nm, f))
                    dropped = len(keep) != len(live); live = keep
                finally: self.quiet -= 1; self.writes = w0
            if not dropped: break
        dec0 = lc.dec(l1) if lc.dec else self.auto_dec(fn, h, phis, l1, body, init)
        if dec0 is None and not self.quiet: self.loopnotes.append("%s loop %d: termination not proved" % (fn.name, self.loop_key(fn, h)))
        b2, e2 = self.explore(fn, [Item(h, None, dict(env0), s0)], outs, depth, body, h)
        for (pv, en, s) in b2:
            en2 = dict(en); en2.update(self.phis(fn, h, pv, en, s))
            lb = LoopCtx(self, fn, h, phis, en2, s, entry, init, env, head=l1); self.step_ghosts(lc, lb, l1)
            if lc.end:
                for f in lc.end(lb): s.pc.append(B(f))
            if lc.last:
                for nm, g in lc.last(lb): self.prove(s, g, "loop %d at the end of an iteration: %s" % (self.loop_key(fn, h), nm))
            if lc.inv:
                for nm, g in lc.inv(lb): self.prove(s, g, "loop %d invariant preserved: %s" % (self.loop_key(fn, h), nm), assume=False)
            if dec0 is not None:
                d1 = lc.dec(lb) if lc.dec else self.auto_dec(fn, h, phis, lb, body, init)
                self.prove(s, band(Z(dec0) >= 0, Z(d1) < Z(dec0)), "loop %d terminates" % self.loop_key(fn, h), assume=False)
        for (tgt, pv, en, s) in e2:
            if lc.last and tgt not in body and h in fn.blocks[pv]["succs"]:
                lb = LoopCtx(self, fn, h, phis, en, s, entry, init, env, head=l1)
                for nm, g in lc.last(lb): self.prove(s, g, "loop %d at the end of the last iteration: %s" % (self.loop_key(fn, h), nm))
            if L is not None:
                if tgt == header: backs.append((pv, en, s)); continue
                if tgt not in L: exits.append((tgt, pv, en, s)); continue
            if tgt in fn.loops and pv not in fn.loops[tgt]: self.enter_loop(fn, tgt, pv, en, s, items, outs, depth, L, header, backs, exits)
            else: items.append(Item(tgt, pv, en, s))

    def step_ghosts(self, lc, lb, l1):
        new = {"$" + g: num(gs(lb, l1)) for g, (gi, gs) in lc.ghost.items()}
        lb.env.update(new)
    def loop_facts(self, lc, l): return [B(f) for f in lc.facts(l)] if lc.facts else []
    def holds(self, st, g):
        if g is True: return True
        for one in self.split(B(g)):
            if z3.is_true(z3.simplify(one)): continue
            if self.prove1_quick(st, one) != "proved": return False
        return True
    def prove1_quick(self, st, g):
        hyps, c = [], g
        while z3.is_implies(c): hyps.append(c.arg(0)); c = c.arg(1)
        s2 = st.copy()
        for h in hyps: s2.pc.append(h)
        r = self.solve(s2, c, 2500)
        if r != "proved" and z3.is_eq(c) and c.arg(0).sort() == F and self.field_eq(s2, c.arg(0), c.arg(1)): return "proved"
        return r
    def same_ref(self, a, b):
        if a is b: return True
        if type(a) != type(b): return False
        if isinstance(a, (Ref, Ptr)): return a.obj is b.obj and shape(a.path) == shape(b.path) and all(z3.is_true(z3.simplify(x == y)) for x, y in zip(idxs(a.path), idxs(b.path))) and getattr(a, "ver", 0) == getattr(b, "ver", 0)
        if isinstance(a, SliceV): return a.obj is b.obj and a.path == b.path and all(str(x) == str(y) for x, y in ((a.off, b.off), (a.len, b.len)))
        return False
    def unrollable(self, fn, h, prev, env, st):
        """the loop's condition is concrete on entry and its counter steps concretely"""
        b = fn.blocks[h]; init = self.phis(fn, h, prev, env, st)
        body = fn.loops[h]
        for blk in (h,):
            last = fn.blocks[blk]["ins"][-1]
            if last["op"] != "if": return False
            d = fn.defs().get(last["x"]) if isinstance(last["x"], str) else None
            if d is None or d["op"] != "binop": return False
            def conc(v, depth=0):
                if isinstance(v, dict): return "i" in v
                if v in init: return isinstance(init[v], int)
                if v in env: return isinstance(env[v], int)
                dd = fn.defs().get(v)
                if dd and dd["op"] == "binop" and depth < 3: return conc(dd["x"], depth + 1) and conc(dd["y"], depth + 1)
                if dd and dd["op"] == "call" and isinstance(dd.get("fn"), dict) and dd["fn"].get("name") == "len":
                    a = dd["args"][0]; s = env.get(a) if isinstance(a, str) else None
                    return isinstance(s, SliceV) and isinstance(s.len, int)
                return False
            if not (conc(d["x"]) and conc(d["y"])): return False
        return True
    def havoc(self, fn, h, env, entry, init, phis, W, refphi):
        s = entry.copy(); e = dict(env)
        for p in phis:
            v = init[p["n"]]
            if isinstance(v, bool) or (isz(v) and v.sort() == BOOL): e[p["n"]] = self.fresh(p.get("comment") or p["n"], BOOL)
            elif isinstance(v, int) or isz(v):
                x = self.fresh(p.get("comment") or p["n"]); e[p["n"]] = x
                lo, hi = self.irange(p["t"])
                if lo is not None and self.p.ut(p["t"])["name"] != "int": s.pc.append(z3.And(x >= lo, x < hi))
            elif p["n"] in refphi: e[p["n"]] = self.havoc_ref(v, p, s)
            else: e[p["n"]] = v
        for (oid, sh), o in W.items():
            old = entry.heap.get((oid, sh), o.meta.get(sh, o.meta.get((oid, sh))))
            if old is None:
                t = self.type_at(o, tuple(("*", 0) if x == "*" else x for x in sh))
                if o.kind == "big" and sh == (): t, k = None, "big"
                elif o.kind == "cell": t, k = None, "E"
                elif t is None: raise Unsupported("havoc of %s %s" % (o, sh))
                else: k = "int" if t == "len" else self.kind(t)
                if k in ("E", "big") or "*" in sh: old = self.leaf(entry, o, sh, self.sort_of(k), t)
                else: old = self.load_place(o, sh, t, entry)
            if isinstance(old, bool): s.heap[(oid, sh)] = self.fresh("h", BOOL)
            elif isinstance(old, int): s.heap[(oid, sh)] = self.fresh("h")
            elif isz(old):
                x = z3.FreshConst(old.sort(), "h_" + re.sub(r"[^A-Za-z0-9]", "", o.name))
                s.heap[(oid, sh)] = x
                t = self.type_at(o, tuple(("*", 0) if y == "*" else y for y in sh)) if o.t is not None else None
                if t is not None and t != "len" and self.kind(t) == "int" and self.irange(t)[0] is not None and self.p.ut(t)["name"] != "int":
                    lo, hi = self.irange(t); ks = [z3.Int("i!%d" % next(_bv)) for y in sh if y == "*"]; y = x
                    for k in ks: y = z3.Select(y, k)
                    s.pc.append(z3.ForAll(ks, z3.And(y >= lo, y < hi), patterns=[y]) if ks else z3.And(y >= lo, y < hi))
            elif isinstance(old, OpaqueV): s.heap[(oid, sh)] = OpaqueV("h", old.t)
            else:
                hr = self.hooks.get("havoc_value")
                v = hr(self, old, o, sh, s) if hr else None
                if v is None: raise Unsupported("loop changes %r at %s %s" % (old, o, sh))
                s.heap[(oid, sh)] = v
        # slot overwrites inside the loop invalidate references held from before
        for (oid, sh), o in W.items():
            k = ("ver", oid, sh)
            s.ghost[k] = s.ghost.get(k, 0) + 0
        return None, e, s
    def havoc_ref(self, v, p, s):
        """a reference that changes from iteration to iteration: another unknown object, exclusively owned"""
        if isinstance(v, Ref): return Ref(Obj("phi", p["t"], "sym", "cell"), ())
        if isinstance(v, Ptr): return Ptr(Obj("phi", v.obj.t, "sym", v.obj.kind))
        if isinstance(v, SliceV):
            return self.sym(p["t"], p.get("comment") or "phi")
        if isinstance(v, OpaqueV) or v is NIL: return OpaqueV("phi", p["t"])
        raise Unsupported("loop-carried reference %r" % (v,))

    def counter(self, fn, h, phis, init, body):
        """(phi, step, op, bound value name, shifted) for `phi op bound` loops with constant step"""
        b = fn.blocks[h]
        out = []
        last = b["ins"][-1]
        d = fn.defs().get(last["x"]) if last["op"] == "if" and isinstance(last["x"], str) else None
        for p in phis:
            if not (isinstance(init[p["n"]], int) or isz(init[p["n"]])) : continue
            if isz(init[p["n"]]) and init[p["n"]].sort() != INT: continue
            step = None; ok = True
            for k, e in enumerate(p["edges"]):
                if b["preds"][k] not in body: continue
                de = fn.defs().get(e) if isinstance(e, str) else None
                if de is None or de["op"] != "binop" or de["bop"] not in ("+", "-") or de["x"] != p["n"] or not isinstance(de["y"], dict) or "i" not in de["y"]: ok = False; break
                s = int(de["y"]["i"]) * (1 if de["bop"] == "+" else -1)
                if step not in (None, s): ok = False; break
                step = s
            if not ok or not step: continue
            bound, op, shift = None, None, 0
            if d is not None and d["op"] == "binop" and d["bop"] in ("<", "<=", ">", ">="):
                x = d["x"]
                if x == p["n"]: bound, op = d["y"], d["bop"]
                else:
                    dx = fn.defs().get(x) if isinstance(x, str) else None
                    if dx and dx["op"] == "binop" and dx["bop"] == "+" and dx["x"] == p["n"] and isinstance(dx["y"], dict) and "i" in dx["y"]: bound, op, shift = d["y"], d["bop"], int(dx["y"]["i"])
            if bound is None:        # the test at the bottom of the loop, on the next value of the counter
                for k, e in enumerate(p["edges"]):
                    if b["preds"][k] not in body: continue
                    lb = fn.blocks[b["preds"][k]]["ins"][-1]
                    dl = fn.defs().get(lb["x"]) if lb["op"] == "if" and isinstance(lb["x"], str) else None
                    if dl is None or dl["op"] != "binop" or dl["bop"] not in ("<", "<=", ">", ">=") or dl["x"] != e or fn.blocks[b["preds"][k]]["succs"][0] != h: bound = None; break
                    bound, op = dl["y"], "r" + dl["bop"]
            out.append((p, step, op, bound, shift))
        return out
    def bound_value(self, fn, l, bound):
        """value of the loop's bound in the state of l: constants, values from before the loop, and pure computations repeated in it"""
        if isinstance(bound, dict): return int(bound["i"])
        inside = {i.get("n") for bk in fn.loops[l.h] for i in fn.blocks[bk]["ins"]}
        def ev(v, depth=0):
            if isinstance(v, dict): return self.val(v, fn, l.env, l.st)
            if v in l.env and v not in inside: return l.env[v]
            d = fn.defs().get(v)
            if d is None or depth > 12 or d["op"] not in ("fieldaddr", "unop", "binop", "convert", "call"): raise Unsupported("bound")
            if d["op"] == "call":
                if not (isinstance(d.get("fn"), dict) and d["fn"].get("name") in ("len", "min", "max")): raise Unsupported("bound")
                return self.builtin(d["fn"]["name"], [ev(a, depth + 1) for a in d["args"]], d, l.st)[0].vals[0]
            env = dict(l.env)
            for k in ("x", "y"):
                if isinstance(d.get(k), str): env[d[k]] = ev(d[k], depth + 1)
            self.quiet += 1
            try: return self.instr(d, fn, env, l.st.copy())
            finally: self.quiet -= 1
        try: r = ev(bound)
        except (Unsupported, KeyError): return None
        return r if isinstance(r, int) or (isz(r) and r.sort() == INT) else None
    def candidates(self, fn, h, lc, phis, init, W, entry, env):
        out = []
        if not lc.auto: return out
        body = fn.loops[h]
        for (p, step, op, bound, shift) in self.counter(fn, h, phis, init, body):
            n = p["n"]
            i0 = init[n]
            if step > 0:
                out.append(("%s >= start" % n, lambda l, n=n, i0=i0: Z(l.env[n]) >= Z(i0)))
            else:
                out.append(("%s <= start" % n, lambda l, n=n, i0=i0: Z(l.env[n]) <= Z(i0)))
            if abs(step) > 1: out.append(("%s congruent to start" % n, lambda l, n=n, i0=i0, s=abs(step): (Z(l.env[n]) - Z(i0)) % s == 0))
            if bound is not None:
                def up(l, n=n, step=step, op=op, bound=bound, shift=shift, i0=i0, slack=0):
                    bv = self.bound_value(fn, l, bound)
                    if bv is None or not (isinstance(bv, int) or isz(bv)): return True
                    x = Z(l.env[n]) + shift; bv = Z(bv)
                    s0 = Z(i0) + shift
                    if op[0] == "r": return {"<": x < bv, "<=": x <= bv, ">": x > bv, ">=": x >= bv}[op[1:]]
                    if op == "<": return z3.Or(x < bv + step, x == s0)
                    if op == "<=": return z3.Or(x < bv + step + 1, x == s0)
                    if op == ">": return z3.Or(x > bv + step, x == s0)
                    return z3.Or(x > bv + step - 1, x == s0)
                out.append(("%s within bound" % n, up))
                def up2(l, n=n, op=op, bound=bound, shift=shift):
                    bv = self.bound_value(fn, l, bound)
                    if bv is None or not (isinstance(bv, int) or isz(bv)): return True
                    x = Z(l.env[n]) + shift; bv = Z(bv)
                    if op[0] == "r": return True
                    return {"<": x <= bv, "<=": x <= bv + 1, ">": x >= bv, ">=": x >= bv - 1}[op]
                out.append(("%s at most bound" % n, up2))
        con = self.cons.get(fn.name)
        if con is not None and con.elem and self.cur_ctx is not None and self.cur_fn is fn:
            out += self.elem_candidates(fn, h, phis, init, W, entry, con, body)
        if lc.cand: out += lc.cand(LoopCtx(self, fn, h, phis, dict(env, **init), entry, entry, init, env))
        return out
    def elem_candidates(self, fn, h, phis, init, W, entry, con, body):
        """the element-wise postcondition holds below the counter, nothing changed from the counter on (or the other way round, downwards)"""
        out = []
        cs = self.counter(fn, h, phis, init, body)
        for (s, f) in con.elem(self.cur_ctx):
            for (p, step, op, bound, shift) in cs:
                n = p["n"]
                def mk(l, s=s, f=f, n=n, step=step, shift=0, lo=True):
                    c = Ctx(self, self.cur_ctx.args, self.cur_ctx.st0, l.st)
                    i = Z(l.env[n]) + (shift if shift else 0)
                    N = c.len(s)
                    pat = lambda k: c.at(s, k)
                    if lo: return forall(0, i, lambda k: z3.Implies(k < Z(N), c.at(s, k) == f(k)), pat)
                    return forall(i + 1, N, lambda k: z3.Implies(k >= 0, c.at(s, k) == f(k)), pat)
                def un(l, s=s, n=n, shift=0, lo=True):
                    c = Ctx(self, self.cur_ctx.args, self.cur_ctx.st0, l.st)
                    i = Z(l.env[n]) + (shift if shift else 0)
                    N = c.len(s)
                    pat = lambda k: c.at(s, k)
                    if lo: return forall(i, N, lambda k: z3.Implies(k >= 0, c.at(s, k) == c.old(s, k)), pat)
                    return forall(0, i + 1, lambda k: z3.Implies(k < Z(N), c.at(s, k) == c.old(s, k)), pat)
                lo = step > 0
                out.append(("result up to %s" % n, lambda l, mk=mk, lo=lo, sh=shift: mk(l, lo=lo, shift=sh)))
                out.append(("untouched from %s" % n, lambda l, un=un, lo=lo, sh=shift: un(l, lo=lo, shift=sh)))
        return out
    def auto_dec(self, fn, h, phis, l, body, init):
        for (p, step, op, bound, shift) in self.counter(fn, h, phis, init, body):
            if bound is None: continue
            bv = self.bound_value(fn, l, bound)
            if bv is None: continue
            x = Z(l.env[p["n"]]) + shift; op = op.lstrip("r")
            if step > 0 and op in ("<", "<="): return num(z3.simplify(z3.If(Z(bv) - x + step >= 0, Z(bv) - x + step, 0)))
            if step < 0 and op in (">", ">="): return num(z3.simplify(z3.If(x - Z(bv) - step >= 0, x - Z(bv) - step, 0)))
        return None

    # ---- calls
    def invoke(self, i, recv, args, st, depth):
        m = i["invoke"]
        if self.is_E(i["recvt"]):
            s = self.stubs.get("E." + m)
            if s is None: raise Unsupported("field method " + m)
            self.used_contracts.add("field " + m)
            return self.norm(s(self, st, [recv] + args, i), st)
        if isinstance(recv, Ref):
            s = self.stubs.get("E." + m)
            if s is not None: return self.norm(s(self, st, [recv] + args, i), st)
        nm = "iface " + self.p.t(i["recvt"])["str"].split("[")[0] + "." + m
        c = self.cons.get(nm)
        if c is not None:
            self.used_contracts.add(nm)
            return self.norm(self.call_contract(c, nm, [recv] + args, i, st, depth), st)
        s = self.stubs.get(nm)
        if s is not None:
            self.used_stubs.add(nm); return self.norm(s(self, st, [recv] + args, i), st)
        if isinstance(recv, IfaceV): return super().invoke(i, recv, args, st, depth)
        raise Unsupported("interface call %s" % nm)
    @staticmethod
    def base(name): return re.sub(r"\[[^\[\]]*(\[[^\[\]]*\])*[^\[\]]*\]", "", name or "")
    def stub_for(self, name): return self.stubs.get(name) or self.stubs.get(self.base(name))
    def contract_for(self, name):
        c = self.cons.get(name)
        if c is None and name: 
            for k in (self.base(name),):
                c = self.cons_base.get(k)
        if c is not None and (c.post is None and c.result is None and c.mods is None): return None       # loops only
        return c
    def set_cons(self, cons):
        self.cons = cons; self.cons_base = {self.base(k): c for k, c in cons.items()}
    def call_unknown(self, f, args, i, st, depth): 
        raise Unsupported("call of unknown function value")
    def call_contract(self, con, nm, args, i, st, depth):
        c0 = Ctx(self, args, st, st, con=con)
        self.check_alias(con, args, st, nm)
        if con.pre:
            for n, g in con.pre(c0): self.prove(st, g, "precondition of %s: %s" % (nm.split(".")[-1], n))
        outs = []
        if con.panics:
            cond = B(con.panics(c0))
            if not self.impossible(st, cond): s3 = st.copy(); s3.pc.append(cond); outs.append(Out("panic", s3, None, "call of %s" % nm.split(".")[-1]))
        s2 = st.copy(); self.call_results = self.result_types(nm)
        if con.mods:
            for m in con.mods(c0): self.havoc_mod(m, st, s2)
        res = con.result(Ctx(self, args, st, s2, con=con)) if con.result else []
        c1 = Ctx(self, args, st, s2, res=res, con=con)
        if con.elem:
            for s, f in con.elem(c1):
                s2.pc.append(B(c1.all(0, c1.len(s), lambda k: c1.at(s, k) == f(k), lambda k: c1.at(s, k))))
        if con.post:
            for n, g in con.post(c1): s2.pc.append(B(g))
        return outs + [Out("ret", s2, list(res))]
    def result_types(self, nm):
        f = self.p.funcs.get(nm) or self.p.funcs.get(self.cons[nm].name if nm in self.cons else nm)
        return f.results if f is not None else []
    def havoc_mod(self, m, st, s2):
        """m: SliceV (all its elements), Ref / big Ptr (the cell), (Ptr, fieldname)"""
        if isinstance(m, SliceV):
            et = self.p.ut(m.t)["elem"]; k = self.kind(et)
            if k not in ("E", "int", "bool", "big"):
                for sh, lk, lt in self.leaves(et):
                    if lk == "opaque": continue
                    self.havoc_arr(m.obj, m.path + (("*", None),) + sh, INT if lt == "len" else self.sort_of(lk), lt, st, s2, m)
                return
            self.havoc_arr(m.obj, m.path + (("*", None),), self.sort_of(k), et, st, s2, m)
        elif isinstance(m, Ref): self.setcontent(m, self.fresh("r", F), s2)
        elif isinstance(m, Ptr): self.setcontent(m, self.fresh("r"), s2)
        elif isinstance(m, tuple):
            p, name = m
            t = self.type_at_p(p, st)
            for n, f in enumerate(self.p.ut(t)["fields"]):
                if f["name"] == name: self.store_place(p.obj, p.path + (n,), self.sym(f["t"], name), f["t"], s2)
        else: raise Unsupported("modifies %r" % (m,))
    def havoc_arr(self, obj, path, sort, lt, st, s2, m):
        obj2, path2 = self.resolve(st, obj, path)
        if s2.ghost.get("pend") and obj2.id in s2.ghost["pend"]: raise Unsupported("call between the two stores of an exchange")
        sh = shape(path2); 
        if (obj2.id, sh) in s2.ghost.get("frozen", ()): raise Unsupported("write to a cell shared by two slots")
        pre = [s for s in path2]
        n = max(i for i, s in enumerate(pre) if isinstance(s, tuple) and s[1] is None)
        outer = idxs(tuple(s for s in pre[:n]))
        base = self.leaf(s2, obj2, sh, sort, lt)
        sub = base
        for i in outer: sub = z3.Select(sub, i)
        new = z3.FreshConst(sub.sort(), "m_" + re.sub(r"[^A-Za-z0-9]", "", obj2.name))
        k = z3.Int("k!%d" % next(_bv))
        if not (isinstance(m.off, int) and m.off == 0 and getattr(m.obj, "whole", False)):
            s2.pc.append(z3.ForAll([k], z3.Implies(z3.Or(k < Z(m.off), k >= Z(m.off) + Z(m.len)), z3.Select(new, k) == z3.Select(sub, k)), patterns=[z3.Select(new, k)]))
        def put(arr, ix):
            if not ix: return new
            return z3.Store(arr, ix[0], put(z3.Select(arr, ix[0]), ix[1:]))
        s2.heap[(obj2.id, sh)] = put(base, outer); self.note_write(obj2, sh)
    def roots(self, v, st):
        """(object, path, off, len) of the memory directly reached by an argument"""
        if isinstance(v, SliceV) and v.obj is not None:
            o, p = self.resolve(st, v.obj, v.path); return (o, p, v.off, v.len)
        if isinstance(v, (Ptr, Ref)):
            o, p = self.resolve(st, v.obj, v.path); return (o, p, None, None)
        return None
    def check_alias(self, con, args, st, nm):
        rs = [(k, r) for k, r in ((k, self.roots(a, st)) for k, a in enumerate(args)) if r is not None]
        groups = set()
        for (a, ra), (b, rb) in itertools.combinations(rs, 2):
            if ra[0] is not rb[0]: continue
            pa, pb = ra[1], rb[1]
            n = min(len(pa), len(pb))
            sep = False
            for x, y in zip(pa[:n], pb[:n]):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if self.quick(st, Z(x[1]) != Z(y[1]), 2000): sep = True; break
                    continue
                if x != y: sep = True; break
            if sep: continue
            if len(pa) == len(pb) and ra[2] is not None and rb[2] is not None:
                if self.quick(st, z3.Or(Z(ra[2]) + Z(ra[3]) <= Z(rb[2]), Z(rb[2]) + Z(rb[3]) <= Z(ra[2])), 2000): continue
            same = len(pa) == len(pb) and all((not isinstance(x, tuple)) or self.quick(st, Z(x[1]) == Z(y[1]), 2000) for x, y in zip(pa, pb)) and (ra[2] is None) == (rb[2] is None)
            if same and ra[2] is not None: same = self.quick(st, band(Z(ra[2]) == Z(rb[2])), 2000)
            if not same: raise Unsupported("overlapping arguments %d and %d of %s" % (a, b, nm))
            groups.add((a, b))
        for (a, b) in groups:
            if not any(a in g and b in g for al in con.alias for g in al): raise Unsupported("arguments %d and %d of %s are the same memory" % (a, b, nm))

    def builtin(self, name, args, i, st):
        if name == "len":
            x = args[0]
            if isinstance(x, SliceV): return [Out("ret", st, [num(x.len)])]
            if x is NIL: return [Out("ret", st, [0])]
            if isinstance(x, StrV): return [Out("ret", st, [len(x.s)])]
            if isinstance(x, OpaqueV): return [Out("ret", st, [self.sym(i["t"], "len")])]
            if isinstance(x, MapV): return [Out("ret", st, [self.sym(i["t"], "maplen")])]
        if name == "cap" and isinstance(args[0], SliceV): return [Out("ret", st, [num(args[0].cap)])]
        if name in ("min", "max"):
            x, y = num(args[0]), num(args[1])
            if isinstance(x, int) and isinstance(y, int): return [Out("ret", st, [min(x, y) if name == "min" else max(x, y)])]
            c = Z(x) <= Z(y) if name == "min" else Z(x) >= Z(y)
            return [Out("ret", st, [z3.If(c, Z(x), Z(y))])]
        if name == "append": return self.append(args, i, st)
        if name == "copy": return self.copy_builtin(args, i, st)
        if name == "clear" and isinstance(args[0], SliceV):
            m = args[0]; s2 = st.copy(); self.havoc_mod(m, st, s2); c = Ctx(self, [], st, s2)
            s2.pc.append(B(c.all(0, m.len, lambda k: c.at(m, k) == 0, lambda k: c.at(m, k))))
            return [Out("ret", s2, [])]
        if name in ("print", "println"): return [Out("ret", st, [])]
        raise Unsupported("builtin " + name)
    def copy_builtin(self, args, i, st):
        d, s = args
        if not isinstance(d, SliceV) or not isinstance(s, SliceV): raise Unsupported("copy")
        if d.obj is None or s.obj is None: return [Out("ret", st, [0])]
        et = self.p.ut(d.t)["elem"]
        if self.kind(et) not in ("int", "bool"): raise Unsupported("copy of references")
        n = num(z3.simplify(z3.If(Z(d.len) <= Z(s.len), Z(d.len), Z(s.len))))
        s2 = st.copy(); dd = SliceV(d.obj, d.path, d.off, n, n, d.t); self.havoc_mod(dd, st, s2); c = Ctx(self, [], st, s2)
        s2.pc.append(B(c.all(0, n, lambda k: c.at(dd, k) == c.at(s, k, old=True), lambda k: c.at(dd, k))))
        return [Out("ret", s2, [n])]
    def append(self, args, i, st):
        s, x = args
        if isinstance(x, OpaqueV): return [Out("ret", st, [self.sym(i["t"], "appended")])]
        if x is NIL or (isinstance(x, SliceV) and x.obj is None): return [Out("ret", st, [s])]
        if not isinstance(x, SliceV): raise Unsupported("append")
        n = s.len if isinstance(s, SliceV) and s.obj is not None else 0
        o = Obj("append", i["t"], "zero", "elems")
        r = SliceV(o, (), 0, num(z3.simplify(Z(n) + Z(x.len))), None, i["t"]); r.cap = r.len
        et = self.p.ut(i["t"])["elem"]
        if not isinstance(x.len, int): return self.append_many(s, n, x, r, o, et, i, st)
        if n != 0 or not isinstance(n, int):
            if s.off != 0: raise Unsupported("append to part of a slice")
            so, sp = self.resolve(st, s.obj, s.path)
            for sh, k, lt in self.leaves(i["t"]):
                if k == "opaque" or sh == ("len",): continue
                sort = INT if lt == "len" else self.sort_of(k)
                st.heap[(o.id, sh)] = self.read_sub(so, sp, sh, sort, lt, st)
            if not sp:
                f = dict(st.ghost.get("fwd", {})); f[so.id] = (o, (), None); st.ghost["fwd"] = f
        for k in range(x.len):
            v = self.load_place(x.obj, x.path + (("*", num(z3.simplify(Z(x.off) + k))),), et, st) if x.obj.meta.get("vals") is None else x.obj.meta["vals"][k]
            self.store_place(o, (("*", num(z3.simplify(Z(n) + k))),), v, et, st)
        return [Out("ret", st, [r])]

    def append_many(self, s, n, x, r, o, et, i, st):
        """append of a slice of any length: the elements of both, which keep sharing what they refer to; what was appended is not to be looked at through its old name after the new one is written"""
        parts = [(s, n, 0)] if not isinstance(n, int) or n != 0 else []
        parts.append((x, x.len, n))
        for p, _, _ in parts:
            if p.off != 0: raise Unsupported("append of part of a slice")
        for sh, k, lt in self.leaves(i["t"]):
            if k == "opaque" or sh == ("len",): continue
            sort = INT if lt == "len" else self.sort_of(k); arrs = []
            for p, m, at in parts: po, pp = self.resolve(st, p.obj, p.path); arrs.append((self.read_sub(po, pp, sh, sort, lt, st), m, at))
            new = z3.FreshConst(arrs[0][0].sort(), "app")
            for a, m, at in arrs:
                k = z3.Int("k!%d" % next(_bv)); t = z3.Select(new, k); st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= Z(at), k < Z(at) + Z(m)), t == z3.Select(a, z3.simplify(k - Z(at)))), patterns=[t]))
                if isinstance(at, int) and at == 0: st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z(m)), z3.Select(a, k) == t), patterns=[z3.Select(a, k)]))
            st.heap[(o.id, sh)] = new
        if len(parts) == 2:
            so, sp = self.resolve(st, s.obj, s.path)
            if not sp: f = dict(st.ghost.get("fwd", {})); f[so.id] = (o, (), None); st.ghost["fwd"] = f
        return [Out("ret", st, [r])]

    # ---- verification of one function
    def verify(self, name):
        """all obligations of one function under its contract; one run per allowed aliasing of its arguments"""
        con = self.cons[name]; fn = self.p.funcs[con.name if con.name in self.p.funcs else name]
        self.obls = []; self.branch_ms = con.branch_ms
        cases = [()] + [c for c in con.alias]
        live = 0
        for al in cases:
            self.ax = []; self._qr = {}; self._mult = {}; self.curfn = fn.short + ("" if not al else " with arguments " + ",".join("=".join(fn.params[k]["n"] for k in g) for g in al) + " the same")
            if con.axioms: self.ax += con.axioms(self)
            self.ax.append(Q > 1)
            st = St(); args = []
            for k, p in enumerate(fn.params):
                g = next((g for g in al if k in g), None)
                if g is not None and min(g) < k: args.append(args[min(g)]); continue
                args.append(self.sym(p["t"], p["n"]))
            binds = [self.sym(p["t"], p["n"]) for p in fn.freevars]
            c0 = Ctx(self, args, st, st, con=con); c0.binds = binds
            if con.setup: con.setup(c0)
            if con.pre:
                for n, g in con.pre(c0): st.pc.append(B(g))
            st0 = st.copy(); self.cur_ctx = Ctx(self, args, st0, st0, con=con); self.cur_ctx.binds = binds; self.cur_fn = fn
            self.line = None
            outs = self.run_fn(fn, args, binds, st)
            if not outs: self.record("some path returns", "failed", "no path of the function returns")
            for o in outs:
                if o.kind == "panic":
                    if con.panics:
                        # panics are allowed only under the stated condition
                        self.prove(o.st, con.panics(Ctx(self, args, st0, o.st, con=con)), "panics only when the inputs are refused (%s)" % o.why)
                    else: self.prove(o.st, False, "no panic (%s)" % o.why)
                    continue
                c1 = Ctx(self, args, st0, o.st, res=o.vals, con=con); c1.binds = binds
                if con.hints:
                    for f in con.hints(c1): o.st.pc.append(B(f))
                if con.elem:
                    for s, f in con.elem(c1): self.prove(o.st, c1.all(0, c1.len(s), lambda k: c1.at(s, k) == f(k), lambda k: c1.at(s, k)), "every element of the result")
                if con.post:
                    for n, g in con.post(c1): self.prove(o.st, g, "postcondition: " + n, assume=False)
                self.check_frame(con, c1, st0, o.st)
                if self.solve(o.st, z3.BoolVal(False), 1500) != "proved": live += 1
        self.record("the hypotheses are consistent on some returning path", "proved" if live else "failed", "every returning path has contradictory hypotheses")
        return self.obls
    def check_frame(self, con, c, st0, st):
        """nothing reachable before the call is changed outside the modifies clause"""
        allowed = set()
        if con.mods:
            for m in con.mods(Ctx(self, c.args, st0, st0, con=con)):
                if isinstance(m, SliceV):
                    o, p = self.resolve(st0, m.obj, m.path)
                    allowed.add((o.id, shape(p) + ("*",)))
                elif isinstance(m, (Ref, Ptr)):
                    o, p = self.resolve(st0, m.obj, m.path); allowed.add((o.id, shape(p)))
                else:
                    p, name = m; t = self.type_at_p(p, st0)
                    for n, f in enumerate(self.p.ut(t)["fields"]):
                        if f["name"] == name: allowed.add((p.obj.id, shape(p.path) + (n,)))
        bad = []
        for (oid, sh), v in st.heap.items():
            if (oid, sh) in st0.heap and st0.heap[(oid, sh)] is v: continue
            if any(oid == a and sh[:len(b)] == b for a, b in allowed): continue
            o = self.objs_of(c, st0).get(oid)
            if o is None: continue
            old = st0.heap.get((oid, sh), o.meta.get(sh, o.meta.get((oid, sh))))
            if old is v: continue
            if isz(old) and isz(v) and old.sort() == v.sort() and self.holds(st, old == v): continue
            if isinstance(old, SliceV) and self.same_ref(old, v): continue
            bad.append("%s %s" % (o, sh))
        if bad: self.record("only what the contract names is modified", "failed", "also written: " + ", ".join(bad))
        else: self.record("only what the contract names is modified", "proved", "")
    def objs_of(self, c, st0):
        """objects reachable from the arguments in the initial state"""
        out = {}
        def walk(v, d=0):
            if isinstance(v, (Ptr, Ref, SliceV, MapV)) and v.obj is not None:
                if v.obj.id in out: return
                out[v.obj.id] = v.obj
                for k, x in list(v.obj.meta.items()): walk(x, d + 1)
            elif isinstance(v, StructV):
                for x in v.f: walk(x)
            elif isinstance(v, ArrV):
                for x in v.e: walk(x)
            elif isinstance(v, IfaceV): walk(v.v)
        for a in list(c.args) + list(getattr(c, "binds", [])): walk(a)
        return out

class LoopCtx:
    """what loop contracts see"""
    def __init__(self, ex, fn, h, phis, env, st, entry, init, outer, head=None):
        self.ex, self.fn, self.h, self.env, self.st, self.entry, self.init, self.outer, self.head = ex, fn, h, env, st, entry, init, outer, head
        self.phinames = {}
        for p in phis: self.phinames.setdefault(p.get("comment"), p["n"])
        self.philist = [p["n"] for p in phis]
        self.c = Ctx(ex, ex.cur_ctx.args if ex.cur_ctx else [], ex.cur_ctx.st0 if ex.cur_ctx else entry, st)
    def v(self, name, k=None):
        """current value of a loop-carried variable, by source name or position; variables fixed in this loop are looked up in the function"""
        if isinstance(name, int): return self.env[self.philist[name]]
        if name in self.phinames: return self.env[self.phinames[name]]
        best = None
        for b in self.fn.blocks:
            for i in b["ins"]:
                if i["op"] == "phi" and i.get("comment") == name and i["n"] in self.env: best = self.env[i["n"]]
        if best is not None: return best
        raise Unsupported("loop variable %s not found" % name)
    def idx(self, level=0):
        """iterations completed by this loop's counter, or (level 1, 2, ...) by that of an enclosing loop"""
        self.fn.analyse(); hs = [h for h in self.fn.loops if self.h in self.fn.loops[h]]; hs.sort(key=lambda h: len(self.fn.loops[h])); h = hs[level]
        ps = [i for i in self.fn.blocks[h]["ins"] if i["op"] == "phi"]
        for p in ps:
            if (p.get("comment") or "").startswith("range"): break
        else: p = next((p for p in ps if p.get("comment") in ("i", "j", "k")), ps[0])
        x = num(self.env[p["n"]]); return z3.simplify(Z(x) + 1) if p.get("comment") == "rangeindex" else Z(x)
    def acc(self, level=0):
        """the field element this loop (or an enclosing one) accumulates into: the only cell whose new value is computed from the one before; a loop without one passes on that of its inner loop"""
        self.fn.analyse(); hs = [h for h in self.fn.loops if self.h in self.fn.loops[h]]; hs.sort(key=lambda h: len(self.fn.loops[h])); h = hs[level]
        own = self.ex.loop_accs.get((self.fn.name, h), [])
        if not own:
            inner = sorted([h2 for h2 in self.fn.loops if h2 != h and h2 in self.fn.loops[h]], key=lambda h2: -len(self.fn.loops[h2]))
            own = next((x for x in (self.ex.loop_accs.get((self.fn.name, h2)) for h2 in inner) if x), [])
        if len(own) == 1: return Ref(own[0], ())
        if self.ex.quiet: return self.ex.new_cell(self.st)
        raise Unsupported("accumulator of the loop: %d candidates" % len(own))
    def g(self, name): return self.env["$" + name]
    def call(self, name, n=0):
        """result of the n-th call of that function or method, in block order"""
        for b in self.fn.blocks:
            for i in b["ins"]:
                if i["op"] == "call" and i.get("n") in self.env:
                    c = i.get("invoke") or i.get("origin") or i.get("static") or ""
                    if c.split(".")[-1] == name:
                        if n == 0: return self.env[i["n"]]
                        n -= 1
        raise Unsupported("no call of %s" % name)
    def arg(self, k): return self.env[self.fn.params[k]["n"]]
    def at(self, s, k): return self.c.at(s, k)
    def at0(self, s, k): return self.ex.elem_val(s, k, self.entry)
    def old(self, s, k): return self.c.old(s, k)
    def len(self, s): return self.c.len(s)
    def val(self, r): return self.ex.content(r, self.st)
