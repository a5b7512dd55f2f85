"""Machine-word domain: every uint64 is an exact polynomial over integer unknowns (input words, carries, high words of products);
products of unknowns are opaque monomials. Order facts go to linear rational arithmetic (z3), congruences are decided on the normal form."""
import itertools, time, z3
from core import *

B = 1 << 64
BIG = 1 << 100000       # stands for "no bound" on math/big values
class LP:
    __slots__ = ("m",)
    def __init__(self, m): self.m = m
    @staticmethod
    def c(k): return LP({(): k} if k else {})
    @staticmethod
    def v(i): return LP({(i,): 1})
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def __add__(s, o):
        if isinstance(o, int): o = LP.c(o)
        if len(o.m) > len(s.m): s, o = o, s
        r = dict(s.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n: r[k] = n
            else: r.pop(k, None)
        return LP(r)
    __radd__ = __add__
    def __neg__(s): return LP({k: -v for k, v in s.m.items()})
    def __sub__(s, o):
        if isinstance(o, int): o = LP.c(o)
        return s + (-o)
    def __rsub__(s, o): return (-s) + o
    def __mul__(s, o):
        if isinstance(o, int):
            return LP({k: v * o for k, v in s.m.items()}) if o else LP({})
        r = {}
        for a, x in s.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b)); n = r.get(k, 0) + x * y
                if n: r[k] = n
                else: r.pop(k, None)
        return LP(r)
    __rmul__ = __mul__
    def key(self): return frozenset(self.m.items())
    def vars(self): return {x for k in self.m for x in k}
    def deg(self): return max((len(k) for k in self.m), default=0)
    def __repr__(self):
        return " + ".join("%s*%s" % (v if abs(v) < 1 << 20 else hex(v), ".".join(map(str, k))) for k, v in sorted(self.m.items())) or "0"

class Cond:
    """linear condition: lp >= 0 ('ge') or lp == 0 ('eq') or lp != 0 ('ne')"""
    __slots__ = ("k", "lp")
    def __init__(self, k, lp): self.k, self.lp = k, lp
    def neg(self):
        if self.k == "ge": return Cond("ge", -self.lp - 1)
        return Cond("ne" if self.k == "eq" else "eq", self.lp)

class OrW:
    """bitwise or of words / xor pairs, only ever compared with zero"""
    __slots__ = ("parts",)
    def __init__(self, parts): self.parts = parts
class XorW:
    __slots__ = ("a", "b")
    def __init__(self, a, b): self.a, self.b = a, b

class LState:
    __slots__ = ("bounds", "cons", "subst", "shifts", "facts", "sol", "nsol", "monos", "cuts", "defs", "base", "lets", "nlet", "letord", "pfacts", "cong")
    def __init__(self):
        self.bounds = {}; self.cons = []; self.subst = {}; self.shifts = {}; self.facts = []; self.sol = None; self.nsol = 0; self.monos = set(); self.cuts = ()
        self.defs = {}; self.base = []; self.lets = {}; self.letord = []; self.nlet = 0; self.pfacts = []; self.cong = {}
    def copy(self):
        s = LState(); s.bounds = dict(self.bounds); s.cons = list(self.cons); s.subst = dict(self.subst); s.shifts = dict(self.shifts)
        s.facts = list(self.facts); s.monos = set(); s.cuts = self.cuts; s.defs = dict(self.defs); s.base = self.base; s.lets = dict(self.lets); s.letord = list(self.letord); s.nlet = 0; s.pfacts = list(self.pfacts); s.cong = dict(self.cong)
        return s

STAT = dict(lra=0, lra_t=0.0, interval=0)
class Names:
    n = itertools.count(); names = {}
def newvar(name):
    i = next(Names.n); Names.names[i] = name; return i
_zv = {}
def zmono(k):
    r = _zv.get(k)
    if r is None:
        r = z3.Real("m_" + "_".join(map(str, k))); _zv[k] = r
    return r
def zlp(lp):
    ts = [(z3.RealVal(v) * zmono(k)) if k else z3.RealVal(v) for k, v in lp.m.items()]
    if not ts: return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]

def fresh(st, name, lo, hi):
    i = newvar(name); st.dom.bounds[i] = (lo, hi); return LP.v(i)

def norm(st, lp):
    S = st.dom.subst
    if not S: return lp
    while True:
        hit = [x for x in lp.vars() if x in S]
        if not hit: return lp
        for x in hit:
            r = LP({})
            for k, c in lp.m.items():
                if x in k:
                    t = LP.c(c)
                    for y in k: t = t * (S[y] if y == x else LP.v(y))
                    r = r + t
                else: r = r + LP({k: c})
            lp = r

def mono_bounds(st, k):
    lo = hi = 1
    for x in k:
        a, b = st.dom.bounds[x]
        c = [lo * a, lo * b, hi * a, hi * b]; lo, hi = min(c), max(c)
    return lo, hi
def interval(st, lp):
    lo = hi = 0
    if any(st.dom.bounds[x][0] > st.dom.bounds[x][1] for k in lp.m for x in k): return (0, -1)
    for k, c in lp.m.items():
        a, b = mono_bounds(st, k)
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
    return lo, hi

def add_ge(st, lp):
    lp = norm(st, lp)
    if lp.const() is not None and lp.const() >= 0: return
    st.dom.cons.append(lp)
    ks = [k for k in lp.m if k]
    if len(ks) == 1 and len(ks[0]) == 1:
        x = ks[0][0]; c = lp.m[ks[0]]; k = lp.m.get((), 0); lo, hi = st.dom.bounds[x]
        if c > 0: lo = max(lo, -(k // c))
        else: hi = min(hi, k // -c)
        st.dom.bounds[x] = (lo, hi)
        if lo > hi: st.dom.cuts = "dead"
        elif lo == hi and x not in st.dom.subst:
            st.dom.subst[x] = LP.c(lo); st.dom.sol = None
            if x in st.dom.lets:
                d = st.dom.lets[x] - lo; st.dom.cons += [d, -d]
def add_range(st, lp, lo, hi):
    add_ge(st, lp - lo); add_ge(st, hi - lp)

def sync(st):
    D = st.dom
    if D.sol is None:
        D.sol = z3.SolverFor("QF_LRA"); D.sol.set("timeout", 20000); D.nsol = 0; D.nlet = 0; D.monos = set()
    s = D.sol
    def mono(k):
        if k in D.monos or not k: return
        D.monos.add(k)
        lo, hi = mono_bounds(st, k); z = zmono(k)
        if lo > -BIG // 2: s.add(z >= lo)
        if hi < BIG // 2: s.add(z <= hi)
        if len(k) == 2:
            a, b = k
            for x, y in ((a, b), (b, a)):
                mono((x,)); ylo, yhi = D.bounds[y]
                s.add(z <= z3.RealVal(yhi) * zmono((x,)))
                if D.bounds[x][0] >= 0: s.add(z >= z3.RealVal(ylo) * zmono((x,)))
            for f in D.facts:
                fv = f.vars()
                for x, y in ((a, b), (b, a)):
                    if y in fv and ("f", id(f), x) not in D.monos:
                        D.monos.add(("f", id(f), x))
                        lo, hi = D.bounds[x]
                        g = f * (LP.v(x) - lo)
                        for kk in g.m: mono(kk)
                        s.add(zlp(g) >= 0)
                        g = f * (hi - LP.v(x))
                        for kk in g.m: mono(kk)
                        s.add(zlp(g) >= 0)
    while D.nlet < len(D.letord):
        w = D.letord[D.nlet]; D.nlet += 1
        lp = norm(st, D.lets[w])
        for k in lp.m: mono(k)
        mono((w,)); s.add(zmono((w,)) == zlp(lp))
    while D.nsol < len(D.cons):
        lp = norm(st, D.cons[D.nsol]); D.nsol += 1
        for k in lp.m: mono(k)
        s.add(zlp(lp) >= 0)
    return s, mono

def eliminate(st, lp, depth=0):
    """show lp < 0 by adding non-negative multiples of the defining word ranges and of path facts, newest unknown first;
    the result is an upper bound over input monomials (or True as soon as plain interval bounds suffice)"""
    from math import gcd
    D = st.dom; lp = norm(st, lp)
    for step in range(20000):
        if interval(st, lp)[1] < 0: return True
        if len(lp.m) > 3000: return None
        vs = [x for k in lp.m for x in k if x in D.lets or (x in D.defs and len(k) == 1)]
        if depth < 3:
            for f in D.pfacts:
                f = norm(st, f)
                tops = [(abs(c), k[0]) for k, c in f.m.items() if len(k) == 1]
                if not tops or f.deg() > 1: continue
                cf, y = max(tops); c = lp.m.get((y,), 0)
                if c * f.m[(y,)] < 0 and (not vs or y >= max(vs) or all(x <= y or x in f.vars() for x in vs)):
                    r = lp * cf + f * abs(c)
                    e = eliminate(st, r, depth + 1)
                    if e is True or (e is not None and base_unsat(st, e)): return True
        if not vs: return lp
        v = max(vs)
        if v in D.lets: lp = norm(st, subst1(lp, v, D.lets[v])); continue
        c = lp.m[(v,)]
        s, lo, hi = D.defs[v]; s = norm(st, s); a = s.m.get((v,), 0)
        if a == 0 or any(v in k for k in lp.m if len(k) > 1): return None
        if c * a < 0: f, t, u = s - lo, abs(c), abs(a)
        else: f, t, u = hi - s, abs(c), abs(a)
        g = gcd(t, u); t //= g; u //= g
        lp = lp * u + f * t
    return None

def infeasible(st, lps, full=False):
    """is (all lp >= 0 for lp in lps) contradictory with the state?"""
    if st.dom.cuts == "dead": return True
    lps = [norm(st, l) for l in lps]
    for l in lps:
        lo, hi = interval(st, l)
        if hi < 0: STAT["interval"] += 1; return True
    t = time.time()
    for l in lps:
        if not any(x in st.dom.defs or x in st.dom.lets for x in l.vars()):
            continue
        e = eliminate(st, l)
        if e is None: continue
        if e is True: STAT["interval"] += 1; return True
        if base_unsat(st, e): STAT["elim"] = STAT.get("elim", 0) + 1; return True
    STAT["elim_t"] = STAT.get("elim_t", 0) + time.time() - t
    if not full: return False
    s, mono = sync(st)
    for l in lps:
        for k in l.m: mono(k)
    t = time.time(); s.push()
    for l in lps: s.add(zlp(l) >= 0)
    r = s.check(); s.pop()
    STAT["lra"] += 1; STAT["lra_t"] += time.time() - t
    return r == z3.unsat

def greedy(st, e):
    """e < 0 by adding non-negative multiples x*F and F of the value bounds F >= 0, top word first"""
    D = st.dom
    for deg in (2, 1):
        for f in D.facts:
            tops = [(abs(c), k) for k, c in f.m.items() if len(k) == 1]
            if not tops: continue
            cf, (y,) = max(tops)
            if f.m[(y,)] >= 0: continue
            if deg == 2:
                xs = [y] + sorted({x for k in e.m if len(k) == 2 and y in k for x in k if x != y}, reverse=True)
                for x in xs:
                    k = tuple(sorted((x, y))); c = e.m.get(k, 0)
                    if c > 0 and D.bounds[x][0] >= 0: e = e * cf + f * LP.v(x) * c
            else:
                c = e.m.get((y,), 0)
                if c > 0: e = e * cf + f * c
    return interval(st, e)[1] < 0

def base_unsat(st, e):
    """e >= 0 against the input hypotheses (and their products with input ranges) only"""
    if greedy(st, e): return True
    D = st.dom; s = z3.SolverFor("QF_LRA"); s.set("timeout", 20000); seen = set()
    def mono(k):
        if k in seen or not k: return
        seen.add(k); lo, hi = mono_bounds(st, k); z = zmono(k)
        if lo > -BIG // 2: s.add(z >= lo)
        if hi < BIG // 2: s.add(z <= hi)
        if len(k) == 2:
            a, b = k
            for x, y in ((a, b), (b, a)):
                mono((x,)); s.add(z <= z3.RealVal(D.bounds[y][1]) * zmono((x,)))
                for f in D.facts:
                    if y in f.vars() and ("f", id(f), x) not in seen:
                        seen.add(("f", id(f), x))
                        for g in (f * LP.v(x), f * (D.bounds[x][1] - LP.v(x))):
                            for kk in g.m: mono(kk)
                            s.add(zlp(g) >= 0)
    for k in e.m: mono(k)
    for f in list(D.facts):
        for k in f.m: mono(k)
        s.add(zlp(f) >= 0)
    s.add(zlp(e) >= 0)
    return s.check() == z3.unsat

def prove_ge(st, lp, full=False): return infeasible(st, [-lp - 1], full)

def set_zero(st, lp):
    """record lp == 0, eliminating a unit variable when there is one"""
    lp = norm(st, lp)
    if not lp.m: return True
    if lp.const() is not None: return False
    cand = [k for k, c in lp.m.items() if len(k) == 1 and c in (1, -1) and sum(1 for kk in lp.m if k[0] in kk) == 1]
    if cand:
        k = max(cand); c = lp.m[k]; x = k[0]
        lo, hi = st.dom.bounds[x]
        rhs = (LP.v(x) * c - lp) * c
        a, b = interval(st, rhs)
        if (a < lo or b > hi) and len(rhs.m) > 1 and hi - lo < (1 << 70):
            # keep the range of x: name the wide part
            sm = LP({k: v for k, v in rhs.m.items() if len(k) == 1 and abs(v) == 1 and st.dom.bounds[k[0]][0] >= 0 and st.dom.bounds[k[0]][1] <= 1})
            E = rhs - sm
            if len(E.m) > 1 or (E.m and next(iter(E.m.values())) != 1):
                sl, sh = interval(st, sm); g = newvar("g")
                st.dom.bounds[g] = (max(lo - sh, interval(st, E)[0]), min(hi - sl, interval(st, E)[1])); st.dom.lets[g] = E; st.dom.letord.append(g)
                rhs = LP.v(g) + sm
        st.dom.subst[x] = rhs
        st.dom.sol = None
        if x in st.dom.lets:
            d = rhs - st.dom.lets[x]; add_ge(st, d); add_ge(st, -d)
        add_range(st, rhs, lo, hi)
    else:
        add_ge(st, lp); add_ge(st, -lp)
    return True

def word(st, lp, bits=64):
    """lp is known to be a machine word: name it; a word all of whose coefficients are multiples of 2^64 is zero"""
    lp = norm(st, lp); W = 1 << bits
    if lp.const() is not None: return lp
    if len(lp.m) == 1 and next(iter(lp.m.values())) == 1 and len(next(iter(lp.m))) == 1:
        return lp
    e = lp
    for _ in range(6):
        if all(c % W == 0 for c in e.m.values()):
            set_zero(st, LP({k: c // W for k, c in e.m.items()}))
            return LP({})
        ls = [x for k in e.m for x in k if x in st.dom.lets and e.m[k] % W]
        if not ls: break
        x = max(ls); e = subst1(e, x, st.dom.lets[x]); e = norm(st, e)
        if len(e.m) > 12: break
    w = newvar("w"); lo, hi = interval(st, lp)
    st.dom.bounds[w] = (max(lo, 0), min(hi, W - 1)); st.dom.lets[w] = lp; st.dom.letord.append(w)
    return LP.v(w)

def subst1(lp, x, rhs):
    r = LP({})
    add = {}
    for k, c in lp.m.items():
        if x in k:
            t = LP.c(c)
            for y in k: t = t * (rhs if y == x else LP.v(y))
            for kk, cc in t.m.items(): add[kk] = add.get(kk, 0) + cc
        else: add[k] = add.get(k, 0) + c
    return LP({k: c for k, c in add.items() if c})

def expand(st, lp):
    lp = norm(st, lp)
    while True:
        ls = [x for k in lp.m for x in k if x in st.dom.lets]
        if not ls: return lp
        x = max(ls); lp = norm(st, subst1(lp, x, st.dom.lets[x]))

def settle(st, v, full=False):
    """try to show that the 0/1 unknown v (an LP) is constant"""
    v = norm(st, v)
    if v.const() is not None: return v
    if infeasible(st, [v - 1], full): set_zero(st, v); return LP({})
    if infeasible(st, [-v], full):
        set_zero(st, v - 1); return LP.c(1)
    return v

def carry_of(st, total, name, settle_now):
    """split total in [0, 2*2^64) into word + carry*2^64"""
    lo, hi = interval(st, total)
    if hi < B and lo >= 0: return total, LP({})
    c = fresh(st, name, 0, max(1, hi >> 64)) if hi >= 2 * B else fresh(st, name, 0, 1)
    D0 = total - c * B; st.dom.defs[next(iter(c.vars()))] = (D0, 0, B - 1)
    s = word(st, D0)
    if settle_now: settle(st, c); s = norm(st, s); c = norm(st, c)
    return s, norm(st, c)

def settle_all(st, lp, mod):
    """reduce lp modulo mod, settling leftover small unknowns"""
    while True:
        lp = expand(st, lp)
        while True:      # unknowns known only modulo the prime
            xs = [x for k in lp.m for x in k if x in st.dom.cong]
            if not xs: break
            x = max(xs); lp = expand(st, subst1(lp, x, st.dom.cong[x]))
            lp = LP({k: c % mod for k, c in lp.m.items() if c % mod})
        r = LP({k: c % mod for k, c in lp.m.items() if c % mod})
        if not r.m: return r
        ch = False
        for k in sorted(r.m, reverse=True):
            if len(k) == 1 and st.dom.bounds[k[0]] == (0, 1):
                v = settle(st, LP.v(k[0]), True)
                if v.const() is not None: ch = True; break
        if not ch: return r

class LimbExec(Exec):
    def __init__(self, prog):
        super().__init__(prog)
        self.stubs.update({"math/bits.Add64": self.s_add64, "math/bits.Sub64": self.s_sub64, "math/bits.Mul64": self.s_mul64})
        self.gvals = {}
    def new_state(self):
        s = St(); s.dom = LState(); return s
    def int_const(self, k, t): return LP.c(k)
    def concrete(self, v, st):
        if isinstance(v, int) and not isinstance(v, bool): return v
        if isinstance(v, LP): return norm(st, v).const()
        return None
    # memory: fully concrete paths
    def new_obj(self, name, et, init, st):
        o = Obj(name, et, init); return o
    def flat(self, path, st):
        r = []
        for x in path:
            if isinstance(x, tuple):
                c = self.concrete(x[1], st)
                if c is None: raise Unsupported("symbolic index")
                r.append(c)
            else: r.append(x)
        return tuple(r)
    def leaf_type(self, o, path):
        t = o.t
        for x in path:
            u = self.p.ut(t)
            if u["k"] == "struct": t = u["fields"][x]["t"]
            elif u["k"] == "array": t = u["elem"]
            elif isinstance(x, tuple): t = self.p.ut(o.t)["elem"] if u["k"] == "slice" else t
            else: raise Unsupported("path")
        return t
    def load(self, p, t, st):
        if isinstance(p, WinPtr):
            n = self.p.ut(t)["len"]
            return ArrV([self.load(Ptr(p.obj, p.path + (("*", p.base + LP.c(k)),)), self.p.ut(t)["elem"], st) for k in range(n)])
        if not isinstance(p, Ptr): raise Unsupported("load through %r" % (p,))
        path = self.flat(p.path, st); u = self.p.ut(t)
        if u["k"] == "array":
            return ArrV([self.load(Ptr(p.obj, path + (k,)), u["elem"], st) for k in range(u["len"])])
        if self.is_big(t):
            key = (p.obj, path)
            if key not in st.heap: st.heap[key] = LP({}) if p.obj.init == "zero" else self.symbolic_leaf(p.obj, path, t, st)
            return self.nv(st.heap[key], st)
        if u["k"] == "struct":
            return StructV([self.load(Ptr(p.obj, path + (k,)), f["t"], st) for k, f in enumerate(u["fields"])])
        key = (p.obj, path)
        if key in st.heap: return self.nv(st.heap[key], st)
        if p.obj.init == "zero": return self.zero(t, st)
        v = self.symbolic_leaf(p.obj, path, t, st); st.heap[key] = v
        return v
    def is_big(self, t):
        d = self.p.t(t); return d["k"] == "named" and d.get("pkg") == "math/big" and d["name"] == "Int"
    def leaf_zero(self, t, st): return LP({}) if self.is_big(t) else None
    def nv(self, v, st): return norm(st, v) if isinstance(v, LP) else v
    def symbolic_leaf(self, o, path, t, st):
        if o.kind == "global":
            k = (o.name, path)
            g = self.global_value(o, path, t)
            if g is not None: return g
        u = self.p.ut(t)
        if u["k"] == "basic" and u["name"] in ("uint64", "uint"): return fresh(st, "%s%s" % (o.name, path), 0, B - 1)
        if u["k"] == "basic" and u["name"] in ("uint8", "byte"): return fresh(st, "%s%s" % (o.name, path), 0, 255)
        if self.is_big(t): return fresh(st, o.name, -BIG, BIG)
        if u["k"] == "iface": return OpaqueV(o.name)
        raise Unsupported("symbolic leaf of type " + u.get("name", u["k"]) + " in " + o.name)
    def global_value(self, o, path, t): return None
    def store(self, p, v, t, st):
        if isinstance(p, WinPtr):
            u = self.p.ut(t)
            for k in range(u["len"]): self.store(Ptr(p.obj, p.path + (("*", p.base + LP.c(k)),)), v.e[k], u["elem"], st)
            return
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % (p,))
        path = self.flat(p.path, st); u = self.p.ut(t)
        if p.obj.kind == "global": raise Unsupported("store to global")
        if u["k"] == "array":
            for k in range(u["len"]): self.store(Ptr(p.obj, path + (k,)), v.e[k], u["elem"], st)
            return
        if self.is_big(t):
            st.heap[(p.obj, path)] = v; return
        if u["k"] == "struct":
            for k, f in enumerate(u["fields"]): self.store(Ptr(p.obj, path + (k,)), v.f[k], f["t"], st)
            return
        st.heap[(p.obj, path)] = v
    def indexaddr(self, x, i, ins, st):
        k = self.concrete(i, st)
        if k is None: raise Unsupported("symbolic index")
        if isinstance(x, WinPtr):
            if not 0 <= k < x.n: raise Unsupported("index out of range")
            return Ptr(x.obj, x.path + (("*", x.base + LP.c(k)),))
        if isinstance(x, Ptr):
            n = self.p.ut(self.p.ut(ins["xt"])["elem"])["len"]
            if not 0 <= k < n: raise Unsupported("index out of range")
            return Ptr(x.obj, x.path + (k,))
        if isinstance(x, SliceV):
            n = self.concrete(x.len, st)
            if n is not None and not 0 <= k < n: raise Unsupported("index out of range")
            return Ptr(x.obj, x.path + (("*", x.off + LP.c(k)),))
        raise Unsupported("indexaddr")
    def do_slice(self, x, lo, hi, mx, ins, st):
        lo = LP.c(0) if lo is None else lo
        if isinstance(x, Ptr):      # pointer to array
            et = self.p.ut(self.p.ut(ins["xt"])["elem"]); n = LP.c(et["len"])
            hi = n if hi is None else hi
            return SliceV(x.obj, x.path, lo, hi - lo, n - lo, None)
        if isinstance(x, WinPtr):
            n = LP.c(x.n); hi = n if hi is None else hi
            return SliceV(x.obj, x.path, x.base + lo, hi - lo, n - lo, None)
        if isinstance(x, SliceV):
            hi = x.len if hi is None else hi
            return SliceV(x.obj, x.path, x.off + lo, hi - lo, x.cap - lo, x.t)
        raise Unsupported("slice")
    def makeslice(self, n, c, ins, st):
        return SliceV(Obj("make", ins["t"], "zero"), (), LP.c(0), n, c, ins["t"])
    # ---- arithmetic
    def width(self, t):
        n = self.p.ut(t)["name"]
        return {"uint64": 64, "uint": 64, "uintptr": 64, "uint32": 32, "uint16": 16, "uint8": 8, "byte": 8}.get(n)
    def binop(self, op, x, y, t, xt, yt, st, ins):
        if isinstance(x, bool) and isinstance(y, bool):
            if op == "==": return x == y
            if op == "!=": return x != y
        if isinstance(x, (OrW, XorW)) or isinstance(y, (OrW, XorW)):
            if op == "|": return OrW(self.parts(x) + self.parts(y))
            if op in ("==", "!="):
                z, o = (y, x) if isinstance(x, (OrW, XorW)) else (x, y)
                if self.concrete(z, st) == 0: return ("zero", self.parts(o), op == "==")
            raise Unsupported("bit operation")
        if not (isinstance(x, LP) and isinstance(y, LP)):
            if op in ("==", "!=") and (x is NIL or y is NIL):
                e = (x is NIL) and (y is NIL)
                return e if op == "==" else not e
            raise Unsupported("binop %s on %r,%r" % (op, x, y))
        x = norm(st, x); y = norm(st, y)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            d = {"==": ("eq", x - y), "!=": ("ne", x - y), "<": ("ge", y - x - 1), "<=": ("ge", y - x), ">": ("ge", x - y - 1), ">=": ("ge", x - y)}[op]
            c = d[1].const()
            if c is not None: return (c == 0) if d[0] == "eq" else (c != 0) if d[0] == "ne" else c >= 0
            return Cond(*d)
        w = self.width(t)
        cx, cy = x.const(), y.const()
        if w is None:     # signed: concrete only
            if cx is not None and cy is not None: return LP.c(self.signed(op, cx, cy))
            if op in ("+", "-"):
                s = x + y if op == "+" else x - y; lo, hi = interval(st, s); H = B // 2
                if -H <= lo and hi < H: return s
                res = []
                for k in (-1, 0, 1):
                    s2 = st.copy(); r = s - k * B
                    if infeasible(s2, [r + H]) or infeasible(s2, [H - 1 - r]): continue
                    add_range(s2, r, -H, H - 1); res.append((r, s2))
                return res
            if op == ">>" and cy == 63:
                res = []
                for neg in (False, True):
                    l = -x - 1 if neg else x
                    if infeasible(st, [l]): continue
                    s2 = st.copy(); add_ge(s2, l); res.append((LP.c(-1 if neg else 0), s2))
                return res
            if op == "^" and cy in (0, -1): return x if cy == 0 else -x - 1
            if op == "^" and cx in (0, -1): return y if cx == 0 else -y - 1
            raise Unsupported("symbolic signed arithmetic " + op)
        W = 1 << w
        if op == "+":
            s = x + y; lo, hi = interval(st, s)
            if hi < W: return s
            k = fresh(st, "wrap", 0, max(1, hi >> w)); r = word(st, s - k * W, w); settle(st, k); return norm(st, r)
        if op == "-":
            s = x - y; lo, hi = interval(st, s)
            if lo >= 0: return s
            k = fresh(st, "wrap", 0, 1); r = word(st, s + k * W, w); settle(st, k); return norm(st, r)
        if op == "*":
            if cx is not None and cy is not None: return LP.c(cx * cy % W)
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                if cy == W - 1:
                    b = fresh(st, "nz", 0, 1); st.dom.defs[next(iter(b.vars()))] = (b * W - x, 0, W - 1); return word(st, b * W - x, w)
                lo, hi = interval(st, x * cy)
                if hi < W: return x * cy
                k = fresh(st, "mulhi", 0, hi >> w); st.dom.defs[next(iter(k.vars()))] = (x * cy - k * W, 0, W - 1); return word(st, x * cy - k * W, w)
            p = x * y; lo, hi = interval(st, p)
            if hi < W: return p
            k = fresh(st, "mulhi", 0, W - 1); st.dom.defs[next(iter(k.vars()))] = (p - k * W, 0, W - 1); return word(st, p - k * W, w)
        if op == ">>":
            if cy is None: raise Unsupported("symbolic shift")
            if cx is not None: return LP.c(cx >> cy)
            return self.shr(st, x, cy, w)
        if op == "<<":
            if cy is None: raise Unsupported("symbolic shift")
            if cx is not None: return LP.c((cx << cy) % W)
            h = self.shr(st, x, w - cy, w)
            return (x - h * (1 << (w - cy))) * (1 << cy)
        if op == "&":
            if cx is not None and cy is not None: return LP.c(cx & cy)
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy is not None and (cy & (cy + 1)) == 0:
                k = cy.bit_length()
                if k >= w: return x
                return x - self.shr(st, x, k, w) * (1 << k)
            if cy is not None:
                lo_ = (cy & -cy).bit_length() - 1; m_ = cy >> lo_
                if (m_ & (m_ + 1)) == 0:
                    a = lo_ + m_.bit_length()
                    return (self.shr(st, x, lo_, w) - (self.shr(st, x, a, w) * (1 << (a - lo_)) if a < w else LP({}))) * (1 << lo_)
            raise Unsupported("mask")
        if op == "|":
            if cx == 0: return y
            if cy == 0: return x
            for a, b in ((x, y), (y, x)):
                g = min(((c & -c).bit_length() - 1 for c in a.m.values()), default=w)
                if g > 0 and (interval(st, b)[1] < (1 << g) or prove_ge(st, (1 << g) - 1 - b)): return a + b
            return OrW([x, y])
        if op == "^":
            if cx is not None and cy is not None: return LP.c(cx ^ cy)
            if cx == 0: return y
            if cy == 0: return x
            return XorW(x, y)
        raise Unsupported("binop " + op)
    def parts(self, x):
        if isinstance(x, OrW): return x.parts
        return [x]
    def signed(self, op, a, b):
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "<<": return a << b
        if op == ">>": return a >> b
        if op == "/": return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        if op == "%": return abs(a) % abs(b) * (1 if a >= 0 else -1)
        if op == "&": return a & b
        if op == "|": return a | b
        if op == "^": return a ^ b
        raise Unsupported("signed " + op)
    def shr(self, st, x, k, w):
        if k == 0: return x
        if k >= w: return LP({})
        x = norm(st, x); key = (x.key(), k, w)
        e = x
        for _ in range(4):      # exact quotient when the low part is visible
            hi_ = LP({m: c >> k for m, c in e.m.items() if c % (1 << k) == 0}); lo_ = LP({m: c for m, c in e.m.items() if c % (1 << k)})
            a, b = interval(st, lo_)
            if 0 <= a and b < (1 << k): return norm(st, hi_)
            ls = [v for m in lo_.m for v in m if v in st.dom.lets]
            if not ls or len(e.m) > 40: break
            e = norm(st, subst1(e, max(ls), st.dom.lets[max(ls)]))
        h = st.dom.shifts.get(key)
        if h is None:
            lo, hi = interval(st, x)
            if hi < (1 << k): return LP({})
            h = fresh(st, "shr%d" % k, 0, ((1 << w) - 1) >> k)
            l = x - h * (1 << k)
            add_range(st, l, 0, (1 << k) - 1); st.dom.defs[next(iter(h.vars()))] = (l, 0, (1 << k) - 1)
            st.dom.shifts[key] = h
        return norm(st, h)
    def unop(self, u, x, t, st, ins):
        if u == "!":
            if isinstance(x, bool): return not x
            if isinstance(x, Cond): return x.neg()
            if isinstance(x, tuple) and x[0] == "zero": return ("zero", x[1], not x[2])
        if u == "-":
            w = self.width(t); c = self.concrete(x, st)
            if c is not None: return LP.c(-c % (1 << w)) if w else LP.c(-c)
        if u == "^":
            w = self.width(t); c = self.concrete(x, st)
            if c is not None: return LP.c((-1 - c) % (1 << w)) if w else LP.c(-1 - c)
        raise Unsupported("unop " + u)
    def convert(self, x, a, b, st, ins):
        ua, ub = self.p.ut(a), self.p.ut(b)
        if isinstance(x, LP):
            c = x.const(); wb = self.width(b) if ub["k"] == "basic" else None; wa = self.width(a)
            if c is not None:
                if wb: return LP.c(c % (1 << wb))
                n = ub.get("name")
                if n in ("int", "int64"):
                    c %= B; return LP.c(c - B if c >= B // 2 else c)
            if wa and wb:
                if wb >= wa: return x
                return x - self.shr(st, x, wb, wa) * (1 << wb)
            if wb == 64 and wa is None and ua["name"] in ("int", "int64"):
                res = []
                for neg in (False, True):
                    l = -x - 1 if neg else x
                    if infeasible(st, [l]): continue
                    s2 = st.copy(); add_ge(s2, l); res.append((x + B if neg else x, s2))
                return res
        if ub["k"] == "basic" and ub["name"] == "Pointer" and isinstance(x, (Ptr, WinPtr)): return RawPtr(x)
        if isinstance(x, RawPtr) and ub["k"] == "ptr":
            et = self.p.ut(ub["elem"]); q = x.p
            if et["k"] == "array" and isinstance(q, Ptr) and q.path and isinstance(q.path[-1], tuple):
                return WinPtr(q.obj, q.path[:-1], q.path[-1][1], et["len"], None)
            return q
        raise Unsupported("conversion %s -> %s" % (ua, ub))
    # ---- forks
    def fork(self, st, c):
        if isinstance(c, bool): return [(c, st)]
        if isinstance(c, tuple) and c[0] == "zero":
            _, parts, pol = c
            ds = [norm(st, (p.a - p.b) if isinstance(p, XorW) else p) for p in parts]
            ds.sort(key=lambda d: -max(d.vars(), default=0))
            res = []; s1 = st.copy(); ok = True
            for d in ds:      # most significant difference first: earlier parts equal, this one different
                d = norm(s1, d)
                for l in (d - 1, -d - 1):
                    if infeasible(s1, [l]): continue
                    s2 = s1.copy(); add_ge(s2, l); res.append((not pol, s2))
                if not set_zero(s1, d): ok = False; break
            if ok and not infeasible(s1, []): res.append((pol, s1))
            return res
        if isinstance(c, Cond):
            res = []
            for truth in (True, False):
                k = c if truth else c.neg()
                lp = norm(st, k.lp)
                if k.k == "ge":
                    if infeasible(st, [lp]): continue
                    s = st.copy(); add_ge(s, lp); res.append((truth, s))
                elif k.k == "eq":
                    if infeasible(st, [lp, -lp]): continue
                    s = st.copy()
                    if set_zero(s, lp) and not infeasible(s, []): res.append((truth, s))
                else:
                    for l in (lp - 1, -lp - 1):
                        if infeasible(st, [l]): continue
                        s = st.copy(); add_ge(s, l)
                        if lp.const() is None and norm(s, l).const() is None and infeasible(s, [l - 1]):
                            if not set_zero(s, l): continue
                        res.append((truth, s))
            return res
        raise Unsupported("fork on %r" % (c,))
    # ---- stubs
    def s_add64(self, ex, st, a, i):
        x, y, c = [norm(st, v) for v in a]
        dead = self.dead_extract(i)
        s, co = carry_of(st, x + y + c, "c", dead[1])
        return (s, co)
    def s_sub64(self, ex, st, a, i):
        x, y, c = [norm(st, v) for v in a]
        t = x - y - c; lo, hi = interval(st, t)
        if lo >= 0: return (t, LP({}))
        b = fresh(st, "b", 0, 1)
        st.dom.defs[next(iter(b.vars()))] = (t + b * B, 0, B - 1)
        s = word(st, t + b * B)
        if self.dead_extract(i)[1]: settle(st, b)
        return (norm(st, s), norm(st, b))
    def s_mul64(self, ex, st, a, i):
        x, y = [norm(st, v) for v in a]
        p = x * y
        c = p.const()
        if c is not None: return (LP.c(c >> 64), LP.c(c % B))
        lo, hi = interval(st, p)
        if hi < B: return (LP({}), p)
        cx, cy = x.const(), y.const()
        if cx == 1 or cy == 1: return (LP({}), p)
        m = min(hi >> 64, B - 2)
        if cx is not None or cy is not None: m = min(m, (cx if cx is not None else cy) - 1)
        h = fresh(st, "h", 0, m)
        st.dom.defs[next(iter(h.vars()))] = (p - h * B, 0, B - 1)
        return (h, word(st, p - h * B))
    def dead_extract(self, i):
        """which results of a two-result call are never used"""
        used = self._uses(i)
        return (0 not in used, 1 not in used)
    def _uses(self, i):
        k = id(i)
        if not hasattr(self, "_ucache"): self._ucache = {}
        return self._ucache.get(k, {0, 1})
    def prep(self, fn):
        """records, for every call instruction of fn, which tuple components are used"""
        if not hasattr(self, "_ucache"): self._ucache = {}
        ref = {}
        for b in fn.blocks:
            for i in b["ins"]:
                if i["op"] == "extract" and not i.get("dead"): ref.setdefault(i["x"], set()).add(i["idx"])
        for b in fn.blocks:
            for i in b["ins"]:
                if i["op"] == "call": self._ucache[id(i)] = ref.get(i["n"], set()) if self.p.t(i["t"])["k"] == "tuple" else {0, 1}
    def run_fn(self, fn, args, binds, st, depth=0):
        if not getattr(fn, "_prepped", False) and fn.name not in self._pp():
            self._pp().add(fn.name); self.prep(fn)
        return super().run_fn(fn, args, binds, st, depth)
    def _pp(self):
        if not hasattr(self, "_pps"): self._pps = set()
        return self._pps
    def builtin(self, name, args, i, st):
        if name == "len" and isinstance(args[0], SliceV): return [Out("ret", st, [args[0].len])]
        if name == "copy":
            d, s = args
            n = min(self.concrete(d.len, st), self.concrete(s.len, st)); et = None
            vs = [self.nv(st.heap.get((s.obj, self.flat(s.path + (("*", s.off + k),), st))), st) for k in range(n)]
            if any(v is None for v in vs):
                for k in range(n):
                    if vs[k] is None:
                        pth = self.flat(s.path + (("*", s.off + k),), st)
                        t = self.p.ut(s.obj.t)["elem"]; vs[k] = self.load(Ptr(s.obj, pth), t, st)
            for k in range(n): st.heap[(d.obj, self.flat(d.path + (("*", d.off + k),), st))] = vs[k]
            return [Out("ret", st, [LP.c(n)])]
        if name == "len" and isinstance(args[0], ArrV): return [Out("ret", st, [LP.c(len(args[0].e))])]
        raise Unsupported("builtin " + name)
