"""Contracts of the generated field packages (type Uint [n]uint64 in Montgomery form) and their verification.

Every contract speaks about V(z) = sum z[i]*2^(64 i), the number held by the words of z, with the data invariant V(z) < q,
and about R = 2^(64 n).  The field element denoted by z is V(z)*R^-1 mod q.  Postconditions are congruences mod q together with
the data invariant, or exact equations where the function promises exact words or bytes."""
import time
from limb import *
from core import *

MODULI = {
    "buckler/internal/zp110": 0x2020436a1e4e12ff610000000001,
    "buckler/internal/zp220": 0x839879d7ea29db1fea6efd80ae402afd94100000000000000000001,
    "buckler/internal/zp440": 0x896d2a11b85c7bc7eaa3522b5fc931ebaaf1ffab338655edd3f3ce63b2c73eaf6bd4904a1496b0a8976f01000000000000000000000001,
    "buckler/internal/zp880": 0xadb1a158082ce7292e2d54b5f11f6f03072c436c277678ef6ece3e84751efd2246f2d3c79fcb5275fcec066fdcfef25a72052730b746933929f1a4492f989ef73e5a0f130e1cef350ab4c97631edaf1f19f10016f19c12a267be26b56b765f38ca6ee20750010000000000000001,
    "jindo/internal/zp": 0x430d45996b62afc2d65643d9e6fb65558e9630dc8c3732810000000000000001,
    "examples/mult/zp": 0x82bd02add980d88e6706e10000000001,
    "examples/bfv/zp": 0x83853bab35deae9e6a84b1aa615063fb9e6895b744b58381000000000001,
}
MOD = "github.com/sp301415/ringo-snark/"

class SOr:
    """bitwise or of signed words, used only through an arithmetic shift by 63"""
    __slots__ = ("parts",)
    def __init__(self, parts): self.parts = parts

class Canon:
    pass

class FieldExec(LimbExec):
    def __init__(self, prog, path):
        super().__init__(prog)
        self.path = path; self.pkg = MOD + path; self.q = MODULI[path]
        self.uint = [i for i, t in enumerate(prog.types) if t["k"] == "named" and t.get("pkg") == self.pkg and t["name"] == "Uint"][0]
        self.n = prog.ut(self.uint)["len"]; self.R = 1 << (64 * self.n)
        self.Ri = pow(self.R, -1, self.q)
        self.glob = None
        S = self.stubs
        for e in ("bigEndian", "littleEndian"):
            be = e == "bigEndian"
            S["(encoding/binary.%s).Uint64" % e] = lambda ex, st, a, i, be=be: self.s_getu64(st, a, be)
            S["(encoding/binary.%s).PutUint64" % e] = lambda ex, st, a, i, be=be: self.s_putu64(st, a, be)
        for r in ("(*%s)", "(%s)"): S[r % "github.com/consensys/gnark-crypto/field/pool.bigIntPool" + ".Get"] = self.s_poolget
        for r in ("(*%s)", "(%s)"): S[r % "github.com/consensys/gnark-crypto/field/pool.bigIntPool" + ".Put"] = self.s_poolput
        S["(*math/big.Int).Cmp"] = self.s_bcmp; S["(*math/big.Int).Mod"] = self.s_bmod; S["(*math/big.Int).Bits"] = self.s_bbits
        S["(*math/big.Int).SetBytes"] = self.s_bsetbytes; S["(*math/big.Int).Set"] = self.s_bset; S["(*math/big.Int).Sign"] = self.s_bsign
        S["(*math/big.Int).Neg"] = lambda ex, st, a, i: self.bput(st, a[0], -self.bget(st, a[1]))
        S["(*math/big.Int).Add"] = lambda ex, st, a, i: self.bput(st, a[0], self.bget(st, a[1]) + self.bget(st, a[2]))
        S["(*math/big.Int).Sub"] = lambda ex, st, a, i: self.bput(st, a[0], self.bget(st, a[1]) - self.bget(st, a[2]))
        S["(*math/big.Int).SetUint64"] = lambda ex, st, a, i: self.bput(st, a[0], a[1])
        S["(*math/big.Int).SetInt64"] = lambda ex, st, a, i: self.bput(st, a[0], a[1])
        S["math/big.NewInt"] = lambda ex, st, a, i: self.bput(st, Ptr(self.new_obj("big", None, "zero", st)), a[0])
        S["errors.New"] = lambda ex, st, a, i: OpaqueV("error")
        S["fmt.Errorf"] = lambda ex, st, a, i: OpaqueV("error")
        S["math/bits.Len64"] = self.s_len64
        S["math/bits.TrailingZeros64"] = lambda ex, st, a, i: fresh(st, "tz", 0, 64)
        self.mc = {}
        self.build_contracts()

    # ---- names
    def m(self, name): return "(*%s.Uint).%s" % (self.pkg, name)
    def f(self, name): return "%s.%s" % (self.pkg, name)
    # ---- values of elements
    def words(self, st, p):
        path = self.flat(p.path, st) if isinstance(p, Ptr) else None
        if isinstance(p, WinPtr): return [norm(st, self.load(Ptr(p.obj, p.path + (("*", p.base + LP.c(k)),)), self.u64(), st)) for k in range(self.n)]
        return [norm(st, self.load(Ptr(p.obj, path + (k,)), self.u64(), st)) for k in range(self.n)]
    def u64(self): return self.p.ut(self.uint)["elem"]
    def V(self, st, p):
        r = LP({})
        for k, w in enumerate(self.words(st, p)): r = r + w * (1 << (64 * k))
        return r
    def put_words(self, st, p, ws):
        for k in range(self.n):
            if isinstance(p, WinPtr): self.store(Ptr(p.obj, p.path + (("*", p.base + LP.c(k)),)), ws[k], self.u64(), st)
            else: self.store(Ptr(p.obj, tuple(p.path) + (k,)), ws[k], self.u64(), st)
    def assume_red(self, st, V):
        f = norm(st, self.q - 1 - V)
        if f.const() is not None: return
        add_ge(st, f); st.dom.facts.append(f)
    def prove_red(self, st, V): return prove_ge(st, self.q - 1 - V) or prove_ge(st, self.q - 1 - V, True)
    def fresh_elem(self, st, name, expr):
        """words of the reduced element congruent to expr (mod q); the same (expr) gives the same words"""
        expr = self.modq(st, expr); key = expr.key()
        can = st.ghost.get("canon", {})
        if key in can: return can[key]
        c = expr.const()
        if c is not None:
            c %= self.q; ws = [LP.c(c >> (64 * k) & (B - 1)) for k in range(self.n)]
        else:
            ws = [fresh(st, "%s%d" % (name, k), 0, B - 1) for k in range(self.n)]
            Z = LP({})
            for k, w in enumerate(ws): Z = Z + w * (1 << (64 * k))
            self.assume_red(st, Z)
            st.dom.cong[next(iter(ws[0].vars()))] = expr - (Z - ws[0])
        can = dict(can); can[key] = ws; st.ghost["canon"] = can
        return ws
    def modq(self, st, e):
        e = expand(st, e)
        while True:
            xs = [x for k in e.m for x in k if x in st.dom.cong]
            if not xs: break
            x = max(xs); e = expand(st, subst1(e, x, st.dom.cong[x]))
        return LP({k: c % self.q for k, c in e.m.items() if c % self.q})
    def global_value(self, o, path, t):
        if o.name.startswith("G:" + self.pkg + "."):
            nm = o.name.split("#")[0][len("G:" + self.pkg + "."):]
            if nm == "_modulus": return LP.c(self.q)
            g = self.init_globals()
            if (nm, path) in g: return LP.c(g[(nm, path)])
        return None
    def init_globals(self):
        """constants stored by the package initialiser"""
        if self.glob is None:
            self.glob = {}; mem = {}; vals = {}
            def place(D, a):
                path = ()
                while isinstance(a, str):
                    d = D[a]
                    if d["op"] == "indexaddr" and isinstance(d["i"], dict): path = (int(d["i"]["i"]),) + path; a = d["x"]
                    elif d["op"] == "fieldaddr": path = (d["field"],) + path; a = d["x"]
                    elif d["op"] == "alloc": return ("local", a), path
                    else: return None, None
                if isinstance(a, dict) and a.get("c") == "global": return ("global", a["name"]), path
                return None, None
            for f in [g for nm, g in self.p.funcs.items() if nm == self.f("init") or nm.startswith(self.f("init#"))]:
                D = f.defs(); vals = {}
                for b in f.blocks:
                    for i in b["ins"]:
                        if i["op"] == "unop" and i["uop"] == "*":
                            r, path = place(D, i["x"])
                            if r: vals[i["n"]] = {p[len(path):]: v for (rr, p), v in mem.items() if rr == r and p[:len(path)] == path}
                        if i["op"] == "store":
                            r, path = place(D, i["addr"]); x = i["x"]
                            if not r: continue
                            if isinstance(x, dict) and x.get("c") == "const" and "i" in x: mem[(r, path)] = int(x["i"])
                            elif isinstance(x, str) and x in vals:
                                for p, v in vals[x].items(): mem[(r, path + p)] = v
            for (r, p), v in mem.items():
                if r[0] == "global": self.glob[(r[1].split(".")[-1], p)] = v
        return self.glob

    # ---- library stubs (trusted)
    def s_getu64(self, st, a, be):
        s = a[-1]; r = LP({})
        self.need_len(st, s, 8)
        for k in range(8):
            r = r + self.load(Ptr(s.obj, s.path + (("*", s.off + LP.c(k)),)), self.byte_t(s), st) * (1 << (8 * (7 - k if be else k)))
        return norm(st, r)
    def s_putu64(self, st, a, be):
        s, v = a[-2], a[-1]; self.need_len(st, s, 8)
        c = self.concrete(v, st)
        bs = [LP.c(c >> (8 * k) & 255) for k in range(8)] if c is not None else [fresh(st, "byte", 0, 255) for _ in range(8)]
        if c is None:
            t = LP({})
            for k in range(7, -1, -1): t = t + bs[k] * (1 << (8 * k))
            # newest variable is bs[7]; define the lowest byte through the word so that sums fold back exactly
            d = norm(st, v) - t
            st.dom.subst[next(iter(bs[0].vars()))] = norm(st, v) - (t - bs[0])
        for k in range(8):
            st.heap[(s.obj, self.flat(s.path + (("*", s.off + LP.c(7 - k if be else k)),), st))] = bs[k]
        return None
    def need_len(self, st, s, n):
        c = self.concrete(s.len, st)
        if c is None or c < n: raise Unsupported("slice shorter than %d" % n)
    def byte_t(self, s):
        for i, t in enumerate(self.p.types):
            if t["k"] == "basic" and t["name"] in ("uint8", "byte"): return i
    def bget(self, st, p): return norm(st, self.load(p, self.bigt(), st))
    def bput(self, st, p, v):
        if p.obj.kind == "global": raise Unsupported("store to global")
        st.heap[(p.obj, tuple(p.path))] = v; return p
    def bigt(self):
        for i, t in enumerate(self.p.types):
            if t["k"] == "named" and t.get("pkg") == "math/big" and t["name"] == "Int": return i
    def s_poolget(self, ex, st, a, i):
        o = self.new_obj("pooled", self.bigt(), "sym", st); o.meta["pooled"] = True
        st.heap[(o, ())] = fresh(st, "pool", -BIG, BIG)
        return Ptr(o)
    def s_poolput(self, ex, st, a, i):
        st.heap[(a[-1].obj, ())] = fresh(st, "released", -BIG, BIG); return None
    def s_bcmp(self, ex, st, a, i):
        x, y = self.bget(st, a[0]), self.bget(st, a[1]); res = []
        for r, ls in ((-1, [y - x - 1]), (0, None), (1, [x - y - 1])):
            if ls is None:
                if infeasible(st, [x - y]) or infeasible(st, [y - x]): continue
                s = st.copy()
                if not set_zero(s, x - y): continue
            else:
                if infeasible(st, ls): continue
                s = st.copy(); add_ge(s, ls[0])
            res.append(Out("ret", s, [LP.c(r)]))
        return res
    def s_bsign(self, ex, st, a, i):
        x = self.bget(st, a[0]); res = []
        for r, l in ((-1, -x - 1), (1, x - 1)):
            if infeasible(st, [l]): continue
            s = st.copy(); add_ge(s, l); res.append(Out("ret", s, [LP.c(r)]))
        if not (infeasible(st, [x]) or infeasible(st, [-x])):
            s = st.copy()
            if set_zero(s, x): res.append(Out("ret", s, [LP.c(0)]))
        return res
    def s_bmod(self, ex, st, a, i):
        x, m = self.bget(st, a[1]), self.bget(st, a[2]).const()
        if m != self.q: raise Unsupported("Mod by something other than the modulus")
        lo, hi = interval(st, x)
        if lo >= 0 and hi < m: return self.bput(st, a[0], x)
        v = fresh(st, "mod", 0, m - 1); st.dom.cong[next(iter(v.vars()))] = x
        return self.bput(st, a[0], v)
    def s_bset(self, ex, st, a, i): return self.bput(st, a[0], self.bget(st, a[1]))
    def s_bbits(self, ex, st, a, i):
        v = self.bget(st, a[0]); lo, hi = interval(st, v)
        if lo < 0: raise Unsupported("Bits of a possibly negative number")
        if hi >= BIG // 2: raise Unsupported("Bits of an unbounded number")
        res = []
        for k in range((hi.bit_length() + 63) // 64 + 1):
            l = [v - (1 << (64 * (k - 1)))] if k else [v]
            u = [(1 << (64 * k)) - 1 - v]
            if infeasible(st, l) or infeasible(st, u): continue
            s = st.copy()
            for c in l + u: add_ge(s, c)
            o = self.new_obj("bits", None, "zero", s); ws = []
            r = norm(s, v)
            for j in range(k):
                w = fresh(s, "bit%d" % j, 1 if j == k - 1 else 0, B - 1); ws.append(w)
            t = LP({})
            for j in range(k): t = t + ws[j] * (1 << (64 * j))
            if k == 0:
                if not set_zero(s, r): continue
            else:
                # define the unbounded unknown through its words
                xs = r.vars()
                if len(r.m) == 1 and r.deg() == 1 and next(iter(r.m.values())) == 1:
                    x = next(iter(xs)); s.dom.subst[x] = t; s.dom.sol = None
                    b = s.dom.bounds[x]; add_range(s, t, *b)
                    if b[1] == self.q - 1: s.dom.facts.append(self.q - 1 - t)
                    if x in s.dom.cong:
                        w0 = next(iter(ws[0].vars())); s.dom.cong[w0] = s.dom.cong[x] - (t - ws[0])
                else:
                    w0 = next(iter(ws[0].vars())); s.dom.subst[w0] = r - (t - ws[0])
            for j in range(k): s.heap[(o, (j,))] = ws[j]
            res.append(Out("ret", s, [SliceV(o, (), LP.c(0), LP.c(k), LP.c(k))]))
        return res
    def s_bsetbytes(self, ex, st, a, i):
        s = a[1]; n = self.concrete(s.len, st)
        if n is None: return self.bput(st, a[0], self.symbytes(st, s))
        r = LP({})
        for k in range(n): r = r + self.load(Ptr(s.obj, s.path + (("*", s.off + LP.c(k)),)), self.byte_t(s), st) * (1 << (8 * (n - 1 - k)))
        return self.bput(st, a[0], norm(st, r))
    def symbytes(self, st, s):
        """the big-endian number held by a byte slice of unknown length"""
        k = ("be", s.obj, self.concrete(s.off, st))
        if k not in st.ghost: st.ghost[k] = fresh(st, "BE(%s)" % s.obj.name, 0, BIG)
        return st.ghost[k]
    def s_len64(self, ex, st, a, i):
        x = norm(st, a[0]); c = x.const()
        if c is not None: return LP.c(c.bit_length())
        return fresh(st, "len", 0, 64)

    # ---- extra operations
    def binop(self, op, x, y, t, xt, yt, st, ins):
        if isinstance(x, XorW) and isinstance(y, LP) or isinstance(y, XorW) and isinstance(x, LP):
            w, c = (x, y) if isinstance(x, XorW) else (y, x)
            k = self.concrete(c, st)
            if op == "&" and k == 0: return LP.c(0)
            if op == "&" and k == B - 1: return w
            if op == "^":
                for a, b in ((w.a, w.b), (w.b, w.a)):
                    if not norm(st, a - c).m: return b
                if k == 0: return w
        if isinstance(x, LP) and isinstance(y, LP) and op == "^" and not norm(st, x - y).m: return LP.c(0)
        if self.width(t) is None and self.p.ut(t)["k"] == "basic" and self.p.ut(t)["name"] in ("int", "int64"):
            if op == "|" and (isinstance(x, (LP, SOr)) and isinstance(y, (LP, SOr))) and not (self.concrete(x, st) is not None and self.concrete(y, st) is not None):
                return SOr([p for z in (x, y) for p in (z.parts if isinstance(z, SOr) else [z])])
            if op == ">>" and isinstance(x, SOr) and self.concrete(y, st) == 63:
                res, cur = [], [st]
                for p in x.parts:
                    nxt = []
                    for s in cur:
                        p2 = norm(s, p)
                        if not infeasible(s, [-p2 - 1]):
                            s2 = s.copy(); add_ge(s2, -p2 - 1); res.append((LP.c(-1), s2))
                        if not infeasible(s, [p2]):
                            s2 = s.copy(); add_ge(s2, p2); nxt.append(s2)
                    cur = nxt
                return res + [(LP.c(0), s) for s in cur]
        return super().binop(op, x, y, t, xt, yt, st, ins)
    def prove_ge(self, st, a, b, what):
        if not prove_ge(st, a - b, True): raise Unsupported(what)
    def convert(self, x, a, b, st, ins):
        ua, ub = self.p.ut(a), self.p.ut(b)
        if isinstance(x, (LP, SOr)) and ua.get("name") in ("int", "int64") and ub.get("name") in ("int", "int64"): return x
        return super().convert(x, a, b, st, ins)
    def unop(self, u, x, t, st, ins):
        if u == "-" and self.width(t) is None and isinstance(x, LP) and x.const() is None:
            return self.binop("-", LP.c(0), x, t, t, t, st, ins)
        return super().unop(u, x, t, st, ins)

    # ---- contracts
    def build_contracts(self):
        q, R, Ri, C = self.q, self.R, self.Ri, self.mc
        def op(names, params, outs, **kw):
            for nm in names: C[nm] = dict(name=nm, params=params, outs=outs, **kw)
        m, f = self.m, self.f
        half = pow(2, -1, q)
        zxy = ["W", "E", "E"]
        op([m("Add")], zxy, {0: lambda v: v[1] + v[2]}, ret=0)
        op([m("Double")], ["W", "E"], {0: lambda v: v[1] * 2}, ret=0)
        op([m("Sub")], zxy, {0: lambda v: v[1] - v[2]}, ret=0)
        op([m("Neg")], ["W", "E"], {0: lambda v: -v[1]}, ret=0)
        op([m("Halve")], ["E"], {0: lambda v: v[0] * half}, ret=None)
        for k in (3, 5, 13): op([f("MulBy%d" % k)], ["E"], {0: lambda v, k=k: v[0] * k}, ret=None)
        op([f("Butterfly"), f("_butterflyGeneric")], ["E", "E"], {0: lambda v: v[0] + v[1], 1: lambda v: v[0] - v[1]}, ret=None, noalias=True)
        op([m("Mul"), f("_mulGeneric"), f("mul")], zxy, {0: lambda v: v[1] * v[2] * Ri}, ret=0)
        for g in ("_mulGeneric", "mul"): C[f(g)]["ret"] = None
        op([m("Square")], ["W", "E"], {0: lambda v: v[1] * v[1] * Ri}, ret=0)
        op([m("fromMont"), f("fromMont"), f("_fromMontGeneric")], ["E"], {0: lambda v: v[0] * Ri}, ret=0)
        for g in ("fromMont", "_fromMontGeneric"): C[f(g)]["ret"] = None
        op([f("reduce"), f("_reduceGeneric")], ["R"], {0: lambda v: v[0]}, ret=None)
        op([m("toMont")], ["E"], {0: lambda v: v[0] * R}, ret=0)
        op([m("Set")], ["W", "W"], {0: lambda v: v[1]}, ret=0, exact=True)
        op([m("SetZero")], ["W"], {0: lambda v: LP.c(0)}, ret=0)
        op([m("SetOne")], ["W"], {0: lambda v: LP.c(R % q)}, ret=0)
        op([m("SetUint64")], ["W", "u64"], {0: lambda v: v[1] * R}, ret=0)
        op([m("SetInt64")], ["W", "i64"], {0: lambda v: v[1] * R}, ret=0)
        op([f("NewUint")], ["u64"], {"ret": lambda v: v[0] * R}, ret="val")
        op([f("One")], [], {"ret": lambda v: LP.c(R % q)}, ret="val")
        op([m("Bits")], ["E"], {"ret": lambda v: v[0] * Ri}, ret="val")
        op([m("Select")], ["W", "i64", "E", "E"], {0: "select"}, ret=0, special="select")
        op([m("SetBigInt")], ["W", "big"], {0: lambda v: v[1] * R}, ret=0)
        op([m("setBigInt")], ["W", "bigred"], {0: lambda v: v[1] * R}, ret=0, zero0=True)
        op([m("smallerThanModulus")], ["W"], {}, special="smaller")
        # predicates: (true case lps >= 0, false case lps >= 0 alternatives)
        op([m("IsZero")], ["E"], {}, pred=lambda v: ("eq", v[0]))
        op([m("IsOne")], ["E"], {}, pred=lambda v: ("eq", v[0] - R % q))
        op([m("Equal")], ["E", "E"], {}, pred=lambda v: ("eq", v[0] - v[1]))
        op([m("NotEqual")], ["E", "E"], {}, special="noteq")
        op([m("FitsOnOneWord")], ["W"], {}, pred=lambda v: ("ge", LP.c(B - 1) - v[0]))
        op([m("IsUint64")], ["E"], {}, special="isu64")
        op([m("Uint64")], ["E"], {}, special="u64")
        op([m("LexicographicallyLargest")], ["E"], {}, special="lex")
        op([m("Cmp")], ["E", "E"], {}, special="cmp")
        op([m("toBigInt")], ["W", "bigout"], {1: lambda v: v[0]}, special="tobig", ret=1)
        op([m("BigInt")], ["E", "bigout"], {1: None}, special="bigint", ret=1)
        op(["(%s.Uint).ToBigIntRegular" % self.pkg], ["Eval", "bigout"], {1: None}, special="bigint", ret=1)
        op([m("Limb")], ["W"], {}, special="limb")
        op([m("New")], ["W"], {}, special="new")
        op([m("Slice")], ["E", "sliceout"], {}, special="slice")
        for e, be in (("bigEndian", True), ("littleEndian", False)):
            op(["(%s.%s).PutElement" % (self.pkg, e)], ["recv", "bytesout", "Eval"], {}, special="put", be=be)
            op(["(%s.%s).Element" % (self.pkg, e)], ["recv", "bytesin"], {}, special="get", be=be)
        op([m("Bytes")], ["E"], {}, special="bytes")
        op([m("Marshal")], ["E"], {}, special="marshal")
        op([m("SetBytes")], ["W", "anybytes"], {0: None}, special="setbytes", ret=0)
        op([m("Unmarshal")], ["W", "anybytes"], {0: None}, special="setbytes", ret=None)
        op([m("SetBytesCanonical")], ["W", "anybytes"], {0: None}, special="setcanon")
        op([m("montReduceSigned")], ["W", "W", "u64"], {0: None}, special="mrs")
        # which contracts callers may rely on (the others are executed in place)
        self.callable = {m(x) for x in ("Add", "Double", "Sub", "Neg", "Mul", "Square", "fromMont", "toMont", "SetZero", "SetOne", "SetUint64", "Bits", "SetBigInt", "setBigInt", "smallerThanModulus", "Halve", "montReduceSigned", "Set")}
        self.callable |= {f(x) for x in ("mul", "fromMont", "_fromMontGeneric", "reduce", "_mulGeneric", "MulBy3", "MulBy5", "MulBy13", "Butterfly", "_butterflyGeneric", "One", "NewUint")}
    def contract_for(self, name):
        if name in self.callable and name != self.verifying: return self.mc[name]
        return None
    verifying = None

    def call_contract(self, c, nm, args, i, st, depth):
        """caller side: check preconditions, then replace the call by its postcondition"""
        if c.get("special") == "smaller": return self.app_smaller(st, args[0])
        vals = []
        for k, a in zip(c["params"], args):
            if k in ("E", "W", "R"):
                v = self.V(st, a)
                if k == "E" and not self.prove_red(st, v): raise Unsupported("precondition: argument of %s not shown to be reduced" % nm.split(".")[-1])
                if k == "R" and not prove_ge(st, 2 * self.q - 1 - v, True): raise Unsupported("precondition: argument of %s not below 2q" % nm)
                vals.append(v)
            elif k in ("big", "bigred"):
                v = self.bget(st, a)
                if k == "bigred" and not (prove_ge(st, v) and prove_ge(st, self.q - 1 - v, True)): raise Unsupported("precondition: argument of %s not in [0,q)" % nm)
                vals.append(v)
            else: vals.append(norm(st, a))
        if c.get("zero0") and vals[0].const() != 0: raise Unsupported("precondition: receiver of %s not zero" % nm)
        if c.get("special") == "mrs":
            ws = [fresh(st, "mrs%d" % k, 0, B - 1) for k in range(self.n)]
            Z = LP({})
            for k, w in enumerate(ws): Z = Z + w * (1 << (64 * k))
            self.assume_red(st, Z); self.put_words(st, args[0], ws); return None
        if c.get("noalias") and self.same(args[0], args[1], st): raise Unsupported("aliased arguments of " + nm)
        res = []
        new = {}
        for o, e in c["outs"].items():
            if c.get("exact"): new[o] = self.words(st, args[1])
            else: new[o] = self.fresh_elem(st, "r", e(vals))
        for o, ws in new.items():
            if o == "ret": return ArrV(ws)
            self.put_words(st, args[o], ws)
        if c.get("ret") is None: return None
        return args[c["ret"]]
    def same(self, a, b, st): return a.obj is b.obj and self.flat(a.path, st) == self.flat(b.path, st)
    def app_smaller(self, st, p):
        v = self.V(st, p); res = []
        for tr, l in ((True, self.q - 1 - v), (False, v - self.q)):
            if infeasible(st, [l]): continue
            s = st.copy(); add_ge(s, l); s.dom.pfacts.append(norm(s, l)); res.append(Out("ret", s, [tr]))
        return res

    # ---- verification of one function
    def partitions(self, c):
        idx = [k for k, t in enumerate(c["params"]) if t in ("E", "W", "R")]
        if c.get("noalias"): return [{k: k for k in idx}]
        def parts(xs):
            if not xs: yield {}; return
            for rest in parts(xs[:-1]):
                x = xs[-1]; r = dict(rest); r[x] = x; yield r
                for h in sorted(set(rest.values())):
                    r = dict(rest); r[x] = h; yield r
        return list(parts(idx))

    def verify(self, nm):
        """list of (obligation, status, detail)"""
        c = self.mc[nm]; fn = self.p.funcs.get(nm); res = []
        short = nm.split(".")[-1]
        if fn is None or not fn.blocks: return None
        self.verifying = nm; self.curfn = nm
        for part in self.partitions(c):
            lab = short + ("" if len(set(part.values())) == len(part) else "[alias %s]" % ",".join("%d=%d" % (a, b) for a, b in part.items() if a != b))
            t = time.time()
            try: self.verify_one(fn, c, part, lab, res)
            except Unsupported as e: res.append((lab, "undecided", str(e)))
            except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
                import traceback
                res.append((lab, "undecided", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:-1])))
        self.verifying = None
        return res

    def verify_one(self, fn, c, part, lab, res):
        q, R, Ri = self.q, self.R, self.Ri
        st = self.new_state(); args, vals, pre = [], [], []
        sp = c.get("special")
        objs = {}
        for k, kind in enumerate(c["params"]):
            nm = fn.params[k]["n"]
            if kind in ("E", "W", "R"):
                h = part[k]
                if h not in objs:
                    objs[h] = Obj(nm, self.uint, "sym")
                args.append(Ptr(objs[h])); v = self.V(st, args[-1])
                kinds = [c["params"][j] for j in part if part[j] == h]
                if h == k:
                    if "E" in kinds: self.assume_red(st, v)
                    elif "R" in kinds: add_ge(st, 2 * q - 1 - v)
                vals.append(v)
            elif kind == "Eval":
                ws = [fresh(st, "e%d" % j, 0, B - 1) for j in range(self.n)]; v = LP({})
                for j, w in enumerate(ws): v = v + w * (1 << (64 * j))
                self.assume_red(st, v); args.append(ArrV(ws)); vals.append(v)
            elif kind == "u64": v = fresh(st, nm, 0, B - 1); args.append(v); vals.append(v)
            elif kind == "i64": v = fresh(st, nm, -B // 2, B // 2 - 1); args.append(v); vals.append(v)
            elif kind in ("big", "bigred", "bigout"):
                o = Obj(nm, self.bigt(), "sym"); lo, hi = (0, q - 1) if kind == "bigred" else (-BIG, BIG)
                v = fresh(st, nm, lo, hi); st.heap[(o, ())] = v; args.append(Ptr(o)); vals.append(v)
            elif kind == "recv": args.append(StructV([])); vals.append(None)
            elif kind in ("bytesin", "bytesout"):
                o = Obj(nm, self.p.ut(fn.params[k]["t"])["elem"], "sym"); args.append(Ptr(o)); vals.append(None)
                pre.append(o)
            elif kind == "anybytes":
                o = Obj(nm, fn.params[k]["t"], "sym"); L = fresh(st, "len", 0, (1 << 62))
                args.append(SliceV(o, (), LP.c(0), L, L, fn.params[k]["t"])); vals.append(None)
            elif kind == "sliceout":
                o = Obj(nm, fn.params[k]["t"], "sym"); L = fresh(st, "len", self.n, 1 << 62)
                args.append(SliceV(o, (), LP.c(0), L, L, fn.params[k]["t"])); vals.append(None)
            else: raise Unsupported("parameter kind")
        if c.get("zero0"):
            self.put_words(st, args[0], [LP.c(0)] * self.n)
        entry = {h: self.words(st, Ptr(o)) for h, o in objs.items()}
        bigs = {k: vals[k] for k, kd in enumerate(c["params"]) if kd in ("big", "bigred")}
        outs = self.run_fn(fn, args, [], st)
        def ob(name, ok, why=""): res.append((lab + ": " + name, "proved" if ok else "failed", why))
        n_ret = 0
        cases = []
        for o in outs:
            if o.kind == "panic":
                if not infeasible(o.st, [], True): ob("does not panic", False, o.why or "")
                continue
            n_ret += 1
            rv = o.vals[0] if o.vals else None
            if (c.get("pred") or sp in ("isu64", "lex")) and not isinstance(rv, bool):
                for tr, s2 in self.fork(o.st, rv): cases.append(Out("ret", s2, [tr] + list(o.vals[1:])))
            elif sp == "noteq" and isinstance(rv, (OrW, XorW)):
                for tr, s2 in self.fork(o.st, ("zero", self.parts(rv), True)): cases.append(Out("ret", s2, [LP.c(0) if tr else LP.c(1)]))
            elif sp == "cmp" and isinstance(rv, LP) and rv.const() is None: raise Unsupported("symbolic comparison result")
            else: cases.append(o)
        if not n_ret: ob("returns", False, "no path returns")
        for o in cases:
            s = o.st
            # frame: what the contract does not mention keeps its value
            for h, ob_ in objs.items():
                if not any(k in c["outs"] and part.get(k) == h for k in part):
                    now = self.words(s, Ptr(ob_))
                    ok = all(not norm(s, a - b).m for a, b in zip(now, entry[h]))
                    ob("leaves argument %s unchanged" % ob_.name.split("#")[0], ok)
            for k in bigs:
                ob("leaves argument unchanged", not norm(s, self.bget(s, args[k]) - bigs[k]).m)
            self.post(c, sp, fn, args, vals, part, objs, o, ob, pre)
        # merge duplicates per path
        return

    def congr(self, s, a, b):
        r = settle_all(s, a - b, self.q)
        return not r.m
    def exact(self, s, a, b):
        d = expand(s, a - b)
        return not d.m
    def iff(self, s, truth, kind, lp, lim=None):
        """lp == 0 (or lp >= 0) holds exactly when truth"""
        lp = norm(s, lp)
        if kind == "ge":
            return prove_ge(s, lp, True) if truth else prove_ge(s, -lp - 1, True)
        if truth:
            if not expand(s, lp).m: return True
            return prove_ge(s, lp, True) and prove_ge(s, -lp, True)
        s2 = s.copy()
        return infeasible(s2, [lp, -lp], True)

    def canon(self, s, v):
        ws = self.fresh_elem(s, "can", v * self.Ri); Z = LP({})
        for k, w in enumerate(ws): Z = Z + w * (1 << (64 * k))
        return Z

    def post(self, c, sp, fn, args, vals, part, objs, o, ob, pre):
        s, q, R, Ri, n = o.st, self.q, self.R, self.Ri, self.n
        rv = o.vals[0] if o.vals else None
        if c.get("pred"):
            kind, lp = c["pred"](vals)
            if not isinstance(rv, bool): raise Unsupported("boolean result")
            if kind == "eq":   # equality of words, part by part when the truth is positive
                ok = self.iff(s, rv, "eq", lp)
            else: ok = self.iff(s, rv, kind, lp)
            ob("result is %s exactly when the condition holds" % str(rv).lower(), ok); return
        if sp == "noteq":
            z = rv.const() if isinstance(rv, LP) else None
            if z is None: raise Unsupported("result")
            ob("result is zero exactly for equal words", self.iff(s, z == 0, "eq", vals[0] - vals[1])); return
        if sp == "smaller":
            for tr, s2 in ([(rv, s)] if isinstance(rv, bool) else self.fork(s, rv)):
                ob("result says whether the number is below q", self.iff(s2, tr, "ge", q - 1 - vals[0]))
            return
        if sp == "isu64": ob("true exactly when the value fits a word", self.iff(s, rv, "ge", LP.c(B - 1) - self.canon(s, vals[0]))); return
        if sp == "lex": ob("true exactly when the value exceeds (q-1)/2", self.iff(s, rv, "ge", self.canon(s, vals[0]) - (q - 1) // 2 - 1)); return
        if sp == "u64":
            ob("low word of the value", self.exact(s, rv, self.fresh_elem(s, "can", vals[0] * Ri)[0])); return
        if sp == "cmp":
            a, b = self.canon(s, vals[0]), self.canon(s, vals[1]); r = self.concrete(rv, s)
            if r == 0: ok = self.iff(s, True, "eq", a - b)
            elif r == 1: ok = prove_ge(s, a - b - 1, True)
            elif r == -1: ok = prove_ge(s, b - a - 1, True)
            else: ok = False
            ob("order of the values", ok); return
        if sp == "limb": ob("number of words", self.concrete(rv, s) == n); return
        if sp == "new":
            ok = isinstance(rv, Ptr) and rv.obj not in objs.values() and rv.obj.kind == "alloc" and all(not w.m for w in self.words(s, rv))
            ob("fresh zero element", ok); return
        if sp in ("tobig", "bigint"):
            want = vals[0] if sp == "tobig" else self.canon(s, vals[0])
            ob("integer value", self.exact(s, self.bget(s, args[1]), want))
            ob("returns its argument", isinstance(rv, Ptr) and rv.obj is args[1].obj); return
        if sp == "slice":
            want = self.fresh_elem(s, "can", vals[0] * Ri); sl = args[1]
            ok = all(not expand(s, s.heap.get((sl.obj, (k,)), LP({})) - want[k]).m for k in range(n))
            ob("words of the value", ok)
            ob("nothing written past the words", not any(k[0] is sl.obj and k[1][0] >= n for k in s.heap)); return
        if sp == "put":
            bs = [self.load(Ptr(args[1].obj, (k,)), self.byte_t(None), s) for k in range(8 * n)]
            ob("bytes of the value", self.exact(s, self.bytes_val(bs, c["be"]), self.canon(s, vals[2]))); return
        if sp == "get":
            bs = [self.load(Ptr(args[1].obj, (k,)), self.byte_t(None), s) for k in range(8 * n)]
            v = self.bytes_val(bs, c["be"]); z, err = o.vals
            if isinstance(z, TupleV): z, err = z.e
            ok = err is NIL
            ob("accepts exactly the canonical encodings", self.iff(s, ok, "ge", q - 1 - v))
            Z = LP({})
            for k, w in enumerate(z.e): Z = Z + w * (1 << (64 * k))
            if ok:
                ob("value of the bytes", self.congr(s, Z, v * R)); ob("result is reduced", self.prove_red(s, Z))
            return
        if sp in ("bytes", "marshal"):
            if sp == "bytes": bs = rv.e
            else:
                ob("length", self.concrete(rv.len, s) == 8 * n)
                bs = [self.load(Ptr(rv.obj, rv.path + (("*", rv.off + LP.c(k)),)), self.byte_t(None), s) for k in range(8 * n)]
            ob("big-endian bytes of the value", self.exact(s, self.bytes_val(bs, True), self.canon(s, vals[0]))); return
        if sp in ("setbytes", "setcanon"):
            sl = args[1]; L = self.concrete(sl.len, s)
            if L is not None and L <= 4096:
                bs = [self.load(Ptr(sl.obj, (k,)), self.byte_t(None), s) for k in range(L)]; v = self.bytes_val(bs, True)
            else: v = self.symbytes(s, sl)
            Z = self.V(s, args[0])
            if sp == "setcanon":
                if rv is NIL:
                    ob("accepts only full-length canonical bytes", L == 8 * n and prove_ge(s, q - 1 - v, True))
                else:
                    bad = L is None and (infeasible(s, [sl.len - 8 * n, 8 * n - sl.len]) or self.iff(s, False, "eq", sl.len - 8 * n))
                    ob("rejects only bad bytes", bad or (L is not None and (L != 8 * n or prove_ge(s, v - q, True))))
                    ob("leaves the receiver unchanged on error", self.exact(s, Z, vals[0])); return
            ob("value of the bytes mod q", self.congr(s, Z, v * R)); ob("result is reduced", self.prove_red(s, Z))
            if c.get("ret") is not None: ob("returns its receiver", isinstance(rv, Ptr) and rv.obj is args[0].obj)
            return
        if sp == "mrs":
            ob("result is reduced", self.prove_red(s, self.V(s, args[0]))); return
        if sp == "select":
            cc = norm(s, vals[1]); Z = self.V(s, args[0])
            z0 = not infeasible(s, [cc, -cc]); z1 = not (infeasible(s, [cc - 1]) and infeasible(s, [-cc - 1]))
            ob("c = 0 selects the first, c != 0 the second", (not z0 or self.exact(s, Z, vals[2])) and (not z1 or self.exact(s, Z, vals[3]))); return
        for k, e in c["outs"].items():
            if k == "ret":
                Z = LP({})
                for j, w in enumerate(rv.e): Z = Z + w * (1 << (64 * j))
            else: Z = self.V(s, args[k])
            if c.get("exact"): ob("words copied", self.exact(s, Z, e(vals))); continue
            ob("value", self.congr(s, Z, self.modq(s, e(vals))))
            ob("result is reduced", self.prove_red(s, Z))
        if isinstance(c.get("ret"), int): ob("returns its receiver", isinstance(rv, Ptr) and rv.obj is args[c["ret"]].obj and tuple(rv.path) == ())
    def bytes_val(self, bs, be):
        r = LP({}); N = len(bs)
        for k, b in enumerate(bs): r = r + b * (1 << (8 * (N - 1 - k if be else k)))
        return r
