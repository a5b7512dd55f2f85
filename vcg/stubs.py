"""Assumed behaviour of the calls that leave the verified code: the field methods (whose contracts are discharged for the seven field
packages under C01-C05), math/big, sync.Pool and a few library functions."""
import z3
from core import *

def _g():
    import gen
    return gen

def E_New(ex, st, a, i): return ex.new_cell(st, _g().fint(0))
def E_Set(ex, st, a, i): ex.setcontent(a[0], ex.content(a[1], st), st); return a[0]
def E_SetInt(ex, st, a, i): ex.setcontent(a[0], _g().fint(a[1]), st); return a[0]
def E_SetBig(ex, st, a, i): ex.setcontent(a[0], _g().fint(ex.content(a[1], st)), st); return a[0]
def _bin(f):
    def go(ex, st, a, i):
        g = _g(); ex.setcontent(a[0], f(g, ex.content(a[1], st), ex.content(a[2], st)), st); return a[0]
    return go
def _un(f):
    def go(ex, st, a, i):
        g = _g(); ex.setcontent(a[0], f(g, ex.content(a[1], st)), st); return a[0]
    return go
def lift(ex, x):
    g = _g()
    c = g.fpoly(x)
    if list(c) in ([()], []) :
        n = c.get((), 0)
        if n == -1: return g.Q - 1
        if n in (0, 1): return n
    r = g.flift(x)
    ex.ax.append(z3.And(r >= 0, r < g.Q, g.finj_(r) == x)); return r
def E_BigInt(ex, st, a, i): ex.setcontent(a[1], lift(ex, ex.content(a[0], st)), st); return a[1]
def E_Cmp(ex, st, a, i):
    x, y = lift(ex, ex.content(a[0], st)), lift(ex, ex.content(a[1], st))
    return z3.If(ex.content(a[0], st) == ex.content(a[1], st), z3.IntVal(0), z3.If(x < y, z3.IntVal(-1), z3.IntVal(1)))      # equal elements have equal representatives
def E_Limb(ex, st, a, i):
    n = z3.Int("limbs"); ex.ax.append(z3.And(n >= 1, n < 64)); return n
def E_Rand(ex, st, a, i): ex.setcontent(a[0], ex.fresh("rnd", _g().F), st); return a[0]
def E_SetBytes(ex, st, a, i): ex.setcontent(a[0], ex.fresh("hash", _g().F), st); return a[0]

STUBS = {
    "E.New": E_New, "E.Set": E_Set, "E.SetUint64": E_SetInt, "E.SetInt64": E_SetInt, "E.SetBigInt": E_SetBig,
    "E.Add": _bin(lambda g, x, y: g.fadd(x, y)), "E.Sub": _bin(lambda g, x, y: g.fsub(x, y)), "E.Mul": _bin(lambda g, x, y: g.fmul(x, y)),
    "E.Neg": _un(lambda g, x: g.fneg(x)), "E.Inverse": _un(lambda g, x: g.finv(x)), "E.BigInt": E_BigInt, "E.Cmp": E_Cmp, "E.Limb": E_Limb,
    "E.MustSetRandom": E_Rand, "E.SetBytes": E_SetBytes,
}

# ---- math/big on mathematical integers
def bv(ex, p, st): return ex.content(p, st)
def bset(f):
    def go(ex, st, a, i):
        g = _g(); v = f(ex, st, *a[1:]); ex.setcontent(a[0], g.Z(g.num(v)), st); return a[0]
    return go
def B_arith(op):
    def f(ex, st, x, y):
        g = _g(); x, y = g.Z(bv(ex, x, st)), g.Z(bv(ex, y, st))
        return z3.simplify({"+": x + y, "-": x - y, "*": x * y}[op])
    return bset(f)
def B_div(which):
    def f(ex, st, x, y):
        g = _g(); x, y = bv(ex, x, st), bv(ex, y, st)
        if isinstance(y, int) and y == 0: ex.prove(st, False, "divisor not zero")
        elif not isinstance(y, int): ex.prove(st, g.Z(y) > 0, "divisor positive")
        q, r = ex.qr(x, y, st); return q if which == "q" else r
    return bset(f)
def B_rsh(ex, st, x, n):
    g = _g(); return ex.qr(bv(ex, x, st), ex.pow2(n), st)[0]
def B_lsh(ex, st, x, n):
    g = _g(); return z3.simplify(g.Z(bv(ex, x, st)) * g.Z(ex.pow2(n)))
def B_and(ex, st, x, y):
    g = _g(); y = bv(ex, y, st)
    if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0: return ex.qr(bv(ex, x, st), y + 1, st)[1]
    raise Unsupported("big.Int And")
def B_cmp(ex, st, a, i):
    g = _g(); x, y = g.Z(bv(ex, a[0], st)), g.Z(bv(ex, a[1], st))
    return g.num(z3.simplify(z3.If(x < y, z3.IntVal(-1), z3.If(x > y, z3.IntVal(1), z3.IntVal(0)))))
def B_cmpabs(ex, st, a, i):
    g = _g(); ab = lambda t: z3.If(t >= 0, t, -t)
    x, y = ab(g.Z(bv(ex, a[0], st))), ab(g.Z(bv(ex, a[1], st)))
    return z3.If(x < y, z3.IntVal(-1), z3.If(x > y, z3.IntVal(1), z3.IntVal(0)))
def B_sign(ex, st, a, i):
    g = _g(); x = g.Z(bv(ex, a[0], st)); return g.num(z3.simplify(z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))))
bitlen_ = z3.Function("bitlen", z3.IntSort(), z3.IntSort())
def B_bitlen(ex, st, a, i):
    g = _g(); x = bv(ex, a[0], st)
    if isinstance(x, int): return abs(x).bit_length()
    n = bitlen_(x); ab = z3.If(x >= 0, x, -x)
    ex.pow2(n); ex.pow2(z3.simplify(n - 1))
    ex.ax.append(z3.And(n >= 0, n < (1 << 40), z3.Implies(x == 0, n == 0), z3.Implies(x != 0, z3.And(n >= 1, g.pow2_(n - 1) <= ab, ab < g.pow2_(n)))))
    return n
def B_new(ex, st, a, i): return ex.new_big(st, a[0])
def B_u64(ex, st, a, i):
    g = _g(); x = bv(ex, a[0], st); return g.num(z3.simplify(z3.If(g.Z(x) >= 0, g.Z(x), -g.Z(x)) % (1 << 64))) 
def B_i64(ex, st, a, i):
    g = _g(); x = bv(ex, a[0], st)
    if ex.quick(st, z3.And(g.Z(x) >= -(1 << 63), g.Z(x) < (1 << 63))): return x
    return (g.Z(x) + (1 << 63)) % (1 << 64) - (1 << 63)
for n, f in {"Add": B_arith("+"), "Sub": B_arith("-"), "Mul": B_arith("*"), "Mod": B_div("r"), "Div": B_div("q"), "Rsh": bset(B_rsh), "Lsh": bset(B_lsh), "And": bset(B_and),
             "Set": bset(lambda ex, st, x: bv(ex, x, st)), "SetInt64": bset(lambda ex, st, x: x), "SetUint64": bset(lambda ex, st, x: x),
             "Neg": bset(lambda ex, st, x: z3.simplify(-_g().Z(bv(ex, x, st)))), "Cmp": B_cmp, "CmpAbs": B_cmpabs, "Sign": B_sign, "BitLen": B_bitlen, "Uint64": B_u64, "Int64": B_i64}.items():
    STUBS["(*math/big.Int)." + n] = f
ipow_ = z3.Function("int_power", z3.IntSort(), z3.IntSort(), z3.IntSort())
prime_ = z3.Function("probably_prime", z3.IntSort(), z3.BoolSort())
STUBS["(*math/big.Int).ProbablyPrime"] = lambda ex, st, a, i: prime_(_g().Z(bv(ex, a[0], st)))
for n in ("Log2", "Ceil", "Floor", "Exp2"): STUBS["math." + n] = lambda ex, st, a, i: _g().OpaqueV("float", i["t"])
bexp_ = z3.Function("powmod", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
def B_exp(ex, st, x, y, m):
    """x^y mod m: a residue, and the power in the field when m is the field's modulus"""
    g = _g()
    if m is g.NIL:
        x, y = g.Z(bv(ex, x, st)), g.Z(bv(ex, y, st)); z = ipow_(x, y); ex.ax.append(z3.Implies(y <= 0, z == 1)); return z
    x, y, m = (g.Z(bv(ex, t, st)) for t in (x, y, m)); z = bexp_(x, y, m)
    ex.prove(st, z3.And(y >= 0, m > 0), "exponent and modulus of big.Int.Exp not negative")
    ex.ax.append(z3.Implies(z3.And(y >= 0, m > 0), z3.And(z >= 0, z < m)))
    if ex.quick(st, m == g.Q):
        import lem
        ex.ax.append(z3.Implies(y >= 0, g.finj_(z) == lem.fpow(g.fint(x), y)))
        ex.ax.append(z3.Implies(z3.And(y >= 0, g.finj_(z) == g.fint(1)), z == 1)); ex.ax.append(z3.Implies(z == 1, g.finj_(z) == g.fint(1)))      # residues are equal when their images are (modulus > 1)
    return z
STUBS["(*math/big.Int).Exp"] = bset(B_exp)
STUBS["math/big.NewInt"] = B_new

# ---- sync.Pool: Get gives an object nobody else holds, made by New or put back earlier; the contents are unknown
def pool_get(ex, st, a, i):
    h = ex.hooks.get("pool")
    if h is None: raise Unsupported("sync.Pool.Get")
    return h(ex, st, a[0])
STUBS["(*sync.Pool).Get"] = pool_get
STUBS["(*sync.Pool).Put"] = lambda ex, st, a, i: ()

# ---- hashing and AES-CTR: functions of their inputs, nothing else is used
digest_ = z3.Function("sha384", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
key_ = z3.Function("aes_key", *([z3.IntSort()] * 33)); iv_ = z3.Function("aes_iv", *([z3.IntSort()] * 17)); ctr_ = z3.Function("stream_of", z3.IntSort(), z3.IntSort(), z3.IntSort())
def digest_bytes(ex, s, st):
    g = _g(); t = ex.elem_val(s, z3.Int("k!arr"), st); t = t if z3.is_select(t) else z3.simplify(t)
    if not z3.is_select(t): raise g.Unsupported("bytes hashed")
    off = z3.simplify(t.arg(1) - z3.Int("k!arr")); out = [digest_(t.arg(0), off, g.Z(s.len), z3.IntVal(i)) for i in range(48)]
    ex.ax.extend(z3.And(x >= 0, x < 256) for x in out); return out
def sum384(ex, st, a, i): return _g().ArrV(digest_bytes(ex, a[0], st))
def aes_new(ex, st, a, i):
    g = _g(); n = g.num(a[0].len)
    if n != 32: raise g.Unsupported("AES key of %s bytes" % (n,))
    return g.TupleV([g.OpaqueV("block", None, {"key": key_(*[g.Z(g.num(ex.elem_val(a[0], k, st))) for k in range(32)])}), g.NIL])
def ctr_new(ex, st, a, i):
    g = _g(); n = g.num(a[1].len)
    if n != 16 or not isinstance(a[0], g.OpaqueV) or "key" not in a[0].meta: raise g.Unsupported("CTR mode with an initial vector of %s bytes" % (n,))
    o = g.Obj("position", None, "sym", "big"); p = g.Ptr(o); st.heap = dict(st.heap); ex.setcontent(p, z3.IntVal(0), st)
    return g.OpaqueV("stream", i["t"], {"stream": (ctr_(a[0].meta["key"], iv_(*[g.Z(g.num(ex.elem_val(a[1], k, st))) for k in range(16)])), p)})
def rand_read(ex, st, a, i):
    g = _g(); ex.havoc_mod(a[0], st.copy(), st); return g.TupleV([ex.fresh("n"), g.OpaqueV("error")])
STUBS.update({"crypto/sha512.Sum384": sum384, "crypto/aes.NewCipher": aes_new, "crypto/cipher.NewCTR": ctr_new, "crypto/rand.Read": rand_read})

def div64(ex, st, a, i):
    """bits.Div64 panics on a quotient that does not fit"""
    g = _g(); h, l, y = (g.Z(g.num(t)) for t in a); ex.prove(st, z3.And(y > 0, h < y), "quotient of bits.Div64 fits")
    q, r = (g.Z(t) for t in ex.qr(z3.simplify(h * (1 << 64) + l), y, st)); ex.ax.append(z3.Implies(z3.And(y > 0, h >= 0, h < y, l >= 0, l < (1 << 64)), q < (1 << 64)))
    return g.TupleV([q, r])
STUBS["math/bits.Div64"] = div64

words_ = z3.Function("words", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
def E_Slice(ex, st, a, i):
    """writes the words of the canonical representative, the lowest first"""
    g = _g(); n = E_Limb(ex, st, a, i); s = a[1]; x = lift(ex, ex.content(a[0], st)); ex.prove(st, g.Z(g.num(s.len)) == n, "a word for every limb")
    ex.havoc_mod(s, st.copy(), st); k = z3.Int("k!arr"); t = ex.elem_val(s, k, st)
    if not z3.is_select(t): raise g.Unsupported("words of an element")
    st.pc.append(words_(t.arg(0), g.Z(g.num(z3.simplify(t.arg(1) - k))), n, z3.IntVal(0)) == g.Z(x)); return ()
STUBS["E.Slice"] = E_Slice
def B_divmod(ex, st, a, i):
    """z, m = x div y, x mod y (Euclidean)"""
    g = _g(); x, y = bv(ex, a[1], st), g.Z(bv(ex, a[2], st)); ex.prove(st, y > 0, "divisor positive"); q, r = ex.qr(x, y, st)
    ex.setcontent(a[0], g.Z(g.num(q)), st); ex.setcontent(a[3], g.Z(g.num(r)), st); return g.TupleV([a[0], a[3]])
STUBS["(*math/big.Int).DivMod"] = B_divmod
coprime_ = z3.Function("coprime", z3.IntSort(), z3.IntSort(), z3.BoolSort())
def B_modinv(ex, st, x, n):
    """the inverse, when there is one"""
    g = _g(); x, n = g.Z(bv(ex, x, st)), g.Z(bv(ex, n, st)); z = ex.fresh("inverse"); p = z3.simplify(x * z)
    ex.ax.append(z3.Implies(z3.And(n > 1, coprime_(x, n)), z3.And(z >= 0, z < n, g.emod_(p, n) == 1))); return z
STUBS["(*math/big.Int).ModInverse"] = bset(B_modinv)
isqrt_ = z3.Function("integer_root", z3.IntSort(), z3.IntSort()); f64_ = z3.Function("nearest_float", z3.IntSort(), z3.RealSort())
def B_f64(ex, st, a, i):
    g = _g(); t = ex.p.t(i["t"]); ft = next((k for k, d in enumerate(ex.p.types) if d["k"] == "basic" and d.get("name") == "float64"), None)
    return g.TupleV([g.OpaqueV("float", ft, {"real": f64_(g.Z(bv(ex, a[0], st)))}), ex.fresh("accuracy")])
STUBS["(*math/big.Int).Float64"] = B_f64
def B_sqrt(ex, st, x):
    """the integer square root"""
    g = _g(); x = g.Z(bv(ex, x, st)); ex.prove(st, x >= 0, "square root of a number that is not negative"); z = isqrt_(x)
    ex.ax.append(z3.Implies(x >= 0, z3.And(z >= 0, z * z <= x, x < (z + 1) * (z + 1)))); return z
STUBS["(*math/big.Int).Sqrt"] = bset(B_sqrt)
def B_isu64(ex, st, a, i): g = _g(); x = g.Z(bv(ex, a[0], st)); return z3.And(x >= 0, x < (1 << 64))
STUBS["(*math/big.Int).IsUint64"] = B_isu64
def B_bits(ex, st, a, i):
    """the words of the number, of which only how many there are is looked at"""
    g = _g(); n = ex.fresh("words"); ex.ax.append(z3.And(n >= 0, n < (1 << 40))); return g.SliceV(g.Obj("bits", i["t"], "sym", "elems"), (), 0, n, n, i["t"])
STUBS["(*math/big.Int).Bits"] = B_bits
STUBS["(*math/big.Int).SetBits"] = bset(lambda ex, st, x: ex.fresh("number"))
