"""Contracts of the uniform sampler: what it returns are bytes of the key stream, each used once."""
from gen import *
import gen
CS = "github.com/sp301415/ringo-snark/math/csprng."
CONS = {}
def con(name, **k): CONS[name] = Con(name, **k)
def US(m): return "(*%sUniformSampler).%s" % (CS, m)
# keystream(id, i): byte i of stream id;   bxor: exclusive or of bytes
ks_ = z3.Function("keystream", INT, INT, INT); bxor_ = z3.Function("xor", INT, INT, INT); stream_ = z3.Function("stream_of", INT, INT, INT)
BUF = 8192; W64 = 1 << 64
def stream(ex, v):
    """identity of a key stream, and the cell that counts the bytes taken from it"""
    if not isinstance(v, OpaqueV): raise Unsupported("stream %r" % (v,))
    if "stream" not in v.meta:
        x = ex.fresh("stream"); o = Obj("position", None, "sym", "big"); v.meta["stream"] = (x, Ptr(o))
    return v.meta["stream"]
def pos(c, v, old=False): return Z(c.ex.content(stream(c.ex, v)[1], c.st0 if old else c.st))
def ks(c, v, i): return ks_(stream(c.ex, v)[0], Z(num(z3.simplify(Z(num(i))))))
def bytes_():
    i, j = z3.Ints("i!by j!by"); return [z3.ForAll([i, j], z3.And(ks_(i, j) >= 0, ks_(i, j) < 256), patterns=[ks_(i, j)]), z3.ForAll([i], bxor_(z3.IntVal(0), i) == i, patterns=[bxor_(z3.IntVal(0), i)]),
                                         z3.ForAll([i, j], z3.And(bxor_(i, j) >= 0, bxor_(i, j) < 256), patterns=[bxor_(i, j)])]
con("iface crypto/cipher.Stream.XORKeyStream", trusted=True, pre=lambda c: [("room for the output", Z(c.len(c[1])) >= Z(c.len(c[2])))], alias=[((1, 2),)],
    mods=lambda c: [SliceV(c[1].obj, c[1].path, c[1].off, c[2].len, c[2].len, c[1].t), stream(c.ex, c[0])[1]],
    post=lambda c: [("key stream added", c.all(0, c.len(c[2]), lambda k: c.at(c[1], k) == bxor_(Z(c.old(c[2], k)), ks(c, c[0], pos(c, c[0], True) + k)), lambda k: c.at(c[1], k))), ("position", pos(c, c[0]) == pos(c, c[0], True) + Z(c.len(c[2])))])
def prng(c, s=None): return c.fld(c[0], "prng", True) if s is None else c.fld(s, "prng")
def buf(c, s=None):
    s = c[0] if s is None else s; t = c.ex.type_at_p(s, c.st0); n = [f["name"] for f in c.ex.p.ut(t)["fields"]].index("buf"); at = c.ex.p.ut(t)["fields"][n]["t"]
    return SliceV(s.obj, tuple(s.path) + (n,), 0, BUF, BUF, at)
def ptr(c, old=False): return Z(c.fld(c[0], "ptr", old))
def inv(c, old=False): p = ptr(c, old); return [("position in the buffer", z3.And(p >= 0, p <= BUF, p % 8 == 0)), ("position in the stream", pos(c, prng(c), old) >= 0)]
con(US("Read"), pre=inv, mods=lambda c: [c[1], stream(c.ex, prng(c))[1]], setup=lambda c: c.ex.ax.extend(bytes_()), result=lambda c: [Z(c.len(c[1])), NIL],
    post=lambda c: [("every byte is the next of the key stream", c.all(0, c.len(c[1]), lambda k: c.at(c[1], k) == ks(c, prng(c), pos(c, prng(c), True) + k), lambda k: c.at(c[1], k))),
                    ("as many bytes taken", pos(c, prng(c)) == pos(c, prng(c), True) + Z(c.len(c[1]))), ("number of bytes", Z(c.res[0]) == Z(c.len(c[1]))), ("no error", c.res[1] is NIL),
                    ("buffer kept", z3.And(ptr(c) == ptr(c, True), c.all(0, BUF, lambda k: c.at(buf(c), k) == c.old(buf(c), k), lambda k: c.at(buf(c), k))))])
def word(c, at, old=False):
    """the eight bytes of the buffer there, little-endian"""
    b = buf(c); return z3.Sum([Z(c.at(b, z3.simplify(at + i), old)) * (1 << 8 * i) for i in range(8)])
def refill(c): return ptr(c, True) == BUF
def last(c): return z3.simplify(ptr(c) - 8)
def sample_post(c):
    b = buf(c); v = prng(c); r = refill(c)
    return [("the next eight bytes of the buffer", Z(c.res[0]) == word(c, last(c))), ("taken once", ptr(c) == z3.If(r, 8, ptr(c, True) + 8)), ("bytes taken from the stream", pos(c, v) == z3.If(r, pos(c, v, True) + BUF, pos(c, v, True))),
            ("refilled with the next bytes of the stream, only when used up", c.all(0, BUF, lambda k: c.at(b, k) == z3.If(r, bxor_(Z(c.old(b, k)), ks(c, v, pos(c, v, True) + k)), Z(c.old(b, k))), lambda k: c.at(b, k)))]
smods = lambda c: [buf(c), (c[0], "ptr"), stream(c.ex, prng(c))[1]]
con(US("Sample"), pre=inv, mods=smods, setup=lambda c: c.ex.ax.extend(bytes_()), result=lambda c: [c.ex.sym(c.ex.call_results[0], "word")], post=lambda c: sample_post(c) + inv(c))
# bounded sampling: the words accepted form whole residue systems, and no other words are passed over
def bound(c): n = Z(c[1]); return z3.simplify(W64 - 1 - Z(c.ex.qr(W64 - 1, n, c.st0)[1]))
def sn_inv(l):
    c = l.c; n = Z(num(l.g("words"))); return inv(c) + [("words passed over are beyond the bound", z3.Or(n == 0, z3.And(n > 0, ptr(c) >= 8, word(c, last(c)) >= bound(c))))]
con(US("SampleN"), pre=lambda c: inv(c) + [("a positive bound", Z(c[1]) > 0)], mods=smods, setup=lambda c: c.ex.ax.extend(bytes_()), result=lambda c: [c.ex.sym(c.ex.call_results[0], "sample")],
    loops={0: Loop(inv=sn_inv, ghost={"words": (lambda l: z3.IntVal(0), lambda l, h: z3.simplify(h.g("words") + 1))})},
    post=lambda c: [("whole residue systems", z3.And(bound(c) == Z(c[1]) * Z(c.ex.qr(W64 - 1, c[1], c.st0)[0]), bound(c) > 0, bound(c) >= W64 - 1 - Z(c[1]))), ("an accepted word, reduced", z3.And(ptr(c) >= 8, word(c, last(c)) < bound(c), Z(c.res[0]) == Z(c.ex.qr(word(c, last(c)), c[1], c.st)[1]))), ("in range", z3.And(Z(c.res[0]) >= 0, Z(c.res[0]) < Z(c[1])))] + inv(c))

# construction: the stream is a function of the seed's bytes
from stubs import digest_bytes, key_, iv_, ctr_
def new_post(c, s):
    return [("nothing taken yet", z3.And(Z(c.fld(s, "ptr")) == BUF, pos(c, prng(c, s)) == 0)), ("buffer empty", c.all(0, BUF, lambda k: c.at(buf(c, s), k) == 0, lambda k: c.at(buf(c, s), k)))]
def new_sampler(c):
    ex = c.ex; o = Obj("Sampler", named(ex, "UniformSampler"), "sym"); return Ptr(o)
def named(ex, name): return [k for k, d in enumerate(ex.p.types) if d["k"] == "named" and d["name"] == name][0]
con(CS + "NewUniformSamplerWithSeed", mods=lambda c: [], result=lambda c: [new_sampler(c)],
    post=lambda c: new_post(c, c.res[0]) + [("a stream that depends on the seed only", (lambda d: stream(c.ex, prng(c, c.res[0]))[0] == ctr_(key_(*d[:32]), iv_(*d[32:])))(digest_bytes(c.ex, c[0], c.st0)))])
con(CS + "NewUniformSampler", mods=lambda c: [], panics=lambda c: True, post=lambda c: new_post(c, c.res[0]))
