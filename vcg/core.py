"""Symbolic executor over SSA, shared by the integer domains.

The executor explores every path of a function; loops are cut at their headers by invariants (or executed, when the
loop condition is concrete); calls go to contracts, to trusted stubs, or are executed in place."""
import itertools, sys
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

class Nil:
    def __repr__(self): return "nil"
NIL = Nil()

class Obj:
    cnt = itertools.count()
    __slots__ = ("id", "name", "t", "init", "kind", "meta")
    def __init__(self, name, t, init, kind="alloc"):
        self.id = next(Obj.cnt); self.name = "%s#%d" % (name, self.id); self.t = t; self.init = init; self.kind = kind; self.meta = {}
    def __repr__(self): return self.name

class Ptr:
    """pointer to a place: object plus path (ints for fields/fixed-array slots, ('*',term) for slice elements)"""
    __slots__ = ("obj", "path")
    def __init__(self, obj, path=()): self.obj = obj; self.path = tuple(path)
    def __repr__(self): return "&%s%s" % (self.obj, list(self.path))

class WinPtr:
    """*[n]T laid over a slice's backing array at base (from unsafe.Pointer(&s[i]))"""
    __slots__ = ("obj", "path", "base", "n", "cap")
    def __init__(self, obj, path, base, n, cap): self.obj, self.path, self.base, self.n, self.cap = obj, tuple(path), base, n, cap

class RawPtr:
    """unsafe.Pointer"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p

class SliceV:
    __slots__ = ("obj", "path", "off", "len", "cap", "t")
    def __init__(self, obj, path, off, len, cap, t=None): self.obj, self.path, self.off, self.len, self.cap, self.t = obj, tuple(path), off, len, cap, t
    def __repr__(self): return "slice(%s%s,%s,%s)" % (self.obj, list(self.path), self.off, self.len)

class StructV:
    __slots__ = ("f",)
    def __init__(self, f): self.f = tuple(f)
class ArrV:
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)
class TupleV:
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)
class FuncV:
    __slots__ = ("name", "binds")
    def __init__(self, name, binds=()): self.name = name; self.binds = tuple(binds)
class BuiltinV:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class IfaceV:
    __slots__ = ("t", "v")
    def __init__(self, t, v): self.t = t; self.v = v
class StrV:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
class OpaqueV:
    """value about which only identity is known"""
    __slots__ = ("name", "t", "meta")
    cnt = itertools.count()
    def __init__(self, name, t=None, meta=None): self.name = "%s!%d" % (name, next(OpaqueV.cnt)); self.t = t; self.meta = meta or {}
    def __repr__(self): return "<%s>" % self.name

class St:
    __slots__ = ("heap", "pc", "dom", "defers", "ghost", "trace", "notes")
    def __init__(self): self.heap = {}; self.pc = []; self.dom = None; self.defers = []; self.ghost = {}; self.trace = (); self.notes = ()
    def copy(self):
        s = St(); s.heap = dict(self.heap); s.pc = list(self.pc); s.dom = self.dom.copy() if self.dom is not None else None
        s.defers = list(self.defers); s.ghost = dict(self.ghost); s.trace = self.trace; s.notes = self.notes
        return s

class Out:
    __slots__ = ("kind", "st", "vals", "why")
    def __init__(self, kind, st, vals=None, why=None): self.kind, self.st, self.vals, self.why = kind, st, vals, why

class Item:
    __slots__ = ("blk", "prev", "env", "st", "ip")
    def __init__(self, blk, prev, env, st, ip=0): self.blk, self.prev, self.env, self.st, self.ip = blk, prev, env, st, ip

class Obligation:
    __slots__ = ("fn", "name", "status", "solver", "time", "detail", "model", "line")
    def __init__(self, fn, name, status, solver="", time=0.0, detail="", model=None, line=None):
        self.fn, self.name, self.status, self.solver, self.time, self.detail, self.model, self.line = fn, name, status, solver, time, detail, model, line

class Exec:
    """Domain-independent part. Subclasses give integers, memory leaves, forks and proofs."""
    max_paths = 4000
    max_depth = 40
    def __init__(self, prog):
        self.p = prog; self.obls = []; self.curfn = "?"; self.stubs = {}; self.contracts = {}; self.quiet = 0
        self.inlined = set(); self.used_contracts = set(); self.used_stubs = set(); self.steps = 0; self.writes = None
        self.max_steps = 3000000

    # ---- values -------------------------------------------------------
    def val(self, v, fr, env, st):
        if isinstance(v, str):
            if v in env: return env[v]
            raise Unsupported("undefined value %s in %s" % (v, fr.name))
        if v is None: return None
        c = v["c"]
        if c == "const": return self.const(v, st)
        if c == "func": return FuncV(v["name"])
        if c == "builtin": return BuiltinV(v["name"])
        if c == "global": return Ptr(self.global_obj(v["name"], v["t"], st))
        raise Unsupported("value " + repr(v))

    def const(self, v, st):
        t = self.p.ut(v["t"])
        if v.get("nil"): return self.zero(v["t"], st)
        if "i" in v:
            if t["k"] == "basic" and t["name"] in ("float64", "float32", "untyped float"): return self.float_const(v["i"])
            return self.int_const(int(v["i"]), v["t"])
        if "v" in v:
            if isinstance(v["v"], bool): return v["v"]
            return StrV(v["v"])
        if "f" in v: return self.float_const(v["f"])
        raise Unsupported("const")

    def float_const(self, s): return OpaqueV("float:" + str(s), meta={"const": str(s)})

    def zero(self, t, st):
        u = self.p.ut(t)
        k = u["k"]
        if k == "basic":
            n = u["name"]
            if n in ("bool", "untyped bool"): return False
            if n in ("string", "untyped string"): return StrV("")
            if n in ("float64", "float32"): return self.float_const("0")
            if n == "Pointer" or n == "untyped nil": return NIL
            return self.int_const(0, t)
        if k == "struct":
            lf = self.leaf_zero(t, st)
            if lf is not None: return lf
            return StructV([self.zero(f["t"], st) for f in u["fields"]])
        if k == "array": return ArrV([self.zero(u["elem"], st) for _ in range(u["len"])])
        if k == "slice": return SliceV(None, (), self.int_const(0, None), self.int_const(0, None), self.int_const(0, None), t)
        return NIL

    def leaf_zero(self, t, st): return None

    def global_obj(self, name, t, st):
        g = self.globals_cache().get(name)
        if g is None:
            et = self.p.t(t)["elem"]
            g = self.make_global(name, et); self.globals_cache()[name] = g
        return g
    def globals_cache(self):
        if not hasattr(self, "_gl"): self._gl = {}
        return self._gl
    def make_global(self, name, et): return Obj("G:" + name, et, "sym", "global")

    # ---- running ------------------------------------------------------
    def run_fn(self, fn, args, binds, st, depth=0):
        if fn.external or not fn.blocks: raise Unsupported("no body: " + fn.name)
        if depth > self.max_depth: raise Unsupported("call depth")
        fn.analyse()
        env = {}
        for p, a in zip(fn.params, args): env[p["n"]] = a
        for p, a in zip(fn.freevars, binds): env[p["n"]] = a
        saved = st.defers; st.defers = []
        outs = []
        items = [Item(0, None, env, st)]
        self.explore(fn, items, outs, depth, None, None)
        for o in outs: o.st.defers = list(saved)
        return outs

    def explore(self, fn, items, outs, depth, L, header):
        """runs the work list; with L given, transitions to header / out of L are returned as (backs, exits)"""
        backs, exits = [], []
        n = 0
        while items:
            it = items.pop(); n += 1
            if n > self.max_paths: raise Unsupported("too many paths in " + fn.name)
            for (tgt, prev, env, st) in self.run_block(fn, it, items, outs, depth):
                if L is not None:
                    if tgt == header: backs.append((prev, env, st)); continue
                    if tgt not in L: exits.append((tgt, prev, env, st)); continue
                if tgt in fn.loops and prev not in fn.loops[tgt]:
                    self.enter_loop(fn, tgt, prev, env, st, items, outs, depth, L, header, backs, exits)
                else:
                    items.append(Item(tgt, prev, env, st))
        return backs, exits

    def enter_loop(self, fn, h, prev, env, st, items, outs, depth, L, header, backs, exits):
        items.append(Item(h, prev, env, st))     # default: just execute (subclasses cut)

    def phis(self, fn, blk, prev, env, st):
        b = fn.blocks[blk]
        new = {}
        for i in b["ins"]:
            if i["op"] != "phi": break
            k = b["preds"].index(prev)
            new[i["n"]] = self.val(i["edges"][k], fn, env, st)
        return new

    def run_block(self, fn, it, items, outs, depth):
        """executes one block from it.ip; returns transitions; extra continuations are pushed on items"""
        b = fn.blocks[it.blk]; env = dict(it.env); st = it.st
        ins = b["ins"]
        ip = it.ip
        if ip == 0 and it.prev is not None:
            env.update(self.phis(fn, it.blk, it.prev, env, st))
        N = len(ins)
        while ip < N:
            i = ins[ip]; op = i["op"]; self.steps += 1
            if self.steps > self.max_steps: raise Unsupported("step limit")
            self.line = i.get("line", getattr(self, "line", None))
            if op == "phi": ip += 1; continue
            if op == "jump": return [(b["succs"][0], it.blk, env, st)]
            if op == "if":
                c = self.val(i["x"], fn, env, st)
                res = []
                for truth, s2 in self.fork(st, c):
                    res.append((b["succs"][0 if truth else 1], it.blk, env, s2))
                return res
            if op == "return":
                outs.append(Out("ret", st, [self.val(x, fn, env, st) for x in i["xs"]]))
                return []
            if op == "panic":
                outs.append(Out("panic", st, None, "panic at line %s of %s" % (i.get("line"), fn.name)))
                return []
            if op in ("call", "defer", "go"):
                if op == "defer":
                    st.defers = st.defers + [(i, fn, env)]
                    ip += 1; continue
                if op == "go": raise Unsupported("go statement")
                rs = self.call(i, fn, env, st, depth)
                if len(rs) == 1 and rs[0].kind == "ret":
                    o = rs[0]; st = o.st
                    env[i["n"]] = self.ret_value(o.vals)
                    ip += 1; continue
                for o in rs:
                    if o.kind == "panic": outs.append(o); continue
                    e2 = dict(env); e2[i["n"]] = self.ret_value(o.vals)
                    items.append(Item(it.blk, it.prev, e2, o.st, ip + 1))
                return []
            if op == "rundefers":
                ds = st.defers; st.defers = []
                states = [st]
                for (di, dfn, denv) in reversed(ds):
                    nxt = []
                    for s in states:
                        for o in self.call(di, dfn, denv, s, depth):
                            if o.kind == "panic": outs.append(o)
                            else: nxt.append(o.st)
                    states = nxt
                if len(states) == 1: st = states[0]; ip += 1; continue
                for s in states: items.append(Item(it.blk, it.prev, dict(env), s, ip + 1))
                return []
            r = self.instr(i, fn, env, st)
            if isinstance(r, list):          # forked states: [(value, st)]
                for v, s in r:
                    e2 = dict(env)
                    if "n" in i: e2[i["n"]] = v
                    items.append(Item(it.blk, it.prev, e2, s, ip + 1))
                return []
            if "n" in i: env[i["n"]] = r
            ip += 1
        raise Unsupported("block without terminator")

    def ret_value(self, vals):
        if vals is None: return None
        if len(vals) == 0: return None
        if len(vals) == 1: return vals[0]
        return TupleV(vals)

    def instr(self, i, fn, env, st):
        op = i["op"]; V = lambda k: self.val(i[k], fn, env, st)
        if op == "alloc":
            et = self.p.t(i["t"])["elem"]
            return Ptr(self.new_obj(i.get("comment") or i["n"], et, "zero", st))
        if op == "store": self.store(V("addr"), V("x"), i["xt"], st); return None
        if op == "unop":
            u = i["uop"]
            if u == "*":
                return self.load(V("x"), i["t"], st)
            return self.unop(u, V("x"), i["t"], st, i)
        if op == "binop": return self.binop(i["bop"], V("x"), V("y"), i["t"], i["xt"], i["yt"], st, i)
        if op == "fieldaddr":
            x = V("x")
            if isinstance(x, Ptr): return Ptr(x.obj, x.path + (i["field"],))
            if x is NIL: raise Unsupported("nil dereference")
            raise Unsupported("fieldaddr of %r" % (x,))
        if op == "field":
            x = V("x")
            if isinstance(x, StructV): return x.f[i["field"]]
            raise Unsupported("field of %r" % (x,))
        if op == "indexaddr": return self.indexaddr(V("x"), V("i"), i, st)
        if op == "index":
            x = V("x"); k = self.concrete(V("i"), st)
            if isinstance(x, ArrV) and k is not None: return x.e[k]
            if isinstance(x, ArrV): return self.select_fixed(x, V("i"), st)
            raise Unsupported("index")
        if op == "slice": return self.do_slice(V("x"), V("low"), V("high"), V("max"), i, st)
        if op == "makeslice": return self.makeslice(V("len"), V("cap"), i, st)
        if op == "extract":
            x = V("x")
            if isinstance(x, TupleV): return x.e[i["idx"]]
            raise Unsupported("extract")
        if op == "convert": return self.convert(V("x"), i["xt"], i["t"], st, i)
        if op == "multiconvert": return self.convert(V("x"), i["xt"], i["t"], st, i)
        if op == "changetype": return self.changetype(V("x"), i["xt"], i["t"], st)
        if op == "changeiface": return V("x")
        if op == "makeiface": return IfaceV(i["xt"], V("x"))
        if op == "closure":
            f = V("fn"); return FuncV(f.name, [self.val(b, fn, env, st) for b in i["binds"]])
        if op == "typeassert": return self.typeassert(V("x"), i, st)
        if op == "makemap": return self.makemap(i, st)
        if op == "lookup": return self.lookup(V("x"), V("i"), i, st)
        if op == "mapupdate": self.mapupdate(V("m"), V("k"), V("x"), st); return None
        if op == "range": return self.range_(V("x"), i, st)
        if op == "next": return self.next_(V("x"), i, st)
        if op == "slice2arrptr":
            x = V("x"); n = self.p.ut(self.p.ut(i["t"])["elem"])["len"]
            self.prove_ge(st, x.len, self.int_const(n, None), "slice long enough for array conversion")
            return WinPtr(x.obj, x.path, x.off, n, x.cap)
        raise Unsupported("instruction " + op)

    def changetype(self, x, a, b, st): return x
    def makemap(self, i, st): raise Unsupported("map")
    def lookup(self, x, k, i, st): raise Unsupported("map lookup")
    def mapupdate(self, m, k, x, st): raise Unsupported("map update")
    def range_(self, x, i, st): raise Unsupported("range over map/string")
    def next_(self, x, i, st): raise Unsupported("range over map/string")
    def typeassert(self, x, i, st):
        if isinstance(x, IfaceV):
            at = self.p.ut(i["at"])
            ok = x.t == i["at"] or at["k"] == "iface"
            v = x if at["k"] == "iface" else x.v
            if i["commaok"]: return TupleV([v if ok else self.zero(i["at"], st), ok])
            if ok: return v
        raise Unsupported("type assertion")

    def select_fixed(self, x, i, st): raise Unsupported("symbolic index into fixed array")

    # ---- calls --------------------------------------------------------
    def call(self, i, fn, env, st, depth):
        args = [self.val(a, fn, env, st) for a in i["args"]]
        if "invoke" in i:
            recv = self.val(i["recv"], fn, env, st)
            return self.invoke(i, recv, args, st, depth)
        f = self.val(i["fn"], fn, env, st)
        if isinstance(f, BuiltinV): return self.builtin(f.name, args, i, st)
        if isinstance(f, FuncV): return self.call_fn(f.name, i.get("origin"), f.binds, args, i, st, depth)
        return self.call_unknown(f, args, i, st, depth)

    def call_unknown(self, f, args, i, st, depth): raise Unsupported("call of unknown function value")
    def invoke(self, i, recv, args, st, depth):
        if isinstance(recv, IfaceV):
            m = self.method_of(recv.t, i["invoke"])
            if m is not None: return self.call_fn(m, None, (), [recv.v] + args, i, st, depth)
        raise Unsupported("interface call " + i["invoke"])
    def method_of(self, t, name):
        ty = self.p.t(t); s = ty["str"]
        for cand in (("(%s).%s" % (s, name)), ("(%s).%s" % (s.lstrip("*"), name))):
            if cand in self.p.funcs: return cand
        return None

    def call_fn(self, name, origin, binds, args, i, st, depth):
        for nm in (name, origin):
            if nm is None: continue
            s = self.stub_for(nm)
            if s is not None:
                self.used_stubs.add(nm)
                return self.norm(s(self, st, args, i), st)
        for nm in (name, origin):
            if nm is None: continue
            c = self.contract_for(nm)
            if c is not None:
                self.used_contracts.add(nm)
                return self.norm(self.call_contract(c, nm, args, i, st, depth), st)
        for nm in (origin, name):
            f = self.p.funcs.get(nm) if nm else None
            if f is not None and f.blocks:
                self.inlined.add(nm)
                return self.run_fn(f, args, binds, st, depth + 1)
        raise Unsupported("call to %s (no body, contract or stub)" % name)

    def norm(self, r, st):
        if isinstance(r, list) and (not r or isinstance(r[0], Out)): return r
        if isinstance(r, Out): return [r]
        if isinstance(r, tuple): return [Out("ret", st, list(r))]
        return [Out("ret", st, [r] if r is not None else [])]

    def stub_for(self, name): return self.stubs.get(name)
    def contract_for(self, name): return self.contracts.get(name)
