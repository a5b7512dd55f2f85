"""Frame contracts for the copies made for concurrent use: what a copy shares with its original, and what every function may write.

Each function of the packages gets a frame: the memory it may write and the memory its results refer to, as access paths from its parameters.
Frames are computed bottom-up from the SSA (a caller uses its callee's frame only) by a flow-insensitive, field-sensitive over-approximation.
A name is (root, path): root a parameter ('P', i), a package-level variable ('G', name) or an object made during the call ('N', site); path a tuple
of steps (owner type, field) or '[]'.  Loading a pointer does not lengthen a name: p.buf.acc names the slot and what it points to; a write to what a
pointer value refers to is marked by a last step '*'."""
import re
STAR = "*"
class Unsup(Exception): pass
PURE = re.compile(r"^(math\.|math/bits\.|fmt\.(Errorf|Sprintf)$|.*\.init$|\(encoding/binary\.\w+\)\.Uint|crypto/sha512\.Sum|crypto/sha256\.Sum|slices\.BinarySearch$|math/big\.New|bytes\.Equal$|strings\.|errors\.|github.com/tuneinsight/lattigo/v6/utils(/\w+)?\.\w+$|\(reflect\.|reflect\.TypeOf$)")
BIG_READS = {"Cmp", "CmpAbs", "Sign", "BitLen", "Uint64", "Int64", "IsUint64", "IsInt64", "ProbablyPrime", "String", "Text", "Bytes", "Float64", "Bit", "TrailingZeroBits", "Bits", "Append"}
E_READS = {"Cmp", "Limb", "New", "Marshal", "Equal", "IsZero", "IsOne", "Bytes", "String", "Text", "Uint64"}
E_ARG = {"BigInt": 0, "Slice": 0}
MAXPATH = 16
class Frame:
    __slots__ = ("writes", "rets", "cont", "unknown")
    def __init__(self): self.writes = {}; self.rets = []; self.cont = {}; self.unknown = set()
def cat(n, path): return (n[0], n[1] + tuple(path))

def tail(path):
    """the last field and the array indices after it"""
    k = len(path) - 1
    while k > 0 and path[k] == "[]": k -= 1
    return path[k:]

class Frames:
    def __init__(self, prog): self.p = prog; self.done = {}; self.stack = []
    def frame(self, name):
        if name in self.done: return self.done[name]
        if name in self.stack: raise Unsup("recursion through " + name)
        self.stack.append(name)
        try: f = Fun(self, self.p.funcs[name]).run()
        finally: self.stack.pop()
        self.done[name] = f; return f
    def has(self, name): f = self.p.funcs.get(name); return f is not None and bool(f.blocks)
    def owner(self, t):
        """the struct type a field step belongs to"""
        x = self.p.t(t)
        while x["k"] in ("ptr",) or (x["k"] == "named" and self.p.ut(t)["k"] == "ptr"):
            t = self.p.ut(t)["elem"]; x = self.p.t(t)
        s = x["str"] if x["k"] == "named" else "struct"
        return re.sub(r"\[.*$", "", s)
    def fname(self, t, k):
        u = self.p.ut(t)
        if u["k"] == "ptr": u = self.p.ut(u["elem"])
        return u["fields"][k]["name"]
    def implementers(self, meth):
        return [n for n in self.p.funcs if n.endswith(")." + meth) and self.has(n)]
    def shape(self, t):
        """scalar, struct, ptr, slice, array, map, other"""
        k = self.p.ut(t)["k"]
        if k == "basic": return "scalar"
        return {"pointer": "ptr", "iface": "iface", "interface": "iface", "sig": "func", "func": "func", "typeparam": "E"}.get(k, k)

class Fun:
    def __init__(self, fr, fn):
        self.fr, self.p, self.fn = fr, fr.p, fn; self.A = {}; self.cont = {}; self.writes = {}; self.unknown = set(); self.rets = [set() for _ in fn.results]
        self.changed = True; self.kill = self.kills()
        for i, x in enumerate(fn.params): self.A[x["n"]] = {(("P", i), ())}
        for i, x in enumerate(fn.freevars): self.A[x["n"]] = {(("F", i), ())}
    def val(self, x):
        if isinstance(x, dict):
            if x["c"] == "global": return {(("G", x["name"]), ())}
            if x["c"] == "func": return {(("C", x["name"]), ())}
            return set()
        return self.A.get(x, set())
    def put(self, n, s):
        o = self.A.setdefault(n, set())
        if not s <= o: o |= s; self.changed = True
    def hold(self, n, s):
        """memory n may hold what s names"""
        s = {x for x in s if x != n}
        if not s: return
        o = self.cont.setdefault(n, set())
        if not s <= o: o |= s; self.changed = True
    def copied(self, x, v, t, slot=None):
        """a value of type t stored: structs field by field, leaving out what is set again before anything looks at it"""
        if self.fr.shape(t) != "struct": self.hold(x, v); return
        for g in self.p.ut(t)["fields"]:
            st = (self.fr.owner(t), g["name"])
            if slot is not None and (slot, st) in self.kill: continue
            for y in [cat(x, (st,))]: self.copied(y, {cat(z, (st,)) for z in v} if not v else self.resolve({cat(z, (st,)) for z in v}), g["t"])
    def kills(self):
        """fields of a local struct set, on every path, after the struct was copied whole and before anything else looks at it"""
        f = self.fn; f.analyse(); blocks = f.blocks; nb = len(blocks); preds = [b["preds"] for b in blocks]; allb = set(range(nb)); dom = [allb] * nb; dom[0] = {0}; ch = True
        while ch:
            ch = False
            for b in range(1, nb):
                ps = [dom[q] for q in preds[b]]; d = (set.intersection(*map(set, ps)) if ps else set()) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        before = lambda a, b: (a[0] == b[0] and a[1] < b[1]) or (a[0] != b[0] and a[0] in dom[b[0]])
        ins = [((bi, k), i) for bi, b in enumerate(blocks) for k, i in enumerate(b["ins"])]; defs = f.defs(); out = set()
        def ops(i):
            r = []
            for kk, x in i.items():
                if kk in ("n", "op", "comment"): continue
                r += [y for y in (x if isinstance(x, list) else [x]) if isinstance(y, str)]
            return r
        allocs = {i["n"] for _, i in ins if i["op"] == "alloc"}; stores = [(q, i) for q, i in ins if i["op"] == "store" and isinstance(i["addr"], str)]
        for q0, s0 in stores:
            n = s0["addr"]
            if n not in allocs or f.inloop.get(q0[0]): continue
            users = [(q, i) for q, i in ins if n in ops(i) and i is not s0]
            for q1, s1 in stores:
                d = defs.get(s1["addr"])
                if d is None or d["op"] != "fieldaddr" or d["x"] != n or not before(q0, q1): continue
                st = (self.fr.owner(d["xt"]), self.fr.fname(d["xt"], d["field"]))
                def fine(q, i):
                    if before(q1, q): return True
                    if i["op"] != "fieldaddr": return False
                    us = [u for _, u in ins if i["n"] in ops(u)]
                    return all(u["op"] == "store" and u["addr"] == i["n"] and u.get("x") != i["n"] for u in us)
                if all(fine(q, i) for q, i in users): out.add((n, st))
        return out
    def resolve(self, names, kill=()):
        out = set(); work = list(names)
        while work:
            n = work.pop()
            if n in out: continue
            if len(n[1]) > MAXPATH: raise Unsup("access path too long in " + self.fn.name)
            out.add(n); r, path = n
            for k in range(len(path) + 1):
                pre = (r, path[:k])
                for b in self.cont.get(pre, ()):
                    if kill and (pre, path[k:k + 1]) in kill: continue
                    m = cat(b, path[k:])
                    if m not in out: work.append(m)
        return out
    def write(self, names, ins, star):
        for n in names:
            if n[0][0] == "N": continue
            if n[0][0] == "C": continue
            n = cat(n, (STAR,)) if star else n
            if n not in self.writes: self.writes[n] = ins.get("line", 0); self.changed = True
    def run(self):
        rounds = 0
        while self.changed:
            self.changed = False; rounds += 1
            if rounds > 60: raise Unsup("no fixpoint in " + self.fn.name)
            for bi, b in enumerate(self.fn.blocks):
                for k, i in enumerate(b["ins"]): self.step(i, bi, k)
        f = Frame(); f.writes = dict(self.writes); f.unknown = self.unknown
        f.rets = [set(r) for r in self.rets]; f.cont = {k: set(v) for k, v in self.cont.items()}; return f
    def step(self, i, bi, k):
        op = i["op"]; n = i.get("n")
        if op in ("jump", "if", "panic", "rundefers", "binop", "range", "debugref"):
            if op == "range": self.put(n, self.val(i["x"]))
            return
        if op == "alloc": self.put(n, {(("N", n), ())}); return
        if op in ("makeslice", "makemap", "makechan"): self.put(n, {(("N", n), ())}); return
        if op == "fieldaddr" or op == "field":
            st = (self.fr.owner(i["xt"]), self.fr.fname(i["xt"], i["field"])); s = {cat(x, (st,)) for x in self.val(i["x"])}
            self.put(n, s if op == "fieldaddr" else self.resolve(s)); return
        if op == "indexaddr" or op == "index": s = {cat(x, ("[]",)) for x in self.val(i["x"])}; self.put(n, s if op == "indexaddr" else self.resolve(s)); return
        if op == "unop":
            if i["uop"] == "*": self.put(n, self.resolve(self.val(i["x"])))
            return
        if op in ("convert", "changetype", "changeiface", "makeiface", "slice", "multiconvert"): self.put(n, self.val(i["x"])); return
        if op == "typeassert": self.put(n, self.val(i["x"])); return
        if op == "phi":
            for e in i["edges"]: self.put(n, self.val(e))
            return
        if op == "extract":
            d = self.fn.defs().get(i["x"]); s = self.A.get((i["x"], i["idx"]))
            self.put(n, s if s is not None else self.val(i["x"])); return
        if op == "store":
            d = self.fn.defs().get(i["addr"]) if not isinstance(i["addr"], dict) else None
            slot = isinstance(i["addr"], dict) or (d is not None and d["op"] in ("fieldaddr", "indexaddr", "alloc"))
            a = self.val(i["addr"]); self.write(a, i, not slot); v = self.val(i["x"])
            for x in a: self.copied(x, v, i["xt"], i["addr"] if isinstance(i["addr"], str) else None)
            return
        if op == "mapupdate":
            m = {cat(x, ("[]",)) for x in self.val(i["m"])}; self.write(m, i, False)
            for x in self.resolve(m): self.hold(x, self.val(i["x"]) | self.val(i["k"]))
            return
        if op == "lookup": self.put(n, self.resolve({cat(x, ("[]",)) for x in self.val(i["x"])})); return
        if op == "next": self.put(n, self.resolve({cat(x, ("[]",)) for x in self.val(i["x"])})); return
        if op == "return":
            for k2, x in enumerate(i["xs"]):
                s = self.val(x)
                if not s <= self.rets[k2]: self.rets[k2] |= s; self.changed = True
            return
        if op == "closure":
            self.put(n, {(("N", n), ())} | {(("C", i["fn"]["name"]), ())})
            for b in i["binds"]: self.hold((("N", n), ()), self.val(b))
            return
        if op in ("call", "defer", "go"): return self.call(i)
        raise Unsup("instruction " + op)
    def result(self, i, idx, s):
        n = i.get("n")
        if n is None: return
        o = self.A.setdefault((n, idx), set())
        if not s <= o: o |= s; self.changed = True
        self.put(n, s)
    def call(self, i):
        args = list(i["args"]); n = i.get("n"); site = n or ("L%s" % i.get("line"))
        if i.get("invoke"): return self.invoke(i, site)
        f = i["fn"]; name = i.get("static")
        if isinstance(f, dict) and f["c"] == "builtin": return self.builtin(f["name"], i, args)
        if not name and isinstance(f, dict) and f["c"] == "func": name = f["name"]
        if name:
            if re.search(r"lattigo.*\)\.WriteTo$", name): self.write(self.val(args[1]), i, True); return
            nm = name if self.fr.has(name) else (i.get("origin") if i.get("origin") and self.fr.has(i["origin"]) else name)
            if self.fr.has(nm): return self.apply(self.fr.frame(nm), i, args, site)
            return self.extern(name, i, args, site)
        cs = {x[0][1] for x in self.resolve(self.val(f)) if x[0][0] == "C"}
        for c in cs:
            if self.fr.has(c): self.apply(self.fr.frame(c), i, args, site, f)
            else: self.extern(c, i, args, site)
        if not cs or any(x[0][0] not in ("C", "N") for x in self.resolve(self.val(f))): self.conservative("function value", i, args, site)
    def fresh(self, i, site): self.result(i, 0, {(("N", site), ())})
    def conservative(self, name, i, args, site):
        """anything reachable from the arguments may be written"""
        self.unknown.add(name)
        for a in args: self.write(self.val(a), i, True); self.write({cat(x, ("[]",)) for x in self.val(a)}, i, True)
        s = {(("N", site), ())}
        for a in args: s |= self.val(a)
        self.result(i, 0, s)
    def builtin(self, b, i, args):
        n = i.get("n")
        if b == "append":
            s = {(("N", n), ())}; el = (("N", n), ("[]",)); a = self.val(args[0])
            self.write({cat(x, ("[]",)) for x in a}, i, False)       # into spare capacity
            for x in args: self.hold(el, self.resolve({cat(y, ("[]",)) for y in self.val(x)}))
            for y in a: self.hold(cat(y, ("[]",)), {el})
            self.put(n, s | a); return
        if b == "copy":
            d = {cat(x, ("[]",)) for x in self.val(args[0])}; self.write(d, i, False)
            for x in self.resolve(d): self.hold(x, self.resolve({cat(y, ("[]",)) for y in self.val(args[1])}))
            return
        if b == "clear": self.write({cat(x, ("[]",)) for x in self.val(args[0])}, i, False); return
        if b == "delete": self.write({cat(x, ("[]",)) for x in self.val(args[0])}, i, False); return
        if b in ("min", "max", "len", "cap", "print", "println", "panic", "recover"): return
        for a in args: self.put(n, self.val(a)) if n else None
    def extern(self, name, i, args, site):
        v = [self.val(a) for a in args]
        m = re.match(r"^\(\*?math/big\.(Int|Float|Rat)\)\.(\w+)$", name)
        if m:
            meth = m.group(2)
            if meth in BIG_READS: self.result(i, 0, v[0] if meth == "Bits" else {(("N", site), ())}); return
            self.write(v[0], i, True)
            if meth in ("DivMod", "QuoRem"): self.write(v[3], i, True); self.result(i, 1, v[3])
            if meth == "SetBits":
                for x in self.resolve(v[0]): self.hold(cat(x, (("math/big.Int", "abs"),)), v[1])
                self.write(v[1], i, True)
            self.result(i, 0, v[0]); return
        if PURE.match(name): self.fresh(i, site); return
        if name in ("crypto/aes.NewCipher", "crypto/cipher.NewCTR", "crypto/sha3.NewSHAKE128", "bufio.NewWriter", "crypto/sha256.New"):
            s = {(("N", site), ())}
            for x in v: self.hold((("N", site), (("ext", "inner"),)), x)
            self.result(i, 0, s | (set().union(*v) if name == "bufio.NewWriter" and v else set())); return
        m = re.match(r"^\(\*crypto/sha3\.SHAKE\)\.(\w+)$", name)
        if m:
            self.write(v[0], i, True)
            if m.group(1) == "Read": self.write({cat(x, ("[]",)) for x in v[1]}, i, False)
            return
        if name == "crypto/rand.Read": self.write({cat(x, ("[]",)) for x in v[0]}, i, False); return
        if name in ("(*sync.Pool).Get",): self.fresh(i, site); return
        if name in ("(*sync.Pool).Put",): return
        if re.search(r"lattigo.*\)\.WriteTo$", name): self.write(v[1], i, True); return
        if re.search(r"structs\.Matrix\[\w+\]\)\.(Equal|BinarySize)$", name): return
        self.conservative(name, i, args, site)
    def invoke(self, i, site):
        m = i["invoke"]; rt = i["recvt"]; r = self.val(i["recv"]); args = i["args"]; v = [self.val(a) for a in args]
        if self.p.t(rt)["k"] == "tparam" or self.p.t(rt)["str"] == "E":
            if m in E_ARG:
                self.write(v[E_ARG[m]], i, True); self.write({cat(x, ("[]",)) for x in v[E_ARG[m]]}, i, False) if m == "Slice" else None
                self.result(i, 0, v[E_ARG[m]]); return
            if m in E_READS: self.fresh(i, site); return
            self.write(r, i, True); self.result(i, 0, r); return
        if m == "XORKeyStream": self.write(r, i, True); self.write({cat(x, ("[]",)) for x in v[0]}, i, False); return
        if m in ("Write", "Flush", "WriteString"): self.write(r, i, True); return
        if m == "Error": return
        im = self.fr.implementers(m)
        t = self.p.t(rt)["str"]
        if im:
            for c in im:
                fn = self.p.funcs[c]
                if len(fn.params) == len(args) + 1: self.apply(self.fr.frame(c), i, [i["recv"]] + list(args), site)
            return
        self.conservative("method " + m + " of " + t, i, [i["recv"]] + list(args), site)
    def apply(self, fr, i, args, site, clo=None):
        v = [self.val(a) for a in args]
        def sub(n):
            r, path = n
            if r[0] == "P": return {cat(x, path) for x in v[r[1]]} if r[1] < len(v) else set()
            if r[0] == "N": return {(("N", (site,) + (r[1] if isinstance(r[1], tuple) else (r[1],))), path)}
            if r[0] == "F": return {cat(x, path) for x in self.resolve(self.val(clo))} if clo is not None else set()
            return {n}
        self.unknown |= fr.unknown
        for n in fr.writes:
            self.write(self.place(n, sub), i, False)
        for k, s in fr.cont.items():
            t = set().union(*(sub(x) for x in s)) if s else set()
            for a in sub(k):
                for b in ({a} if k[0][0] == "N" or not k[1] else self.place((k[0], k[1]), sub)): self.hold(b, t)
        for idx, s in enumerate(fr.rets):
            t = set().union(*(sub(x) if not x[1] else self.resolve(sub(x)) for x in s)) if s else set(); self.result(i, idx, t)

    def place(self, n, sub):
        """the memory a callee names n, in the caller's names"""
        r, path = n
        if not path: return sub(n)
        base = sub((r, path[:-1])); base = self.resolve(base) if len(path) > 1 else base
        return {cat(x, path[-1:]) for x in base}

class Copies:
    """the obligations"""
    def __init__(self, prog, pkgs): self.fr = Frames(prog); self.p = prog; self.pkgs = pkgs
    def copiers(self): return [n for n, f in self.p.funcs.items() if f.blocks and re.search(r"\)\.[sS]afeCopy$", n) and any(("/" + q + ".") in n for q in self.pkgs)]
    def shared(self, name):
        """(path in the copy, names outside it) for every pointer, slice, map or interface in the result"""
        fn = self.p.funcs[name]; F = Fun(self.fr, fn); F.run(); kill = (); out = []; seen = set()
        def names(ns, path): return F.resolve({cat(n, path) for n in ns}, kill)
        def walk(t, ns, path, depth, label):
            """t: type of the value at path from names ns"""
            if depth > 8: return
            k = self.fr.shape(t)
            if k == "scalar": return
            cur = names(ns, path)
            if k == "struct":
                u = self.p.ut(t); ow = self.fr.owner(t)
                for j, g in enumerate(u["fields"]): walk(g["t"], ns, path + ((ow, g["name"]),), depth + 1, label + "." + g["name"])
                return
            if k == "array": walk(self.p.ut(t)["elem"], ns, path + ("[]",), depth, label + "[]"); return
            old = sorted({n for n in cur if n[0][0] in ("P", "G", "F")}, key=repr)
            out.append((label, path, old))
            if old: return
            u = self.p.ut(t)
            if k == "ptr":
                if (t, depth) in seen: return
                walk(u["elem"], ns, path, depth + 1, label)
            elif k == "slice": walk(u["elem"], ns, path + ("[]",), depth + 1, label + "[]")
        t = fn.results[0]; u = self.p.ut(t)
        ns = set(F.rets[0]); old = sorted({n for n in ns if n[0][0] in ("P", "G", "F")}, key=repr)
        out.append(("result", (), old))
        if not old: walk(u["elem"] if u["k"] == "ptr" else t, ns, (), 0, "result")
        return out
    def show(self, n):
        r = {"P": "parameter %s", "G": "variable %s", "F": "captured %s", "N": "new object %s"}[n[0][0]] % (n[0][1],)
        return r + "".join("[]" if s == "[]" else ".*" if s == STAR else "." + s[1] for s in n[1])
    def functions(self): return [n for n, f in self.p.funcs.items() if f.blocks and any(("/" + q + ".") in n for q in self.pkgs) and not re.search(r"\.init(#\d+|\$\d+)?$", n)]
    def obligations(self):
        obs = []; ro = {}
        for c in self.copiers():
            short = c.split("/")[-1]
            try: own = [self.show(w) for w in self.fr.frame(c).writes if w[0][0] != "N"]; parts = self.shared(c)
            except Unsup as e: obs.append((short + ": frame", "unknown", str(e))); continue
            obs.append((short + ": writes nothing of the original", "failed" if own else "proved", ", ".join(own[:6])))
            for label, path, old in parts:
                bad = [n for n in old if not n[1] or n[0][0] != "P"]
                steps = {tail(n[1]) for n in old if n[1] and n[0][0] == "P"}
                whole = [s for s in steps if not isinstance(s[0], tuple)]
                for s in steps: ro.setdefault(s, []).append(short + " " + label)
                ok = not bad and not whole
                obs.append(("%s: %s is %s" % (short, label, "new" if not old else "shared" if ok else "the original's"), "proved" if ok else "failed", "" if ok else "it is " + ", ".join(self.show(n) for n in old)))
        unknown = set()
        for n in sorted(self.functions()):
            short = n.split("/")[-1]
            try: f = self.fr.frame(n)
            except Unsup as e: obs.append((short + ": frame", "unknown", str(e))); continue
            unknown |= f.unknown; bad = []
            for w, line in f.writes.items():
                if w[0][0] == "G": bad.append("line %s writes package-level %s" % (line, self.show(w))); continue
                for s in ro:
                    if any(w[1][k:k + len(s)] == s for k in range(len(w[1]) - len(s))): bad.append("line %s writes %s, shared by copies (%s)" % (line, self.show(w), ro[s][0])); break
            obs.append((short + ": writes nothing that copies share, no package-level variable", "failed" if bad else "proved", "; ".join(bad[:4])))
        return obs, sorted(ro), sorted(unknown)
