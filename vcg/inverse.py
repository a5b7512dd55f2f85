"""Inverse, Div, inverseExp, SetRandom: the machine-word domain with loops cut at their headers.

Inverse ends with a self check (v = u*z must be one, otherwise the exponentiation is used), so everything the binary GCD loops compute is
replaced by arbitrary words; what remains to be shown is that the self check is reached, that its operands are reduced, and that both of
its outcomes deliver an inverse."""
from asm import *

def set_ok(s, X):
    """false when the state says X = 0 although X >= 1 was assumed"""
    c = norm(s, X).const()
    return not (c is not None and c < 1)

def set_zero_words(s, Y):
    """record Y = 0 for a number given as a sum of non-negative terms"""
    Y = norm(s, Y)
    if Y.const() is not None: return Y.const() == 0
    if infeasible(s, [-Y]): return False
    for k, c in Y.m.items():
        if len(k) != 1 or c < 0 or s.dom.bounds[k[0]][0] < 0: raise Unsupported("number of unknown shape")
    return all(set_zero(s, LP.v(k[0])) for k in Y.m)

class InvExec(AsmExec):
    loose = True
    def __init__(self, prog, path, repo="/repo"):
        super().__init__(prog, path, repo)
        m, f = self.m, self.f
        self.stubs[f("approximate")] = self.c_approx
        self.stubs["io.ReadFull"] = self.s_readfull
        self.stubs["math/big.NewInt"] = lambda ex, st, a, i: self.bput(st, Ptr(self.new_obj("big", self.bigt(), "zero", st)), a[0])
        self.stubs["(*math/big.Int).BitLen"] = self.s_bitlen
        self.stubs["(*math/big.Int).Bit"] = self.s_bit
        self.stubs["(*math/big.Int).ModInverse"] = self.s_modinverse
        self.special = {m("Inverse"): self.v_inverse, m("Div"): self.v_div, m("inverseExp"): self.v_inverseexp, m("SetRandom"): self.v_setrandom,
                        m("MustSetRandom"): self.v_mustsetrandom, f("approximate"): self.v_approx}
    # ---- loops
    cut = False
    wlog = None
    def store(self, p, v, t, st):
        if self.wlog is not None and isinstance(p, (Ptr, WinPtr)): self.wlog.add(p.obj)
        return super().store(p, v, t, st)
    def enter_loop(self, fn, h, prev, env, st, items, outs, depth, L0, header0, backs0, exits0):
        if not self.cut:
            items.append(Item(h, prev, env, st)); return
        L = fn.loops[h]; W = set(); red = None
        mark = next(Obj.cnt)
        for rnd in range(12):
            s = st.copy()
            ph = self.phis(fn, h, prev, env, s)
            e2 = dict(env)
            for i in fn.blocks[h]["ins"]:
                if i["op"] != "phi": break
                e2[i["n"]] = self.any_of(s, i["t"])
            cand = [o for o in W if self.is_uint_obj(o)] if red is None else red
            for o in W: self.havoc(s, o)
            good = []
            for o in cand:
                if rnd == 0 or self.prove_red(st, self.V(st, Ptr(o))): good.append(o)
            red = good if W else None
            for o in good: self.assume_red(s, self.V(s, Ptr(o)))
            saved = self.wlog; self.wlog = set(); o2 = []
            hd = Item(h, None, e2, s, self.first_nonphi(fn, h))
            items2 = []
            backs, exits = [], []
            for (tgt, pv, en, sx) in self.run_block(fn, hd, items2, o2, depth):
                (exits if tgt not in L else items2).append((tgt, pv, en, sx) if tgt not in L else Item(tgt, pv, en, sx))
            b, x = self.explore(fn, items2, o2, depth, L, h); backs += b; exits += x
            new = {o for o in self.wlog if o.id < mark}
            if saved is not None: saved |= self.wlog
            self.wlog = saved
            if not new <= W:
                W |= new; red = None; continue
            bad = [o for o in (red or []) if any(not self.prove_red(sb, self.V(sb, Ptr(o))) for (_, _, sb) in backs)]
            if bad:
                red = [o for o in red if o not in bad]; 
                if not red: red = []
                continue
            outs += o2
            for (tgt, pv, en, sx) in exits:
                if L0 is not None and tgt not in L0: exits0.append((tgt, pv, en, sx))
                elif L0 is not None and tgt == header0: backs0.append((pv, en, sx))
                elif tgt in fn.loops and pv not in fn.loops[tgt]:
                    self.enter_loop(fn, tgt, pv, en, sx, items, outs, depth, L0, header0, backs0, exits0)
                else: items.append(Item(tgt, pv, en, sx))
            return
        raise Unsupported("loop in %s: no stable invariant" % fn.name)
    def call_fn(self, name, origin, binds, args, i, st, depth):
        """in the loose mode the outcomes of a call are merged: what it wrote becomes arbitrary, reduced where every outcome was reduced"""
        if not self.cut or self.wlog is None: return super().call_fn(name, origin, binds, args, i, st, depth)
        pre = st.copy(); saved = self.wlog; self.wlog = set(); mark = next(Obj.cnt)
        outs = super().call_fn(name, origin, binds, args, i, st, depth)
        W = self.wlog; self.wlog = saved | W
        rets = [o for o in outs if o.kind == "ret"]
        W = {o for o in W if o.id < mark}
        if len(rets) < (2 if W else 4): return outs
        vals = []
        for k in range(len(rets[0].vals)):
            vs = [o.vals[k] for o in rets]
            if all(isinstance(v, Ptr) and v.obj is vs[0].obj and v.path == vs[0].path for v in vs): vals.append(vs[0])
            elif all(isinstance(v, (LP, bool, Cond)) for v in vs):
                t = self.p.funcs[name].results[k] if hasattr(self.p.funcs[name], "results") else None
                if t is None: return outs
                nv = self.any_of(pre, t); vals.append(nv)
                if isinstance(nv, LP) and all(isinstance(v, LP) for v in vs):
                    N = 64 * self.n
                    if all(prove_ge(r.st, v) and prove_ge(r.st, N - v) for r, v in zip(rets, vs)): add_ge(pre, nv); add_ge(pre, N - nv)
            else: return outs
        for o in W:
            red = self.is_uint_obj(o) and all(self.prove_red(r.st, self.V(r.st, Ptr(o))) for r in rets)
            self.havoc(pre, o)
            if red: self.assume_red(pre, self.V(pre, Ptr(o)))
        return [o for o in outs if o.kind != "ret"] + [Out("ret", pre, vals)]
    def first_nonphi(self, fn, h):
        k = 0
        for i in fn.blocks[h]["ins"]:
            if i["op"] != "phi": break
            k += 1
        return k
    def is_uint_obj(self, o):
        u = self.p.ut(o.t) if o.t is not None else {}
        return u.get("k") == "array" and u.get("len") == self.n and self.p.ut(u["elem"]).get("name") == "uint64"
    def havoc(self, st, o):
        for k in [k for k in st.heap if k[0] is o]: st.heap.pop(k)
        u = self.p.ut(o.t)
        def go(t, path):
            u = self.p.ut(t)
            if u["k"] == "array":
                for k in range(u["len"]): go(u["elem"], path + (k,))
            elif u["k"] == "basic": st.heap[(o, path)] = self.any_of(st, t)
            elif self.is_big(t): st.heap[(o, path)] = fresh(st, "any", -BIG, BIG)
            else: raise Unsupported("havoc")
        go(o.t, ())
    def any_of(self, st, t):
        u = self.p.ut(t); w = self.width(t) if u["k"] == "basic" else None
        if w: return fresh(st, "any", 0, (1 << w) - 1)
        if u["k"] == "basic" and u["name"] in ("int", "int64"): return fresh(st, "any", -B // 2, B // 2 - 1)
        if u["k"] == "basic" and u["name"] == "bool": return Cond("ge", fresh(st, "anyb", -1, 0))
        raise Unsupported("loop variable of type %s" % u)
    # ---- loose arithmetic: any result in range
    def binop(self, op, x, y, t, xt, yt, st, ins):
        if self.cut and self.wlog is not None and op not in ("==", "!=", "<", "<=", ">", ">="):
            def c(v): return self.concrete(v, st)
            if isinstance(x, LP) and isinstance(y, LP) and (c(x) is None or c(y) is None):
                if self.width(t) is None and op in ("+", "-"):
                    try:
                        r = super().binop(op, x, y, t, xt, yt, st, ins)
                        if isinstance(r, LP): return r
                    except Unsupported: pass
                return self.any_of(st, t)
        return super().binop(op, x, y, t, xt, yt, st, ins)
    def unop(self, u, x, t, st, ins):
        if self.cut and self.wlog is not None and u in ("-", "^") and self.concrete(x, st) is None and isinstance(x, LP): return self.any_of(st, t)
        return super().unop(u, x, t, st, ins)
    def s_add64(self, ex, st, a, i):
        if self.cut and self.wlog is not None and any(self.concrete(v, st) is None for v in a): return (fresh(st, "any", 0, B - 1), fresh(st, "any", 0, 1))
        return super().s_add64(ex, st, a, i)
    def s_sub64(self, ex, st, a, i):
        if self.cut and self.wlog is not None and any(self.concrete(v, st) is None for v in a): return (fresh(st, "any", 0, B - 1), fresh(st, "any", 0, 1))
        return super().s_sub64(ex, st, a, i)
    def s_mul64(self, ex, st, a, i):
        if self.cut and self.wlog is not None and any(self.concrete(v, st) is None for v in a): return (fresh(st, "any", 0, B - 1), fresh(st, "any", 0, B - 1))
        return super().s_mul64(ex, st, a, i)
    def convert(self, x, a, b, st, ins):
        if self.cut and self.wlog is not None and isinstance(x, LP) and self.concrete(x, st) is None:
            ua, ub = self.p.ut(a), self.p.ut(b)
            if ub["k"] == "basic" and self.width(b) and not (self.width(a) and self.width(a) <= self.width(b)): return self.any_of(st, b)
            if ub["k"] == "basic" and ub["name"] in ("int", "int64") and self.width(a): return self.any_of(st, b)
        return super().convert(x, a, b, st, ins)
    def builtin(self, name, args, i, st):
        if name in ("max", "min"):
            res = [([], None)]; cur = args[0]; s = st
            outs = [(st, args[0])]
            for a in args[1:]:
                nxt = []
                for (s, c) in outs:
                    for tr, s2 in self.fork(s, self.binop(">=", c, a, i["t"], None, None, s, i)):
                        nxt.append((s2, c if tr == (name == "max") else a))
                outs = nxt
            return [Out("ret", s, [v]) for s, v in outs]
        return super().builtin(name, args, i, st)
    # ---- stubs
    def c_approx(self, ex, st, a, i):
        if not (prove_ge(st, 64 * self.n - a[1]) and prove_ge(st, a[1])): raise Unsupported("precondition: bit length within the words")
        return fresh(st, "approx", 0, B - 1)
    def s_readfull(self, ex, st, a, i):
        s = a[1]; n = self.concrete(s.len, st)
        if n is None: raise Unsupported("ReadFull of unknown length")
        s2 = st.copy()
        for k in range(n):
            st.heap[(s.obj, self.flat(s.path + (("*", s.off + LP.c(k)),), st))] = fresh(st, "rnd", 0, 255)
            if self.wlog is not None: self.wlog.add(s.obj)
        return [Out("ret", st, [LP.c(n), NIL]), Out("ret", s2, [LP.c(0), OpaqueV("error")])]
    def s_bitlen(self, ex, st, a, i):
        c = self.bget(st, a[0]).const()
        if c is None: raise Unsupported("BitLen")
        return LP.c(c.bit_length())
    def s_modinverse(self, ex, st, a, i):
        """big.Int.ModInverse(g, n) for the prime modulus: nil with the receiver unchanged for g = 0 mod n, the inverse in [0,n) otherwise"""
        if self.bget(st, a[2]).const() != self.q: raise Unsupported("ModInverse for another modulus")
        Y = self.bget(st, a[1]); res = []
        if not (prove_ge(st, Y) and prove_ge(st, self.q - 1 - Y, True)): raise Unsupported("ModInverse of a number not shown to be in [0,q)")
        s = st.copy()
        if not self.scaled_nonzero(st, Y) and set_zero_words(s, Y): res.append(Out("ret", s, [NIL]))
        s = st.copy()
        if not infeasible(s, [Y - 1]):
            add_ge(s, norm(s, Y - 1)); ws = self.fresh_elem(s, "minv", self.inv_of(s, norm(s, Y)) * (self.Ri * self.Ri % self.q)); Z = LP({})
            for k, w in enumerate(ws): Z = Z + w * (1 << (64 * k))
            self.bput(s, a[0], Z); res.append(Out("ret", s, [a[0]]))
        return res
    def scaled_nonzero(self, st, Y):
        """Y is congruent to a unit times a reduced number already known to be nonzero, so it is not 0"""
        e = self.modq(st, Y)
        for X in st.ghost.get("nz", ()):
            f = self.modq(st, X)
            if set(f.m) == set(e.m) and f.m and self.prove_red(st, X) and prove_ge(st, X - 1, True):
                k0 = next(iter(f.m)); r = e.m[k0] * pow(f.m[k0], -1, self.q) % self.q
                if all(e.m[k] == r * f.m[k] % self.q for k in f.m): return True
        return False
    def s_bit(self, ex, st, a, i):
        c = self.bget(st, a[0]).const(); k = self.concrete(a[1], st)
        if c is None or k is None: raise Unsupported("Bit")
        return LP.c(c >> k & 1)
    # ---- inverses as unknown scalars with a rewriting rule
    def inv_of(self, st, Y):
        """an unknown number iota with iota*V(y) = R^2 (mod q), for V(y) != 0"""
        Y = self.modq(st, Y); inv = dict(st.ghost.get("inv", {})); k = Y.key()
        if k not in inv:
            v = fresh(st, "inv", 0, self.q - 1); inv[k] = (v, Y); st.ghost["inv"] = inv
        return inv[k][0]
    def congr(self, s, a, b):
        r = settle_all(s, a - b, self.q)
        for _ in range(50):
            if not r.m: return True
            hit = False
            for (iv, Y) in s.ghost.get("inv", {}).values():
                x = next(iter(iv.vars())); Y = settle_all(s, Y, self.q)
                lead = [k for k in Y.m if len(k) == 1]
                if not lead: continue
                y0 = min(lead); cy = Y.m[y0]
                for k in list(r.m):
                    kk = list(k)
                    if x in kk and y0[0] in kk:
                        kk.remove(x); kk.remove(y0[0]); c = r.m[k] * pow(cy, -1, self.q)
                        rest = LP({tuple(sorted(kk)): c})
                        r = r - LP({k: r.m[k]}) + rest * (LP.c(self.R * self.R) - (Y - LP({y0: cy})) * LP.v(x)); hit = True
                        r = settle_all(s, r, self.q); break
                if hit: break
            if not hit: break
        return not r.m
    def nonzero(self, st, p):
        """is the element certainly nonzero / certainly zero?"""
        V = self.V(st, p)
        if prove_ge(st, V - 1, True): return True
        if norm(st, V).const() == 0: return False
        return None
    def call_contract(self, c, nm, args, i, st, depth):
        if c.get("special") == "inverse":
            k = 1 if nm == self.m("Inverse") else 1
            a = args[1]
            if isinstance(a, ArrV):
                o = self.new_obj("arg", self.uint, "zero", st); self.put_words(st, Ptr(o), a.e); a = Ptr(o)
            Y = self.V(st, a)
            if not self.prove_red(st, Y): raise Unsupported("precondition: argument of %s not reduced" % nm)
            res = []
            for z in (True, False):
                s = st.copy()
                if z:
                    if infeasible(s, [Y, -Y]): continue
                    ok = all(set_zero(s, w) for w in self.words(s, a))
                    if not ok: continue
                    self.put_words(s, args[0], [LP.c(0)] * self.n)
                else:
                    if infeasible(s, [Y - 1]): continue
                    add_ge(s, norm(s, Y - 1)); ws = self.fresh_elem(s, "inv", self.inv_of(s, norm(s, Y)))
                    self.put_words(s, args[0], ws)
                res.append(Out("ret", s, [args[0]]))
            return res
        return super().call_contract(c, nm, args, i, st, depth)
    def contract_for(self, name):
        if name != self.verifying and name in (self.m("Inverse"), self.m("inverseExp")): return dict(special="inverse", params=["W", "E"], outs={})
        return super().contract_for(name)

    # ---- verification of the individual functions
    def verify(self, nm):
        f = self.special.get(nm)
        if f is None: return super().verify(nm)
        fn = self.p.funcs.get(nm)
        if fn is None or not fn.blocks: return None
        res = []; self.verifying = nm; self.curfn = nm; self.cut = False; short = nm.split(".")[-1]
        try: f(fn, res, short)
        except Unsupported as e: res.append((short, "undecided", str(e)))
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            import traceback
            res.append((short, "undecided", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:-1])))
        finally: self.cut = False; self.wlog = None; self.verifying = None
        return res
    def elem(self, st, name, red=True):
        o = Obj(name, self.uint, "sym"); p = Ptr(o); v = self.V(st, p)
        if red: self.assume_red(st, v)
        return p, v
    def ob(self, res, name, ok, why=""): res.append((name, "proved" if ok else "failed", why))
    def v_inverse(self, fn, res, lab):
        for alias in (False, True):
            l = lab + ("[alias]" if alias else "")
            # x = 0
            st = self.new_state(); x = Ptr(Obj("x", self.uint, "sym")); self.put_words(st, x, [LP.c(0)] * self.n)
            z = x if alias else self.elem(st, "z", False)[0]
            for o in self.run_fn(fn, [z, x], [], st):
                if o.kind == "panic": self.ob(res, l + ": does not panic", infeasible(o.st, [], True)); continue
                self.ob(res, l + ": the inverse of zero is zero", norm(o.st, self.V(o.st, z)).const() == 0)
            # x != 0
            st = self.new_state(); x, X = self.elem(st, "x"); z = x if alias else self.elem(st, "z", False)[0]
            add_ge(st, X - 1); xs = self.words(st, x); st.ghost["nz"] = (X,)
            self.cut = True
            for o in self.run_fn(fn, [z, x], [], st):
                s = o.st
                if o.kind == "panic": self.ob(res, l + ": does not panic", infeasible(s, [], True)); continue
                if infeasible(s, [], True) or not set_ok(s, X): continue
                Z = self.V(s, z)
                self.ob(res, l + ": result is reduced", self.prove_red(s, Z))
                self.ob(res, l + ": z*x = 1", self.check_inv(s, Z, X))
                self.ob(res, l + ": returns its receiver", isinstance(o.vals[0], Ptr) and o.vals[0].obj is z.obj)
                if not alias: self.ob(res, l + ": leaves x unchanged", all(not norm(s, a - b).m for a, b in zip(self.words(s, x), xs)))
            self.cut = False
    def fresh_elem(self, st, name, expr):
        ws = super().fresh_elem(st, name, expr)
        Z = LP({})
        for k, w in enumerate(ws): Z = Z + w * (1 << (64 * k))
        st.ghost["facts"] = st.ghost.get("facts", ()) + ((Z, self.modq(st, expr)),)
        return ws
    def check_inv(self, s, Z, X):
        goal = Z * X - self.R * self.R
        if self.congr(s, Z * X, LP.c(self.R * self.R)): return True
        # through the self check: some product is known to be one and congruent to z*x/R
        for (F, e) in s.ghost.get("facts", ()):
            F = norm(s, F)
            if F.const() is not None and F.const() % self.q == self.R % self.q:
                if self.congr(s, Z * X * self.Ri, e) or not settle_all(s, Z * X * self.Ri - e, self.q).m: return True
        return False
    def v_inverseexp(self, fn, res, lab):
        """z = x^(q-2): executed with exponents, the exponent is a constant"""
        from powdom import check_const_exp
        check_const_exp(self, fn, res, lab, self.q - 2)
    def v_div(self, fn, res, lab):
        for part in ({0: 0, 1: 1, 2: 2}, {0: 0, 1: 0, 2: 2}, {0: 0, 1: 1, 2: 0}, {0: 0, 1: 1, 2: 1}, {0: 0, 1: 0, 2: 0}):
            l = lab + ("" if len(set(part.values())) == 3 else "[alias %s]" % part)
            st = self.new_state(); ps = {}
            for h in sorted(set(part.values())): ps[h] = self.elem(st, "a%d" % h)
            a = [ps[part[k]][0] for k in range(3)]; X, Y = ps[part[1]][1], ps[part[2]][1]
            for o in self.run_fn(fn, a, [], st):
                s = o.st
                if o.kind == "panic": self.ob(res, l + ": does not panic", False); continue
                Z = self.V(s, a[0]); yz = norm(s, Y)
                if yz.const() == 0: self.ob(res, l + ": division by zero gives zero", norm(s, Z).const() == 0)
                else: self.ob(res, l + ": z*y = x", self.congr(s, Z * Y, X * self.R))
                self.ob(res, l + ": result is reduced", self.prove_red(s, Z))
    def v_setrandom(self, fn, res, lab):
        st = self.new_state(); z, _ = self.elem(st, "z", False); self.cut = True
        outs = self.run_fn(fn, [z], [], st); self.cut = False
        for o in outs:
            s = o.st
            if o.kind == "panic": self.ob(res, lab + ": does not panic", infeasible(s, [], True)); continue
            v, err = (o.vals[0].e if len(o.vals) == 1 else o.vals)
            if err is NIL:
                self.ob(res, lab + ": result is reduced", self.prove_red(s, self.V(s, z)))
                self.ob(res, lab + ": returns its receiver", isinstance(v, Ptr) and v.obj is z.obj)
        self.ob(res, lab + ": can succeed", any(o.kind == "ret" and (o.vals[0].e if len(o.vals) == 1 else o.vals)[1] is NIL for o in outs))
    def v_mustsetrandom(self, fn, res, lab):
        st = self.new_state(); z, _ = self.elem(st, "z", False); self.cut = True
        outs = self.run_fn(fn, [z], [], st); self.cut = False; ok = False
        for o in outs:
            if o.kind == "panic": continue     # documented: panics when the system generator fails
            ok = True
            self.ob(res, lab + ": result is reduced", self.prove_red(o.st, self.V(o.st, z)))
        self.ob(res, lab + ": can succeed", ok)
    def v_approx(self, fn, res, lab):
        self.stubs.pop(self.f("approximate"), None)
        try:
            for nb in range(0, 64 * self.n + 1):
                st = self.new_state(); x, _ = self.elem(st, "x", False); self.cut = True; self.wlog = set()
                outs = self.run_fn(fn, [x, LP.c(nb)], [], st); self.cut = False; self.wlog = None
                ok = all(o.kind == "ret" for o in outs)
                if not ok or nb == 64 * self.n: self.ob(res, lab + ": no index out of range for any bit length", ok)
        finally: self.stubs[self.f("approximate")] = self.c_approx
