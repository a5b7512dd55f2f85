"""The scalar amd64 assembly of the field packages, executed in the machine-word domain (Plan 9 syntax, preprocessor expanded).

Only the instructions the field routines use are known; anything else is reported as undecided."""
import os, re
from field import *

class AsmProg:
    def __init__(self, path):
        self.defs = {}; self.fns = {}
        cur = None
        txt = open(path, encoding="utf8").read()
        txt = re.sub(r"//[^\n]*", "", txt); txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
        txt = txt.replace("\\\n", "\x00")
        for ln in txt.split("\n"):
            s = ln.strip()
            if not s: continue
            if s.startswith("#define"):
                m = re.match(r"#define\s+(\w+)(\(([^)]*)\))?\s*(.*)$", s, flags=re.S)
                self.defs[m.group(1)] = ([a.strip() for a in (m.group(3) or "").split(",") if a.strip()], m.group(2) is not None, m.group(4)); continue
            if s.startswith("#"): continue
            m = re.match(r"TEXT\s+·(\w+)\(SB\)", s)
            if m: cur = self.fns.setdefault(m.group(1), []); continue
            if cur is None: continue
            for part in self.expand(s): cur.append(part)
    def expand(self, s, depth=0):
        if depth > 20: raise Unsupported("macro depth")
        out = []
        for p in re.split(r"[;\x00\n]", s):
            p = p.strip()
            if not p: continue
            m = re.match(r"(\w+)\s*\((.*)\)$", p)
            if m and m.group(1) in self.defs and self.defs[m.group(1)][1]:
                ps, _, body = self.defs[m.group(1)]; args = self.split(m.group(2))
                sub = dict(zip(ps, args))
                body = re.sub(r"(?<![\w·])(\w+)(?!\w)", lambda k: sub.get(k.group(1), k.group(1)), body)
                out += self.expand(body, depth + 1); continue
            if p in self.defs: out += self.expand(self.defs[p][2], depth + 1); continue
            out.append(p)
        return out
    @staticmethod
    def split(s):
        r, d, cur = [], 0, ""
        for ch in s:
            if ch == "," and d == 0: r.append(cur.strip()); cur = ""; continue
            d += ch == "("; d -= ch == ")"; cur += ch
        if cur.strip(): r.append(cur.strip())
        return r

class Flags:
    __slots__ = ("cf", "of", "chain", "cmp")
    def __init__(self, cf=None, of=None, chain=None, cmp=None): self.cf, self.of, self.chain, self.cmp = cf, of, chain, cmp

class AsmExec(FieldExec):
    def __init__(self, prog, path, repo="/repo"):
        super().__init__(prog, path)
        self.asm = {}
        inc = os.path.join(repo, path, "element_amd64.s")
        self.asm_fns = set()
        if os.path.exists(inc):
            m = re.search(r'#include\s+"([^"]+)"', open(inc, encoding="utf8").read())
            self.asm = AsmProg(os.path.join(repo, path, m.group(1))).fns
    def has_asm(self, nm):
        f = self.p.funcs.get(nm)
        return f is not None and not f.blocks and nm.startswith(self.pkg + ".") and nm.split(".")[-1] in self.asm
    def verify(self, nm):
        if self.has_asm(nm):
            fn = self.p.funcs[nm]
            if not fn.blocks: fn.blocks = ["asm"]
        return super().verify(nm)
    def run_fn(self, fn, args, binds, st, depth=0):
        if fn.blocks == ["asm"]: return self.run_asm(fn, args, st)
        return super().run_fn(fn, args, binds, st, depth)
    def run_asm(self, fn, args, st):
        self.asm_fns.add(fn.name)
        code = self.asm[fn.name.split(".")[-1]]
        labels = {l[:-1]: k for k, l in enumerate(code) if re.match(r"^\w+:$", l)}
        argoff = {8 * k: a for k, a in enumerate(args)}
        outs = []; work = [(0, {}, {}, Flags(), st)]; steps = 0
        while work:
            pc, regs, stack, fl, s = work.pop()
            while True:
                steps += 1
                if steps > 200000: raise Unsupported("step limit in assembly")
                if pc >= len(code): raise Unsupported("fell off the end of the assembly")
                l = code[pc]; pc += 1
                if re.match(r"^\w+:$", l): continue
                m = re.match(r"(\w+)\s*(.*)$", l); op = m.group(1); ops = AsmProg.split(m.group(2))
                if op in ("NO_LOCAL_POINTERS", "PCALIGN"): continue
                if op == "RET": outs.append(Out("ret", s, [])); break
                R = lambda o: self.rd(o, regs, stack, argoff, s)
                W = lambda o, v: self.wr(o, v, regs, stack, s)
                if op == "MOVQ": W(ops[1], R(ops[0]))
                elif op in ("ADDQ", "ADCQ", "ADCXQ", "ADOXQ"):
                    a, b = self.w(R(ops[0]), s), self.w(R(ops[1]), s)
                    c = LP({}) if op == "ADDQ" else (fl.of if op == "ADOXQ" else fl.cf)
                    if c is None: raise Unsupported("undefined flag")
                    v, co = carry_of(s, norm(s, a + b + norm(s, c)), "c", self.flag_dead(code, pc, "of" if op == "ADOXQ" else "cf"))
                    W(ops[1], v)
                    if op == "ADOXQ": fl = Flags(fl.cf, co)
                    elif op == "ADCXQ": fl = Flags(co, fl.of)
                    else: fl = Flags(co, None)
                elif op in ("SUBQ", "SBBQ"):
                    a, b = self.w(R(ops[0]), s), self.w(R(ops[1]), s)
                    c = LP({}) if op == "SUBQ" else fl.cf
                    if c is None: raise Unsupported("undefined flag")
                    chain = (list(fl.chain) if op == "SBBQ" and fl.chain is not None else [] if op == "SUBQ" else None)
                    t = norm(s, b - a - norm(s, c)); lo, hi = interval(s, t)
                    if lo >= 0: v, bo = t, LP({})
                    else:
                        bo = fresh(s, "b", 0, 1); s.dom.defs[next(iter(bo.vars()))] = (t + bo * B, 0, B - 1)
                        v = word(s, t + bo * B)
                    if chain is not None: chain.append((b, a))
                    W(ops[1], v); fl = Flags(bo, None, chain)
                elif op == "XORQ":
                    if ops[0] != ops[1]: raise Unsupported("xor")
                    W(ops[0], LP({})); fl = Flags(LP({}), LP({}))
                elif op == "MULXQ":
                    h, lo = self.s_mul64(self, s, [self.w(R("DX"), s), self.w(R(ops[0]), s)], None)
                    W(ops[1], lo); W(ops[2], h)
                elif op == "IMULQ":
                    a, b = self.w(R(ops[0]), s), self.w(R(ops[1]), s)
                    W(ops[1], self.binop("*", a, b, self.u64(), None, None, s, None)); fl = Flags()
                elif op == "CMPB":
                    fl = Flags(None, None, None, ops)
                elif op in ("JNE", "JEQ") and fl.cmp and "supportAdx" in fl.cmp[0] and fl.cmp[1] == "$1":
                    s2 = s.copy()
                    tgt = labels[ops[0]]
                    work.append((tgt, dict(regs), dict(stack), Flags(), s2)); fl = Flags()
                elif op == "JMP": pc = labels[ops[0]]
                elif op in ("CMOVQCS", "CMOVQCC", "JCC", "JCS"):
                    if fl.cf is None: raise Unsupported("undefined flag")
                    cf = norm(s, fl.cf); alts = []
                    if cf.const() is not None: alts = [(cf.const(), s)]
                    else:
                        for k in (0, 1):
                            s2 = s.copy()
                            if fl.chain is not None:
                                D = LP({})
                                for j, (x, y) in enumerate(fl.chain): D = D + (x - y) * (1 << (64 * j))
                                l2 = norm(s2, D if k == 0 else -D - 1)
                                if infeasible(s2, [l2]): continue
                                add_ge(s2, l2); s2.dom.pfacts.append(norm(s2, l2))
                            else:
                                if infeasible(s2, [cf - k] if k else [-cf]): continue
                            if not set_zero(s2, cf - k): continue
                            alts.append((k, s2))
                    nxt = []
                    for k, s2 in alts:
                        r2, k2 = dict(regs), dict(stack)
                        taken = (k == 1) == op.endswith("CS")
                        p2 = pc
                        if op.startswith("J"):
                            if taken: p2 = labels[ops[0]]
                        elif taken: self.wr(ops[1], self.rd(ops[0], r2, k2, argoff, s2), r2, k2, s2)
                        nxt.append((p2, r2, k2, Flags(LP.c(k), fl.of, fl.chain), s2))
                    work += nxt
                    break
                elif op == "CALL":
                    nm = self.pkg + "." + re.match(r"·(\w+)\(SB\)", ops[0]).group(1)
                    if nm not in self.mc or nm == self.verifying: raise Unsupported("call to " + nm)
                    n = len(self.mc[nm]["params"])
                    self.used_contracts.add(nm)
                    self.call_contract(self.mc[nm], nm, [stack[("sp", 8 * k)] for k in range(n)], None, s, 0)
                    regs = {}; fl = Flags()
                else: raise Unsupported("instruction " + l)
        return outs
    RCF = ("ADCQ", "ADCXQ", "SBBQ", "CMOVQCS", "CMOVQCC", "JCC", "JCS"); WCF = ("ADDQ", "SUBQ", "XORQ", "IMULQ", "RET", "CALL", "CMPB")
    ROF = ("ADOXQ",); WOF = ("ADDQ", "ADCQ", "SUBQ", "SBBQ", "XORQ", "IMULQ", "RET", "CALL", "CMPB")
    def flag_dead(self, code, pc, which):
        rd, wr = (self.RCF, self.WCF) if which == "cf" else (self.ROF, self.WOF)
        for l in code[pc:]:
            op = l.split()[0]
            if op in rd: return False
            if op in wr: return True
            if op.startswith("J") or l.endswith(":"): return False
        return True
    def w(self, v, st):
        if not isinstance(v, LP): raise Unsupported("word expected")
        return norm(st, v)
    def rd(self, o, regs, stack, argoff, st):
        if o.startswith("$"):
            k = o[1:]
            if k.startswith("const_"):
                g = self.p.globals.get(self.pkg + "." + k[6:])
                if g is None or "const" not in g: raise Unsupported("constant " + k)
                return LP.c(int(g["const"]) % B)
            return LP.c(int(k, 0) % B)
        m = re.match(r"^(\w+)\+(\d+)\(FP\)$", o)
        if m: return argoff[int(m.group(2))]
        m = re.match(r"^·(\w+)\+(\d+)\(SB\)$", o)
        if m:
            g = self.init_globals().get((m.group(1), (int(m.group(2)) // 8,)))
            if g is None or int(m.group(2)) % 8: raise Unsupported("global " + o)
            return LP.c(g)
        m = re.match(r"^(-?\d*)\((\w+)\)$", o)
        if m and m.group(2) == "SP": return stack[("sp", int(m.group(1) or 0))]
        m2 = re.match(r"^(\w+)-(\d+)\(SP\)$", o)
        if m2:
            if ("loc", int(m2.group(2))) not in stack: raise Unsupported("uninitialised stack slot")
            return stack[("loc", int(m2.group(2)))]
        if m:
            p = regs.get(m.group(2)); k = int(m.group(1) or 0)
            if not isinstance(p, Ptr) or k % 8 or not 0 <= k // 8 < self.n: raise Unsupported("memory operand " + o)
            return self.load(Ptr(p.obj, tuple(p.path) + (k // 8,)), self.u64(), st)
        if o in regs: return regs[o]
        raise Unsupported("operand " + o)
    def wr(self, o, v, regs, stack, st):
        m2 = re.match(r"^(\w+)-(\d+)\(SP\)$", o)
        if m2: stack[("loc", int(m2.group(2)))] = v; return
        m = re.match(r"^(-?\d*)\((\w+)\)$", o)
        if m and m.group(2) == "SP": stack[("sp", int(m.group(1) or 0))] = v; return
        if m:
            p = regs.get(m.group(2)); k = int(m.group(1) or 0)
            if not isinstance(p, Ptr) or k % 8 or not 0 <= k // 8 < self.n: raise Unsupported("memory operand " + o)
            self.store(Ptr(p.obj, tuple(p.path) + (k // 8,)), v, self.u64(), st); return
        if not re.match(r"^[A-Z][A-Z0-9]+$", o): raise Unsupported("operand " + o)
        regs[o] = v
