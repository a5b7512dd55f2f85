"""SSA program as printed by gofront, with the small queries the executor needs."""
import json

class Fn:
    __slots__ = ("name", "d", "params", "freevars", "blocks", "results", "external", "pkg", "loops", "inloop", "short", "_defs")
    def __init__(self, d):
        self.d = d; self.name = d["name"]; self.short = d["short"]; self.params = d["params"]; self.freevars = d["freevars"]
        self.blocks = d.get("blocks", []); self.results = d["results"]; self.external = d.get("external", False); self.pkg = d.get("pkg", "")
        self.loops = None; self._defs = None
    def defs(self):
        """value name -> instruction"""
        if self._defs is None:
            self._defs = {}
            for b in self.blocks:
                for i in b["ins"]:
                    if "n" in i: self._defs[i["n"]] = i
        return self._defs
    def analyse(self):
        """natural loops: header -> set of blocks; ordered list of headers (outermost first, program order)"""
        if self.loops is not None: return
        n = len(self.blocks)
        succ = [b["succs"] for b in self.blocks]; pred = [b["preds"] for b in self.blocks]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen: seen.add(y); stack.append((y, iter(succ[y]))); break
            else: order.append(x); stack.pop()
        rpo = order[::-1]
        dom = {x: set(rpo) for x in rpo}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in rpo:
                if x == 0: continue
                ps = [dom[p] for p in pred[x] if p in dom]
                nd = set.intersection(*ps) | {x} if ps else {x}
                if nd != dom[x]: dom[x] = nd; ch = True
        loops = {}
        for x in rpo:
            for y in succ[x]:
                if y in dom[x]:
                    L = loops.setdefault(y, {y}); work = [x]
                    while work:
                        w = work.pop()
                        if w in L: continue
                        L.add(w); work.extend(p for p in pred[w] if p in dom)
        # order loops by source line of the header's first instruction carrying a line, falling back to rpo
        pos = {h: rpo.index(h) for h in loops}
        self.loops = dict(sorted(loops.items(), key=lambda kv: (len([1 for h, L in loops.items() if kv[0] in L and h != kv[0]]), pos[kv[0]])))
        self.inloop = {}
        for b in range(n): self.inloop[b] = [h for h, L in self.loops.items() if b in L]
    def loop_order(self):
        """headers in program order with nesting depth"""
        self.analyse()
        return list(self.loops)

class Prog:
    def __init__(self, path):
        d = json.load(open(path)); self.types = d["types"]
        self.funcs = {n: Fn(f) for n, f in d["funcs"].items()}
        self.globals = {g["name"]: g for g in d["globals"]}
        self._z = {}
    def t(self, i): return self.types[i]
    def under(self, i):
        t = self.types[i]
        while t["k"] == "named": i = t["under"]; t = self.types[i]
        return i
    def ut(self, i): return self.types[self.under(i)]
    def find(self, suffix):
        r = [f for n, f in self.funcs.items() if n.endswith(suffix)]
        return r
    def by(self, name): return self.funcs.get(name)
