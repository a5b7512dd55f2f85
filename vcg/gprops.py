"""Properties decided by contracts on the generic code: which contracts, which lemmas."""
import os, re, subprocess, importlib, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODP = "github.com/sp301415/ringo-snark/"
# property: ([(module, [regular expressions on contract names])], [Lean files])
GP = {
    "C06": ([("cons_bigpoly", [r"VecTo$", r"\.NewPoly$", r"CopyFrom$", r"Clear$", r"Rank$", r"baseOperator\[E\]\)\.(Add|Sub|Mul|Neg|ScalarMul)", r"newBaseOperator\$1"])], []),
    "C08": ([("cons_bigpoly", [r"\.Evaluate$", r"QuoRemByVanishing$", r"copyVecTo$", r"\.NewPoly$", r"CopyFrom$", r"Rank$"])], ["horner.lean"]),
    "C09": ([("cons_bigpoly", [r"\.autTo$", r"\.autNTTTo$", r"\.AutTo$", r"\.Aut$", r"bitReverseInPlace$", r"copyVecTo$"])], ["aut.lean", "bitrev.lean"]),
    "C10": ([("cons_bigpoly", [r"ModSwitchTo$", r"ModSwitch$"])], ["aut.lean"]),
    "C07": ([("cons_ntt", [r"InPlace", r"Transformer\[E\]\)\.", r"\.(Inv)?NTT(To)?$", r"copyVecTo$", r"scalarMulVecTo$", r"bigpoly\.New\w+$"])], ["ntt.lean", "bitrev.lean", "powers.lean"]),
    "C12": ([("cons_buckler", [r"decomposeBase$", r"decomposeBig$"])], ["digits.lean"]),
    "C11": ([("cons_buckler", [r"modInverse$", r"Checker\[E\]\)\.Trans", r"buckler\.[nN]ew\w*Checker$"])], ["linear.lean", "ntt.lean", "bitrev.lean"]),
    "C13": ([("cons_check", [r"Verifier\[E\]\)\.(evalCircuit|arithCheck|linCheck)$"]), ("cons_enc", [r"Encoder"]), ("cons_prove", [r"Prover\[E\]\)\.evalCircuit$"])], ["batch.lean", "ntt.lean"]),
    "C14": ([("cons_check", [r"Verifier\[E\]\)\.(evalCircuit|sumCheck)$"])], ["batch.lean"]),
    "C21": ([("cons_csprng", [r"csprng\."])], []),
    "C23": ([], []),
    "C22": ([("cons_modulus", [r"findModulus$"])], ["pow2.lean"]),
    "C18": ([("cons_jindo", [r"jindo\.(divMod64|toBalanced|setCoeffSigned|newRNSReconstructor|newEncodeParameters)$", r"\.(baseEncodeTo|DecodeTo|reconstructTo|setBigCoeffTo)$"])], ["encode.lean"]),
    "C19": ([("cons_jindo", [r"jindo\.(leftVec|rightVec|isPolyVec)$", r"\.isWellFormed$"]), ("cons_verify", [r"\.verify(Norm|OuterCommitment|InnerCommitment|Consistency|Eval)$", r"Encoder\[E\]\)\.(baseEncodeTo|encodeTo|DecodeTo)$"])], ["powers.lean", "verify.lean"]),
    "C20": ([("cons_jindo", [r"jindo\.isPolyVec$", r"\.isWellFormed$"])], []),
    "C03": ([("cons_bigpoly", [r"bignum\.Exp$"])], ["powers.lean", "primes.lean"]),
}
def tasks(prop): return [dict(kind="gen", builds=["main"], prop=prop)] if prop in GP else []

def names(prop):
    out = []
    for mod, pats in GP[prop][0]:
        m = importlib.import_module(mod)
        for n in m.CONS:
            if any(re.search(p, n) for p in pats) and not m.CONS[n].trusted: out.append((mod, n))
    return out
def expand(PROGS, t, repo):
    out = []
    P = PROGS[t["builds"][0]]
    for mod, n in names(t["prop"]):
        con = importlib.import_module(mod).CONS[n]
        exported = re.search(r"\.[A-Z]\w*$", n) is not None
        if n not in P.funcs and con.name not in P.funcs and not exported: continue      # an internal helper that no longer exists has no callers either
        out.append(dict(kind="gen", b=t["builds"][0], mod=mod, fn=n, name=n.replace(MODP, ""), cost=con.cost, limit=con.limit))
    if t["prop"] == "C23": out.append(dict(kind="gen", frames=["jindo", "csprng"], b=t["builds"][0], name="frames of the commitment scheme and the samplers", fn="frames", mod="frames", cost=5, limit=300))
    for f in GP[t["prop"]][1]: out.append(dict(kind="lean", file=f, name="lemmas " + f, cost=30, limit=400))
    return out
def lean(f):
    p = os.path.join(V, "lean", f)
    src = open(p).read()
    th = re.findall(r"^theorem\s+(\S+)", src, re.M)
    if re.search(r"\b(sorry|admit|axiom|native_decide)\b", src): return [(t, "failed", "sorry or axiom in " + f) for t in th]
    r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=380, env=dict(os.environ, HOME="/root"))
    out = (r.stdout + r.stderr)
    ok = r.returncode == 0 and "error" not in out and "sorry" not in out
    extra = []
    if f == "primes.lean":
        from field import MODULI
        got = set(map(int, re.findall(r"^theorem \S+ : Nat\.Prime (\d+) :=", src, re.M)))
        extra = [("the modulus of %s is one of these primes" % k, "proved" if ok and q in got else "failed", "") for k, q in MODULI.items()]
    return extra + [("Lean: " + t, "proved" if ok else "failed", out[-800:] if not ok else "") for t in th]
def prove(PROGS, t, repo):
    if t["kind"] == "lean": return dict(obls=lean(t["file"]), functions=[], backends=["Lean 4 with Mathlib"])
    P = PROGS[t["b"]]
    if t.get("frames"):
        import frames
        C = frames.Copies(P, t["frames"]); obls, ro, unknown = C.obligations()
        if not C.copiers(): obls.append(("copies: a SafeCopy exists", "failed", "no function makes copies any more"))
        return dict(obls=obls, functions=[n.replace(MODP, "") for n in C.functions()], backends=["frame inference over access paths (vcg/frames.py)"],
                    assumed=["shared by copies, and found never written: " + ", ".join("%s.%s" % (s[0][0].split("/")[-1], s[0][1]) for s in ro), "calls whose frame is taken to be all they are given: " + (", ".join(unknown) or "none")])
    import gen
    m = importlib.import_module(t["mod"])
    con = m.CONS[t["fn"]]
    if t["fn"] not in P.funcs and con.name not in P.funcs: return dict(obls=[(t["name"], "undecided", "the function under contract does not exist any more")])
    ex = gen.GenExec(P); ex.set_cons(m.CONS); ex.hooks = dict(getattr(m, "HOOKS", {}))
    obls = ex.verify(t["fn"])
    return dict(obls=[(a, b, str(c)) for a, b, c in obls], functions=[t["name"]], inlined=sorted(ex.inlined), contracts=sorted(ex.used_contracts), stubs=sorted(ex.used_stubs),
                assumed=sorted(ex.assumed) + ex.loopnotes, queries=ex.stats["queries"], solver_s=ex.stats["time"], backends=["z3 %s (ground and trigger-instantiated first-order arithmetic)" % __import__("z3").get_version_string(), "polynomial normal forms for field terms"])
