"""Which contracts and harness units decide which property."""
import os, sys
MODP = "github.com/sp301415/ringo-snark/"
FIELDS = ["buckler/internal/zp110", "buckler/internal/zp220", "buckler/internal/zp440", "buckler/internal/zp880", "jindo/internal/zp", "examples/mult/zp", "examples/bfv/zp"]
ASM = ["buckler/internal/zp110", "buckler/internal/zp440", "jindo/internal/zp", "examples/bfv/zp"]
FPK = ["./buckler/internal/...", "./jindo/internal/...", "./examples/mult/zp", "./examples/bfv/zp"]
BUILDS = {
    "portable": ("purego", FPK),
    "amd64": ("", FPK),
    "main": ("", ["./math/...", "./buckler", "./jindo", "./jindo-modulus", "github.com/tuneinsight/lattigo/v6/ring"]),
}
FN = {
    "C01": ["Add", "Sub", "Neg", "Double", "Halve", "Select", "MulBy3", "MulBy5", "MulBy13", "Butterfly", "_butterflyGeneric", "reduce", "_reduceGeneric", "smallerThanModulus", "Set", "SetZero"],
    "C02": ["Mul", "Square", "mul", "_mulGeneric", "fromMont", "_fromMontGeneric", "toMont", "SetOne", "One", "SetUint64", "SetInt64", "NewUint", "Bits", "montReduceSigned", "smallerThanModulus", "reduce", "_reduceGeneric"],
    "C03": ["montReduceSigned", "Mul", "_mulGeneric", "mul", "Square", "smallerThanModulus"],
    "C04": ["SetBigInt", "setBigInt", "toBigInt", "BigInt", "ToBigIntRegular", "Slice", "PutElement", "Element", "Bytes", "Marshal", "SetBytes", "Unmarshal", "SetBytesCanonical", "Bits", "New", "Limb", "Uint64", "fromMont", "_fromMontGeneric", "toMont", "smallerThanModulus"],
    "C05": ["IsZero", "IsOne", "Equal", "NotEqual", "FitsOnOneWord", "IsUint64", "Uint64", "LexicographicallyLargest", "Cmp", "Bits", "fromMont", "_fromMontGeneric", "smallerThanModulus"],
}
TRUSTED = ["go/packages and golang.org/x/tools/go/ssa (source to SSA), gofront's JSON printing of it", "the vcg executor and its decision procedures (/verif/vcg)", "Go compiler and runtime; amd64 semantics of the instructions listed in vcg/asm.py"]
INFO = {}
HARN = {}

def tasks(prop, tier):
    ts = []
    if prop in FN:
        ts.append(dict(kind="field", builds=["portable"], prop=prop)); ts.append(dict(kind="asm", builds=["amd64"], prop=prop))
    if prop == "C03": ts.append(dict(kind="inverse", builds=["portable"], prop=prop))
    import gprops
    ts += gprops.tasks(prop)
    return ts

_ex = {}
def ex_for(cls, PROGS, b, path, repo):
    k = (cls, b, path)
    if k not in _ex:
        if cls == "field":
            from field import FieldExec; _ex[k] = FieldExec(PROGS[b], path)
        elif cls == "asm":
            from asm import AsmExec; _ex[k] = AsmExec(PROGS[b], path, repo)
        else:
            from inverse import InvExec; _ex[k] = InvExec(PROGS[b], path, repo)
    return _ex[k]

def expand(PROGS, t, repo):
    out = []
    if t["kind"] in ("field", "asm", "inverse"):
        b = t["builds"][0]
        for path in FIELDS:
            if t["kind"] == "asm" and path not in ASM: continue
            ex = ex_for(t["kind"], PROGS, b, path, repo)
            names = list(ex.special) if t["kind"] == "inverse" else [n for n in ex.mc if n.split(".")[-1] in FN[t["prop"]]]
            if t["kind"] == "asm": names = [n for n in names if ex.has_asm(n) or n.split(".")[-1] in ("Mul", "Square")]
            for nm in names:
                if PROGS[b].funcs.get(nm) is None: continue
                heavy = {"zp880": 8, "zp440": 4}.get(path.split("/")[-1], 1) * {"Mul": 20, "_mulGeneric": 20, "Inverse": 40, "mul": 20}.get(nm.split(".")[-1], 1)
                out.append(dict(kind=t["kind"], b=b, path=path, fn=nm, name="%s [%s]" % (nm.replace(MODP, ""), {"portable": "portable build", "amd64": "amd64 assembly"}[b]), cost=heavy, limit=400))
    else:
        import gprops
        out += gprops.expand(PROGS, t, repo)
    return out

def prove(PROGS, t, repo):
    if t["kind"] in ("field", "asm", "inverse"):
        ex = ex_for(t["kind"], PROGS, t["b"], t["path"], repo)
        ex.inlined.clear(); ex.used_contracts.clear(); ex.used_stubs.clear(); ex.steps = 0
        r = ex.verify(t["fn"])
        if r is None: return dict(obls=[])
        return dict(obls=[(o[0], o[1], o[2] if len(o) > 2 else "") for o in r], functions=[t["name"]], inlined=sorted(ex.inlined), contracts=sorted(ex.used_contracts), stubs=sorted(ex.used_stubs),
                    backends=["vcg word domain: exact rational/modular linear arithmetic over polynomial terms"])
    import gprops
    return gprops.prove(PROGS, t, repo)

def harness_units(prop, tier):
    us = []
    if prop in FN:
        from field import MODULI
        for path in FIELDS:
            pk = open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), path, "element.go")).read()
            pk = [l for l in pk.splitlines() if l.startswith("package ")][0].split()[1]
            for tags in ([""] + (["purego"] if path in ASM else [])):
                us.append(dict(name=path + (" [%s]" % tags if tags else ""), pkg=path, files=["common.go.tmpl", "field.go.tmpl"], subst={"package PKG": "package " + pk, "VERIFQ": str(MODULI[path])}, tags=tags))
    us += [dict(u) for u in HARN.get(prop, [])]
    return us

def _bigpoly(prop):
    us = []
    for z in ("examples/mult/zp", "examples/bfv/zp"):
        us.append(dict(name="math/bigpoly over " + z, pkg="math/bigpoly", files=["common.go.tmpl", "bigpoly.go.tmpl"],
                       subst={"package PKG": "package bigpoly_test", "VZPIMPORT": 'vzp "%s%s"' % (MODP, z)}, run="TestVerif" + prop))
    return us
for _p in ("C06", "C07", "C08", "C09", "C10"): HARN[_p] = _bigpoly(_p)

def _bk(prop, fields=("zp110", "zp220")):
    return [dict(name="buckler over " + z, pkg="buckler", files=["common.go.tmpl", "bk.go.tmpl"], subst={"package PKG": "package buckler_test", "VFIELD": z}, run="TestVerif" + prop) for z in fields]
for _p in ("C11", "C12", "C13", "C14", "C16", "C17", "C20"): HARN[_p] = _bk(_p)

_SHAKE = ("crypto/sha3", "sha3.go")
_SHAKEHOOK = [("func (s *SHAKE) Write(p []byte) (n int, err error) {\n\ts.init()\n", "// VerifHook records writes and reads\nvar VerifHook func(id any, write bool, p []byte)\n\nfunc (s *SHAKE) Write(p []byte) (n int, err error) {\n\ts.init()\n\tif VerifHook != nil {\n\t\tVerifHook(s, true, p)\n\t}\n"),
              ("func (s *SHAKE) Read(p []byte) (n int, err error) {\n\ts.init()\n\treturn s.s.Read(p)\n", "func (s *SHAKE) Read(p []byte) (n int, err error) {\n\ts.init()\n\tn, err = s.s.Read(p)\n\tif VerifHook != nil {\n\t\tVerifHook(s, false, p)\n\t}\n\treturn\n")]
_FS = ("crypto/sha256", "sha256.go")
_FSHOOK = [("func New() hash.Hash {\n", "func New() hash.Hash {\n\tif VerifHook != nil {\n\t\th := VerifHook\n\t\tVerifHook = nil\n\t\tdefer func() { VerifHook = h }()\n\t\treturn h(New())\n\t}\n"), ("// New returns a new [hash.Hash]", "// VerifHook wraps new hashes\nvar VerifHook func(h hash.Hash) hash.Hash\n\n// New returns a new [hash.Hash]")]

JZ = ("jindo/internal/zp", "examples/mult/zp", "examples/bfv/zp")
def _jd(prop, fields=JZ, extra=(), **kw):
    return [dict(name="jindo over " + z, pkg="jindo", files=["common.go.tmpl", "jd.go.tmpl"] + list(extra), subst={"package PKG": "package jindo_test", "VFIELD": z}, run="TestVerif" + prop, **kw) for z in fields]
HARN["C19"] = _jd("C19")
HARN["C15"] = _jd("C15", extra=["jdfs.go.tmpl"], hooks=[(_SHAKE, _SHAKEHOOK)]) + [
    dict(u, files=u["files"] + ["bkfs.go.tmpl"], hooks=[(_FS, _FSHOOK)]) for u in _bk("C15")]
def _jdin(prop, fields=JZ): return [dict(name="jindo (in package) over " + z, pkg="jindo", files=["common.go.tmpl", "hash.go.tmpl", "jdin.go.tmpl"], subst={"package PKG": "package jindo", "VFIELD": z}, run="TestVerif" + prop) for z in fields]
HARN["C18"] = _jdin("C18"); HARN["C23"] = _jdin("C23")
HARN["C19"] += _jd("C19", extra=["jdcheat.go.tmpl"])
HARN["C19"] += [dict(u, files=u["files"][:2] + ["jdin.go.tmpl", "jdincheat.go.tmpl"], name=u["name"] + ", dishonest prover") for u in _jdin("C19")]
for _u in HARN["C19"][3:]: _u["run"] = "TestVerifCheatC19"
for _p in ("C13", "C14"):
    for _u in _bk(_p): HARN[_p].append(dict(_u, files=_u["files"] + ["bkcheat.go.tmpl"], name=_u["name"] + ", dishonest prover", run="TestVerifCheat" + _p))
for _p in ("C11", "C12"):
    HARN[_p] += [dict(name="buckler (in package) over " + z, pkg="buckler", files=["common.go.tmpl", "bkin.go.tmpl"], subst={"package PKG": "package buckler", "VFIELD": z}, run="TestVerifIn" + _p) for z in ("zp110", "zp220")]
HARN["C21"] = [dict(name="csprng", pkg="math/csprng", files=["common.go.tmpl", "cs.go.tmpl"], subst={"package PKG": "package csprng"}, run="TestVerifC21")]
HARN["C22"] = [dict(name="jindo-modulus", pkg="jindo-modulus", files=["common.go.tmpl", "mod.go.tmpl"], subst={"package PKG": "package main"}, run="TestVerifC22")]
HARN["C03"] = [dict(name="bignum over " + z, pkg="math/bignum", files=["common.go.tmpl", "exp.go.tmpl"], subst={"package PKG": "package bignum_test", "VFIELD": z}, run="TestVerifC03", secs=dict(quick=10, thorough=100)) for z in ("examples/mult/zp", "examples/bfv/zp")]
