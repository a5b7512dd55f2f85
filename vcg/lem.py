"""Functions of the specifications and the lemmas about them. Every lemma is an instance of a theorem in /verif/lean (named in the comment)."""
import z3
from gen import *
# ---- powers: pow x 0 = 1, pow x (n+1) = pow x n * x       (Lean: powers.lean, the function is x ^ n)
fpow_ = z3.Function("fpow", F, INT, F)
def fpow(x, n): return fpow_(x, Z(num(n)))
def pow_step(x, n):      # theorem pow_zero_succ
    n = Z(num(n)); return [fpow_(x, z3.IntVal(0)) == fint(1), fpow_(x, z3.IntVal(1)) == x, z3.Implies(n >= 0, fpow_(x, n + 1) == fmul(fpow_(x, n), x))]
def pow_half(x, n):      # theorem pow_half: x^n = (x*x)^(n/2) * (x if n odd)
    n = Z(num(n)); h = z3.simplify(n / 2); y = fmul(x, x)
    return [z3.Implies(z3.And(n >= 0, n % 2 == 0), fpow_(x, n) == fpow_(y, h)), z3.Implies(z3.And(n >= 0, n % 2 == 1), fpow_(x, n) == fmul(fpow_(y, h), x)), z3.Implies(n == 0, fpow_(x, n) == fint(1))]
# ---- bit reversal of the L low bits: rv 0 a = 0, rv (L+1) (2a+e) = rv L a + e 2^L     (Lean: bitrev.lean)
rv_ = z3.Function("rv", INT, INT, INT)
def rv(L, a): return rv_(Z(num(L)), Z(num(a)))
def rv_unfold(ex, L, a):     # definition, at level L >= 1
    L, a = Z(num(L)), Z(num(a)); h = z3.simplify(a / 2); e = z3.simplify(a % 2); Lm = z3.simplify(L - 1); p = ex.pow2(Lm)
    return [z3.Implies(z3.And(L >= 1, a >= 0), rv_(L, a) == rv_(Lm, h) + e * Z(p)), rv_range(ex, L, a), rv_range(ex, Lm, h), rv_(z3.IntVal(0), a) == 0]
def rv_range(ex, L, a):      # theorem rv_lt
    return z3.Implies(z3.And(L >= 0, a >= 0, a < Z(ex.pow2(L))), z3.And(rv_(L, a) >= 0, rv_(L, a) < Z(ex.pow2(L))))
def rv_all(ex, L):           # theorems rv_lt, rv_rv, rv_zero, for all arguments
    L = Z(num(L)); p = Z(ex.pow2(L)); k = z3.Int("k!rv")
    return [z3.ForAll([k], z3.Implies(z3.And(L >= 0, k >= 0, k < p), z3.And(rv_(L, k) >= 0, rv_(L, k) < p, rv_(L, rv_(L, k)) == k)), patterns=[rv_(L, k)]), rv_(L, z3.IntVal(0)) == 0]
# ---- automorphism positions: aut i d N = i*d mod 2N
aut_ = z3.Function("autpos", INT, INT, INT, INT)
def aut_def(ex, st, i, d, N):
    i, d, N = Z(num(i)), Z(num(d)), Z(num(N)); q, r = ex.qr(z3.simplify(i * d), z3.simplify(2 * N), st); return [aut_(i, d, N) == r]
def aut_inj(d, N, K):        # theorem aut_inj: different coefficients go to different positions (N = 2^K, d odd)
    d, N = Z(num(d)), Z(num(N)); i, j = z3.Int("i!aut"), z3.Int("j!aut"); a, b = aut_(i, d, N), aut_(j, d, N)
    return [z3.ForAll([i, j], z3.Implies(z3.And(d % 2 == 1, N == pow2_(Z(K)), Z(K) >= 0, 0 <= i, i < j, j < N), z3.And(a != b, a != b + N, a + N != b)), patterns=[z3.MultiPattern(a, b)])]
