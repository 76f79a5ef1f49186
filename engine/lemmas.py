"""lemmas over the written contracts: identities of polynomials over F_p, and facts about the constants"""
from contracts import *
from fpoly import FP
import contracts

def line_lemmas(cv):
    """the line-evaluation contracts describe the tangent / chord construction on y^2 = x^3 + b'
    (b' is taken as y^2 - x^3, so the statements hold for every point of the curve)"""
    F = FP(cv['p']); out = []
    names = {}
    def var(n): return F.var(names.setdefault(n, len(names)))
    def pair(n): return [var(n + '0'), var(n + '1')]
    class A2:
        pass
    class R(Ring2):
        btwist = None
    r = R(F, cv['xi']); r.half = pow(2, -1, cv['p'])
    x, y, Z = pair('x'), pair('y'), pair('z'); m = r.mul2; sc = r.scale
    r.btwist = None
    bt = r.sub(m(y, y), m(x, m(x, x)))
    R.btwist = property(lambda self: bt)
    class A(FP):
        def const(self, c): return c if isinstance(c, dict) else FP.const(self, c)
    r.A = A(cv['p'])
    def eq(n, a, b): out.append((n, all(not r.A.sub(u, v) for u, v in zip(a, b))))
    # tangent at (x, y), slope 3x^2 / 2y
    l, q = line_dbl(r, m(x, Z) + m(y, Z) + Z)
    num, den = sc(m(x, x), 3), sc(y, 2)
    k = sc(m(m(y, Z), Z), -2)               # the common factor: b = k
    eq('tangent line: coefficient of y_P', l[2:4], k)
    eq('tangent line: coefficient of x_P', m(l[4:6], den), r.neg(m(k, num)))
    eq('tangent line: constant term', m(l[0:2], den), m(r.mulxi(k), r.sub(m(num, x), m(den, y))))
    X3, Y3, Z3 = q[0:2], q[2:4], q[4:6]
    dd = m(den, den)
    x3n = r.sub(m(num, num), sc(m(x, dd), 2))                           # x3 = x3n / den^2
    y3n = r.sub(m(num, r.sub(m(x, dd), x3n)), m(y, m(dd, den)))         # y3 = y3n / den^3
    eq('doubling: x of 2T', m(X3, dd), m(x3n, Z3)); eq('doubling: y of 2T', m(Y3, m(dd, den)), m(y3n, Z3))
    eq('doubling: Z is a multiple of y*Z only', Z3, sc(m(m(m(y, y), y), m(m(Z, Z), m(Z, Z))), 2))
    # chord through (x, y) and (s, t)
    s, t = pair('s'), pair('t')
    l, q = line_add(r, m(x, Z) + m(y, Z) + Z, s + t)
    num, den = r.sub(y, t), r.sub(x, s)
    k = m(den, Z)
    eq('chord: coefficient of y_P', l[2:4], k)
    eq('chord: coefficient of x_P', m(l[4:6], den), r.neg(m(k, num)))
    eq('chord: constant term', m(l[0:2], den), m(r.mulxi(k), r.sub(m(num, s), m(den, t))))
    X3, Y3, Z3 = q[0:2], q[2:4], q[4:6]
    dd = m(den, den)
    x3n = r.sub(m(num, num), m(r.add(x, s), dd))
    y3n = r.sub(m(num, r.sub(m(x, dd), x3n)), m(y, m(dd, den)))
    eq('addition: x of T+Q', m(X3, dd), m(x3n, Z3)); eq('addition: y of T+Q', m(Y3, m(dd, den)), m(y3n, Z3))
    eq('addition: Z is a multiple of (x_T - x_Q)*Z only', Z3, m(m(dd, den), m(m(Z, Z), m(Z, Z))))
    return out

def curve_lemmas(cv):
    """facts about the curve constants the group-law proofs rely on"""
    p = cv['p']; out = []
    out.append(('p = 3 mod 4 (u^2 = -1 has no root in F_p)', p % 4 == 3))
    out.append(('no point of order 2 on the curve: -b is not a cube', p % 3 == 1 and pow(-cv['b'] % p, (p - 1) // 3, p) != 1))
    xi = cv['xi']; n = pow(xi[0] ** 2 + xi[1] ** 2, -1, p); b = cv['b']
    t = (-b * xi[0] * n % p, b * xi[1] * n % p)
    def mul(a, c): return ((a[0] * c[0] - a[1] * c[1]) % p, (a[0] * c[1] + a[1] * c[0]) % p)
    def pw(a, k):
        r = (1, 0)
        while k:
            if k & 1: r = mul(r, a)
            a = mul(a, a); k >>= 1
        return r
    out.append(('no point of order 2 on the twist: -b/xi is not a cube', pw(t, (p * p - 1) // 3) != (1, 0)))
    out.append(('xi is neither a square nor a cube in F_p2', pw(tuple(xi), (p * p - 1) // 2) != (1, 0) and pw(tuple(xi), (p * p - 1) // 3) != (1, 0)))
    return out

def pairing_lemmas(cv):
    """number-theoretic facts behind 'the optimal ate value is a bilinear, non-degenerate pairing', over the curve constants"""
    p, r, z, t = cv['p'], cv['r'], cv['z'], cv['t']; out = []
    def prime(n):
        d = n - 1; s = 0
        while d % 2 == 0: d //= 2; s += 1
        for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71):
            x = pow(a, d, n)
            if x in (1, n - 1): continue
            for _ in range(s - 1):
                x = x * x % n
                if x == n - 1: break
            else: return False
        return True
    out.append(('p and r are (probable) primes', prime(p) and prime(r)))
    out.append(('p, r, t are the BN polynomials at z', p == 36*z**4 + 36*z**3 + 24*z*z + 6*z + 1 and r == 36*z**4 + 36*z**3 + 18*z*z + 6*z + 1 and t == 6*z*z + 1 and r == p + 1 - t))
    out.append(('p has order 12 modulo r (embedding degree 12)', pow(p, 12, r) == 1 and all(pow(p, d, r) != 1 for d in (1, 2, 3, 4, 6))))
    c = (6 * z + 2, 1, -1, 1)
    lam = sum(v * p ** i for i, v in enumerate(c))
    out.append(('6z+2 + p - p^2 + p^3 is a multiple of r (the optimal ate loop vector)', lam % r == 0))
    m = lam // r; k = 12
    out.append(('the optimal ate pairing is non-degenerate (Vercauteren condition)', (m * k * p ** (k - 1) - (p ** k - 1) // r * sum(i * v * p ** max(i - 1, 0) for i, v in enumerate(c))) % r != 0))
    h = (p ** 12 - 1) // r
    out.append(('factors in F_p6 (vertical lines, line scalings, f * f^(p^6)) vanish under the final power', h % (p ** 6 - 1) == 0))
    return out

def cyclo_lemmas(cv):
    """consequences of the relations that define the cyclotomic subgroup (contracts.cyclotomic): what compressed squaring and
    decompression rely on.  Components by their place in memory: g0, g4, g3, g2, g1, g5"""
    F = FP(cv['p']); p = cv['p']; out = []; xi = cv['xi']
    R = Ring2(F, xi); R.half = pow(2, -1, p)
    ins = lambda e, r: all(F.inspan(c, r) for c in e)
    def elem(*zero): return [{} if j // 2 in zero else F.var(j) for j in range(12)]
    x = elem(); rel = cyclotomic(R, x)
    sq, cs = R.mul12(x, x), comp_sqr(R, x)
    for i, n in ((1, 'g4'), (2, 'g3'), (3, 'g2'), (5, 'g5')):
        out.append(('compressed squaring gives component %s of the square' % n, ins([F.sub(sq[j], cs[j]) for j in (2 * i, 2 * i + 1)], rel)))
    E0, E1, _ = decompression(R, x)
    out.append(('g0 = (2 g1^2 - 3 g3 g4 + g2 g5) xi + 1', ins(E0, rel)))
    out.append(('4 g1 g2 = xi g5^2 + 3 g4^2 - 2 g3', ins(E1, rel)))
    x = elem(3); rel = cyclotomic(R, x)
    out.append(('g2 = 0 implies g1 g3 = 2 g4 g5', ins(decompression(R, x)[2], rel)))
    # g2 = g3 = 0 only for the identity
    x = elem(3, 2); rel = cyclotomic(R, x); g4, g5 = x[2:4], x[10:12]; m = R.mul2
    out.append(('g2 = g3 = 0 implies xi g5^2 = -3 g4^2', ins(R.add(R.mulxi(m(g5, g5)), R.scale(m(g4, g4), 3)), rel)))
    def cm(a, c): return ((a[0] * c[0] - a[1] * c[1]) % p, (a[0] * c[1] + a[1] * c[0]) % p)
    def pw(a, k):
        r = (1, 0)
        while k:
            if k & 1: r = cm(r, a)
            a = cm(a, a); k >>= 1
        return r
    n = pow(xi[0] ** 2 + xi[1] ** 2, -1, p); mx = (-3 * xi[0] * n % p, 3 * xi[1] * n % p)
    out.append(('-3/xi is not a square in F_p2 (hence g4 = g5 = 0)', pw(mx, (p * p - 1) // 2) == (p - 1, 0)))
    x = elem(1, 2, 3, 5); rel = cyclotomic(R, x); g0, g1 = x[:2], x[8:10]
    out.append(('then g0^2 + xi g1^2 = g0', ins(R.sub(R.add(m(g0, g0), R.mulxi(m(g1, g1))), g0), rel)))
    out.append(('then g1 (2 g0 + 1) = 0', ins(R.add(R.scale(m(g0, g1), 2), g1), rel)))
    out.append(('then g0^2 - xi g1^2 = 1 (g0 = -1/2 makes -3/xi a square, so g1 = 0 and g0 = 1)', ins(R.sub(R.sub(m(g0, g0), R.mulxi(m(g1, g1))), R.one(12)[:2]), rel)))
    out.append(('the order p^4 - p^2 + 1 of the subgroup is odd', (p ** 4 - p * p + 1) % 2 == 1))
    return out

def inv_lemmas(cv):
    import invprops
    return invprops.lemmas(cv)
