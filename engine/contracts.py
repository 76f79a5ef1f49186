"""The written contracts of the field-tower operations.

Each contract gives: the argument types and directions, the required ranges (beyond "canonical"), and
the result as a function of the arguments over the coefficient ring.  Values are the represented
residues: a stored Fp word group X stands for X/2^256 mod p, a stored double-width group D for D/2^512.
The same table is used in both directions: as the obligation on the routine's own code and as the only
thing a caller may assume."""

NCOMP = {'Fp': 1, 'Fp2': 2, 'Fp6': 6, 'Fp12': 12, 'FpDbl': 1, 'Fp2Dbl': 2, 'Fp6Dbl': 6, 'R3': 6, 'P2': 2, 'Q2': 4, 'CompressP': 1, 'Fp12Dbl': 12}
NWORD = {'Fp': 4, 'Fp2': 4, 'Fp6': 4, 'Fp12': 4, 'R3': 4, 'P2': 4, 'Q2': 4, 'FpDbl': 8, 'Fp2Dbl': 8, 'Fp6Dbl': 8, 'Fp12Dbl': 8}
def tsize(t): return NCOMP[t] * NWORD[t] * 8

class Ring2:
    """F_p2 / F_p6 / F_p12 over any coefficient ring A with add, sub, neg, mul, scale"""
    def __init__(self, A, xi):
        self.A = A; self.xi = xi      # xi = (xa, xb) small integers
    @property
    def btwist(self):
        """b / xi, the coefficient of the twist"""
        p = self.A.p; n = self.xi[0] ** 2 + self.xi[1] ** 2; k = self.xi.b * pow(n, -1, p) % p
        return (self.xi[0] * k % p, -self.xi[1] * k % p)
    # --- lists of coefficients
    def add(self, x, y): return [self.A.add(a, b) for a, b in zip(x, y)]
    def sub(self, x, y): return [self.A.sub(a, b) for a, b in zip(x, y)]
    def neg(self, x): return [self.A.neg(a) for a in x]
    def scale(self, x, k): return [self.A.scale(a, k) for a in x]
    def mul2(self, x, y):
        A = self.A
        return [A.sub(A.mul(x[0], y[0]), A.mul(x[1], y[1])), A.add(A.mul(x[0], y[1]), A.mul(x[1], y[0]))]
    def mulxi(self, x):
        A = self.A; a, b = self.xi
        return [A.sub(A.scale(x[0], a), A.scale(x[1], b)), A.add(A.scale(x[0], b), A.scale(x[1], a))]
    def mulc(self, x, c): return [self.A.mul(a, c) for a in x]
    def mul6(self, x, y):
        X = [x[0:2], x[2:4], x[4:6]]; Y = [y[0:2], y[2:4], y[4:6]]
        r = [None] * 5
        for i in range(3):
            for j in range(3):
                t = self.mul2(X[i], Y[j])
                r[i + j] = t if r[i + j] is None else self.add(r[i + j], t)
        return self.add(r[0], self.mulxi(r[3])) + self.add(r[1], self.mulxi(r[4])) + r[2]
    def mulv(self, x): return self.mulxi(x[4:6]) + list(x[0:4])
    def mul12(self, x, y):
        a, b, c, d = x[:6], x[6:], y[:6], y[6:]
        return self.add(self.mul6(a, c), self.mulv(self.mul6(b, d))) + self.add(self.mul6(a, d), self.mul6(b, c))
    def mul(self, x, y):
        n = len(x)
        if n == 1: return [self.A.mul(x[0], y[0])]
        return {2: self.mul2, 6: self.mul6, 12: self.mul12}[n](x, y)
    def line(self, l):
        """(a, b, c) of a line as an F_p12 element: a in 1, c in v^2, b in v*w"""
        z = [self.A.const(0)] * 2
        return list(l[0:2]) + z + list(l[4:6]) + z + list(l[2:4]) + z
    def zero(self, n): return [self.A.const(0)] * n
    def one(self, n): return [self.A.const(1)] + [self.A.const(0)] * (n - 1)

class Tower:
    """constants of the tower over F_p, computed from p and xi alone"""
    def __init__(self, p, xi):
        self.p = p; self.xi = xi
    def mul(self, x, y):
        p = self.p
        return ((x[0] * y[0] - x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    def pw(self, x, n):
        r = (1, 0)
        while n:
            if n & 1: r = self.mul(r, x)
            x = self.mul(x, x); n >>= 1
        return r
    def gamma(self, k):
        """w^(p^k) = g*w with w^6 = xi"""
        return self.pw(self.xi, (self.p ** k - 1) // 6)
W_OF = [0, 2, 4, 1, 3, 5]       # power of w of each F_p2 coefficient of an F_p12 element
def frob12(R, x, k):
    """x^(p^k) for x in F_p12: coefficients conjugated k times, w^i scaled by gamma^i"""
    T = Tower(R.A.p, R.xi); g = T.gamma(k); out = []
    for j, i in enumerate(W_OF):
        c = list(x[2 * j:2 * j + 2])
        if k & 1: c[1] = R.A.neg(c[1])
        q = T.pw(g, i)
        a, b = R.A.scale(c[0], q[0]), R.A.scale(c[1], q[1])
        d, e = R.A.scale(c[0], q[1]), R.A.scale(c[1], q[0])
        out += [R.A.sub(a, b), R.A.add(d, e)]
    return out
def norm_down(R, x):
    """relative norm to the next lower level of the tower"""
    if len(x) == 2: return [R.A.add(R.A.mul(x[0], x[0]), R.A.mul(x[1], x[1]))]
    if len(x) == 6:
        a, b, c = x[:2], x[2:4], x[4:6]; m = R.mul2
        t = R.add(m(m(a, a), a), R.mulxi(m(m(b, b), b)))
        t = R.add(t, R.mulxi(R.mulxi(m(m(c, c), c))))
        return R.sub(t, R.scale(R.mulxi(m(m(a, b), c)), 3))
    if len(x) == 12:
        return R.sub(R.mul6(x[:6], x[:6]), R.mulv(R.mul6(x[6:], x[6:])))
def cyclotomic(R, x):
    """x^(p^4 - p^2 + 1) = 1 and x^(p^6) * x = 1, as polynomials that vanish"""
    r = R.sub(R.mul12(x, frob12(R, x, 4)), frob12(R, x, 2))
    r += R.sub(R.mul12(x, frob12(R, x, 6)), R.one(12))
    return r + frob_rel(R, x)
def frob_rel(R, x):
    y = frob12(R, x, 2)
    return R.sub(R.mul12(y, frob12(R, x, 6)), frob12(R, x, 4))

class IntRing:
    """integer polynomials (raw values)"""
    def __init__(self):
        import dom
        self.d = dom
    def add(self, a, b): return self.d.padd(a, b)
    def sub(self, a, b): return self.d.psub(a, b)
    def neg(self, a): return self.d.pscale(a, -1)
    def mul(self, a, b): return self.d.pmul(a, b)
    def scale(self, a, k): return self.d.pscale(a, k)
    def const(self, c): return self.d.pconst(c)

class Contract:
    def __init__(self, name, args, fn, kind='can', pre=None, alias='all', props=(), inhi=None, note='', cxx=False, outhi=None, entry=None, member=False, rels=None, ink=None, outk=None):
        self.name = name; self.args = [tuple(a.split(':')) for a in args]; self.fn = fn; self.kind = kind
        self.pre = pre; self.alias = alias; self.props = props; self.inhi = inhi; self.note = note; self.cxx = cxx
        self.ink = ink or {}; self.outk = outk or {}; self.outs = [i for i, (d, t) in enumerate(self.args) if d != 'i']
        self.outhi = outhi; self.member = member; self.rels = rels; self.entry = entry or name
TABLE = {}
def C(*a, **k):
    c = Contract(*a, **k)
    TABLE[c.name] = c
    return c

def nc_add(T): 
    lim = {4: 256, 8: 512}[NWORD[T]]
    return ('addNC', lim)

# ---------------------------------------------------------------- F_p
for nm, props in (('Fp::add', ('C10',)), ('Fp2::add', ('C20',)), ('Fp6::add', ('C21',))):
    T = nm.split('::')[0]
    C(nm, ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.add(x, y), props=props)
for nm, props in (('Fp::sub', ('C10',)), ('Fp2::sub', ('C20',)), ('Fp6::sub', ('C21',))):
    T = nm.split('::')[0]
    C(nm, ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.sub(x, y), props=props)
C('Fp::neg', ['o:Fp', 'i:Fp'], lambda R, x: R.neg(x), props=('C10',))
C('Fp::mul', ['o:Fp', 'i:Fp', 'i:Fp'], lambda R, x, y: R.mul(x, y), props=('C10',))
C('Fp::mul<2p', ['o:Fp', 'i:Fp', 'i:Fp'], lambda R, x, y: R.mul(x, y), ink={(1, 0): 2}, entry='Fp::mul', alias='none', props=('C11',), note='the call in Fp::inv')
C('Fp::addNC', ['o:Fp', 'i:Fp', 'i:Fp'], lambda R, x, y: R.add(x, y), kind='exact', pre='sum', props=('C10',))
C('Fp::subNC', ['o:Fp', 'i:Fp', 'i:Fp'], lambda R, x, y: R.sub(x, y), kind='exact', pre='diff', props=('C10',))
C('Fp2::addNC', ['o:Fp2', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.add(x, y), kind='exact', pre='sum', props=('C20',))
C('Fp2::subNC', ['o:Fp2', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.sub(x, y), kind='exact', pre='diff', props=('C20',))
# ---------------------------------------------------------------- double width
C('FpDbl::mul', ['o:FpDbl', 'i:Fp', 'i:Fp'], lambda R, x, y: R.mul(x, y), kind='exact', inhi='full', props=('C13',))
C('FpDbl::mod', ['o:Fp', 'i:FpDbl'], lambda R, x: x, props=('C13',))
for T in ('FpDbl', 'Fp2Dbl'):
    C(T + '::add', ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.add(x, y), kind='modN', props=('C13',))
    C(T + '::sub', ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.sub(x, y), kind='modN', props=('C13',))
    C(T + '::neg', ['o:' + T, 'i:' + T], lambda R, x: R.neg(x), kind='modN', props=('C13',))
    C(T + '::addNC', ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.add(x, y), kind='exact', pre='sum', props=('C13',))
    C(T + '::subNC', ['o:' + T, 'i:' + T, 'i:' + T], lambda R, x, y: R.sub(x, y), kind='exact', pre='diff', props=('C13',))
C('Fp2Dbl::mod', ['o:Fp2', 'i:Fp2Dbl'], lambda R, x: x, props=('C13',))
C('Fp2Dbl::mul_xi', ['o:Fp2Dbl', 'i:Fp2Dbl'], lambda R, x: R.mulxi(x), kind='modN', alias='none', props=('C13',))
C('Fp2Dbl::mulOpt1', ['o:Fp2Dbl', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.mul2(x, y), kind='dbl', outhi='opt1', props=('C13',))
C('Fp2Dbl::mulOpt2', ['o:Fp2Dbl', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.mul2(x, y), kind='dbl', props=('C13',))
C('Fp2Dbl::mulOpt2<2p', ['o:Fp2Dbl', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.mul2(x, y), kind='dbl', inhi='lt2p', outhi='opt2', entry='Fp2Dbl::mulOpt2', props=('C13',))
C('Fp2Dbl::square', ['o:Fp2Dbl', 'i:Fp2'], lambda R, x: R.mul2(x, x), kind='dbl', outhi='sq', props=('C13',))
C('Fp6Dbl::mul', ['o:Fp6Dbl', 'i:Fp6', 'i:Fp6'], lambda R, x, y: R.mul6(x, y), kind='dbl', props=('C21',))
# ---------------------------------------------------------------- F_p2
C('Fp2::mul', ['o:Fp2', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.mul2(x, y), props=('C20',))
C('Fp2::square', ['o:Fp2', 'i:Fp2'], lambda R, x: R.mul2(x, x), props=('C20',))
C('Fp2::mul_xi', ['o:Fp2', 'i:Fp2'], lambda R, x: R.mulxi(x), alias='none', props=('C20',), note='asserts z != x')
C('Fp2::mul_Fp_0', ['o:Fp2', 'i:Fp2', 'i:Fp'], lambda R, x, b: R.mulc(x, b[0]), props=('C20',))
C('Fp2::divBy2', ['o:Fp2', 'i:Fp2'], lambda R, x: R.scale(x, R.half), props=('C20',))
# ---------------------------------------------------------------- F_p6, F_p12
C('Fp6::mul', ['o:Fp6', 'i:Fp6', 'i:Fp6'], lambda R, x, y: R.mul6(x, y), props=('C21',))
C('Fp12::mul', ['o:Fp12', 'i:Fp12', 'i:Fp12'], lambda R, x, y: R.mul12(x, y), props=('C22',))
C('Fp12::square', ['io:Fp12'], lambda R, x: R.mul12(x, x), props=('C22',))
C('Fp12Dbl::mul_Fp2_024', ['io:Fp12', 'i:Fp6'], lambda R, x, l: R.mul12(x, R.line(l)), props=('C22',))

# ---------------------------------------------------------------- the C++ level (compiled from bn.h / zm2.h)
def U(nm, T, fn, props, **k): C('c:' + nm, ['o:' + T, 'i:' + T], fn, props=props, cxx=True, **k)
def B(nm, T, fn, props, **k): C('c:' + nm, ['o:' + T, 'i:' + T, 'i:' + T], fn, props=props, cxx=True, **k)
def IO(nm, T, fn, props, *more, **k): C('c:' + nm, ['io:' + T] + list(more), fn, props=props, cxx=True, **k)
add_ = lambda R, x, y: R.add(x, y)
sub_ = lambda R, x, y: R.sub(x, y)
mul_ = lambda R, x, y: R.mul(x, y)
sqr_ = lambda R, x: R.mul(x, x)
neg_ = lambda R, x: R.neg(x)
half_ = lambda R, x: R.scale(x, R.half)
quarter_ = lambda R, x: R.scale(R.scale(x, R.half), R.half)
U('Fp::divBy2', 'Fp', half_, ('C10',)); U('Fp::divBy4', 'Fp', quarter_, ('C10',)); U('Fp::square', 'Fp', sqr_, ('C10',))
for T, P, ops in (('Fp', 'C10', '+-*'), ('Fp2', 'C20', '+-*')):
    for o, f in (('+', add_), ('-', sub_), ('*', mul_)):
        IO('%s::operator%s=' % (T, o), T, f, (P,), 'i:' + T)
for o, f in (('+', add_), ('-', sub_), ('*', mul_)): B('Fp::operator' + o, 'Fp', f, ('C10',))
U('Fp::operator-u', 'Fp', neg_, ('C10',))
IO('Fp::_2z_add_3x', 'Fp', lambda R, z, x: R.add(R.scale(z, 2), R.scale(x, 3)), ('C10',), 'i:Fp', alias='none')
IO('Fp::_3z_add_2xC', 'Fp', lambda R, z, x: R.add(R.scale(z, 3), R.scale(x, 2)), ('C10',), 'i:Fp', alias='none')
IO('Fp::fast_modp', 'Fp', lambda R, z: z, ('C10',), inhi='le6p')
U('Fp::fromMont', 'Fp', lambda R, x: R.scale(x, R.Rinv), ('C12',)); U('Fp::toMont', 'Fp', lambda R, x: R.scale(x, R.R), ('C12',))
B('FpDbl::subOpt1', 'FpDbl', lambda R, x, y: R.sub(R.add(x, R.pNh), y), ('C13',), kind='exact', alias='none', pre='subopt')
IO('FpDbl::operator+=', 'FpDbl', add_, ('C13',), 'i:FpDbl', kind='modN'); IO('FpDbl::operator-=', 'FpDbl', sub_, ('C13',), 'i:FpDbl', kind='modN')
B('Fp2Dbl::addC', 'Fp2Dbl', add_, ('C13',), kind='modN'); B('Fp2Dbl::subC', 'Fp2Dbl', sub_, ('C13',), kind='modN'); U('Fp2Dbl::negC', 'Fp2Dbl', neg_, ('C13',), kind='modN')
B('Fp2Dbl::addNC_C', 'Fp2Dbl', add_, ('C13',), kind='exact', pre='sum'); B('Fp2Dbl::subNC_C', 'Fp2Dbl', sub_, ('C13',), kind='exact', pre='diff')
U('Fp2Dbl::mul_xiC', 'Fp2Dbl', lambda R, x: R.mulxi(x), ('C13',), kind='modN', alias='none')
for n, k in (('mulOpt1C', dict(outhi='opt1')), ('mulOpt2C', {})):
    C('c:Fp2Dbl::' + n, ['o:Fp2Dbl', 'i:Fp2', 'i:Fp2'], lambda R, x, y: R.mul2(x, y), kind='dbl', props=('C13',), cxx=True, **k)
C('c:Fp2Dbl::squareC', ['o:Fp2Dbl', 'i:Fp2'], lambda R, x: R.mul2(x, x), kind='dbl', outhi='sq', props=('C13',), cxx=True)
C('c:Fp2Dbl::modC', ['o:Fp2', 'i:Fp2Dbl'], lambda R, x: x, props=('C13',), cxx=True)
B('Fp2::addC', 'Fp2', add_, ('C20',)); B('Fp2::subC', 'Fp2', sub_, ('C20',)); U('Fp2::neg', 'Fp2', neg_, ('C20',))
B('Fp2::addNC_C', 'Fp2', add_, ('C20',), kind='exact', pre='sum'); B('Fp2::subNC_C', 'Fp2', sub_, ('C20',), kind='exact', pre='diff')
B('Fp2::mulC', 'Fp2', mul_, ('C20',)); U('Fp2::squareC', 'Fp2', sqr_, ('C20',)); U('Fp2::divBy2C', 'Fp2', half_, ('C20',)); U('Fp2::divBy4', 'Fp2', quarter_, ('C20',))
U('Fp2::mul_xiC', 'Fp2', lambda R, x: R.mulxi(x), ('C20',), alias='none', note='asserts z != x')
C('c:Fp2::mul_Fp_0C', ['o:Fp2', 'i:Fp2', 'i:Fp'], lambda R, x, b: R.mulc(x, b[0]), props=('C20',), cxx=True)
IO('Fp2::mul_Fp_1', 'Fp2', lambda R, x, b: [R.A.neg(R.A.mul(x[1], b[0])), R.A.mul(x[0], b[0])], ('C20',), 'i:Fp')
IO('Fp2::mul_x', 'Fp2', lambda R, x: [R.A.neg(x[1]), x[0]], ('C20',))
B('Fp6::addC', 'Fp6', add_, ('C21',)); B('Fp6::subC', 'Fp6', sub_, ('C21',)); U('Fp6::neg', 'Fp6', neg_, ('C21',))
B('Fp6::mulC', 'Fp6', mul_, ('C21',)); U('Fp6::square', 'Fp6', sqr_, ('C21',), alias='none', note='asserts z != x')
C('c:Fp6Dbl::mulC', ['o:Fp6Dbl', 'i:Fp6', 'i:Fp6'], mul_, kind='dbl', props=('C21',), cxx=True)
B('Fp6Dbl::add', 'Fp6Dbl', add_, ('C21',), kind='modN'); B('Fp6Dbl::sub', 'Fp6Dbl', sub_, ('C21',), kind='modN')
C('c:Fp6Dbl::mod', ['o:Fp6', 'i:Fp6Dbl'], lambda R, x: x, props=('C21',), cxx=True)
B('Fp12::add', 'Fp12', add_, ('C22',)); B('Fp12::sub', 'Fp12', sub_, ('C22',)); U('Fp12::neg', 'Fp12', neg_, ('C22',))
B('Fp12::mulC', 'Fp12', mul_, ('C22',)); IO('Fp12::squareC', 'Fp12', sqr_, ('C22',))
IO('Fp12Dbl::mul_Fp2_024C', 'Fp12', lambda R, x, l: R.mul12(x, R.line(l)), ('C22',), 'i:Fp6')
C('c:Fp12Dbl::mul_Fp2_024_Fp2_024', ['o:Fp12', 'i:Fp6', 'i:Fp6'], lambda R, x, y: R.mul12(R.line(x), R.line(y)), props=('C22',), cxx=True)
C('c:Fp12Dbl::mod', ['o:Fp12', 'i:Fp12Dbl'], lambda R, x: x, props=('C22',), cxx=True)
C('f:Fp::inv', ['o:Fp', 'i:Fp'], None, kind='inv', props=(), cxx=True, note='obligations in invprops.py')
for T, P in (('Fp2', 'C20'), ('Fp6', 'C21'), ('Fp12', 'C22')):
    C('c:%s::inverse' % T, ['io:' + T], None, kind='inv', props=(P,), cxx=True, member=True)
U('Fp12::Frobenius', 'Fp12', lambda R, x: frob12(R, x, 1), ('C23',)); U('Fp12::Frobenius2', 'Fp12', lambda R, x: frob12(R, x, 2), ('C23',))
U('Fp12::Frobenius3', 'Fp12', lambda R, x: frob12(R, x, 3), ('C23',))
C('c:Fp12::sqru', ['io:Fp12'], sqr_, props=('C24',), cxx=True, rels=cyclotomic)

def comp_sqr(R, x):
    """one compressed squaring: the components g4, g3, g2, g5 (places 1, 2, 3, 5) of the square of a cyclotomic element"""
    g = [x[2 * i:2 * i + 2] for i in range(6)]; g4, g3, g2, g5 = g[1], g[2], g[3], g[5]; m = R.mul2; s = lambda a: R.scale(a, 3)
    o = list(g)
    o[3] = R.scale(R.add(g2, s(R.mulxi(m(g4, g5)))), 2)
    o[2] = R.sub(s(R.add(m(g4, g4), R.mulxi(m(g5, g5)))), R.scale(g3, 2))
    o[1] = R.sub(s(R.add(m(g2, g2), R.mulxi(m(g3, g3)))), R.scale(g4, 2))
    o[5] = R.scale(R.add(g5, s(m(g2, g3))), 2)
    return [c for v in o for c in v]
def decompression(R, x):
    """what recovers g0 and g1: values that vanish on the cyclotomic subgroup (the third one where g2 = 0)"""
    g0, g4, g3, g2, g1, g5 = [x[2 * i:2 * i + 2] for i in range(6)] if len(x) == 12 else x
    m = R.mul2; s = R.scale
    E0 = R.sub(R.sub(g0, R.mulxi(R.add(R.sub(s(m(g1, g1), 2), s(m(g3, g4), 3)), m(g2, g5)))), R.one(len(g0)))
    E1 = R.sub(s(m(g1, g2), 4), R.sub(R.add(R.mulxi(m(g5, g5)), s(m(g4, g4), 3)), s(g3, 2)))
    return E0, E1, R.sub(m(g1, g3), s(m(g4, g5), 2))
C('c:Compress::square1', ['io:Fp12'], comp_sqr, props=(), cxx=True, rels=cyclotomic)

# ---------------------------------------------------------------- line evaluation (R = (X, Y, Z) stands for (X/Z, Y/Z))
def line_dbl(R, r):
    """the tangent of the twist at r, multiplied by its denominators, and the doubled point"""
    A = R; X, Y, Z = r[0:2], r[2:4], r[4:6]; m = R.mul2; h = lambda x: R.scale(x, R.half)
    b = [R.A.const(c) for c in R.btwist]
    YY = m(Y, Y); E = R.scale(m(b, m(Z, Z)), 3); YZ2 = R.scale(m(Y, Z), 2)
    X3 = m(R.sub(YY, R.scale(E, 3)), h(m(X, Y)))
    G = h(R.add(YY, R.scale(E, 3)))
    Y3 = R.sub(m(G, G), R.scale(m(E, E), 3))
    Z3 = m(YY, YZ2)
    l = R.mulxi(R.sub(E, YY)) + R.neg(YZ2) + R.scale(m(X, X), 3)
    return l, X3 + Y3 + Z3
def line_add(R, r, q):
    """the chord through r and the affine q, and their sum"""
    X, Y, Z = r[0:2], r[2:4], r[4:6]; x, y = q[0:2], q[2:4]; m = R.mul2
    t = R.sub(X, m(Z, x)); u = R.sub(Y, m(Z, y))
    tt = m(t, t); ttt = m(tt, t)
    H = R.sub(R.add(ttt, m(Z, m(u, u))), R.scale(m(tt, X), 2))
    X3 = m(t, H)
    Y3 = R.sub(m(u, R.sub(m(tt, X), H)), m(ttt, Y))
    Z3 = m(ttt, Z)
    l = R.mulxi(R.sub(m(u, x), m(t, y))) + list(t) + R.neg(u)
    return l, X3 + Y3 + Z3
def at_P(R, l, P):
    """the line at the affine point P of E(F_p): c scaled by x_P, b by y_P"""
    return list(l[0:2]) + R.mulc(l[2:4], P[1]) + R.mulc(l[4:6], P[0])
def dblP(R, r, P): l, q = line_dbl(R, r); return at_P(R, l, P) + q
def dblN(R, r): l, q = line_dbl(R, r); return l + q
def addP(R, r, q, P): l, s = line_add(R, r, q); return at_P(R, l, P) + s
def addN(R, r, q): l, s = line_add(R, r, q); return l + s
c3 = {(0, 4): 3, (0, 5): 3}
C('Fp6::pointDblLineEvalWithoutP', ['o:Fp6', 'io:R3'], dblN, props=('C40',), outk=c3)
C('Fp6::pointDblLineEval', ['o:Fp6', 'io:R3', 'i:P2'], dblP, props=('C40',))
C('c:Fp6::mulFp6_24_Fp_01', ['io:Fp6', 'i:P2'], lambda R, l, P: at_P(R, l, P), props=('C40',), cxx=True, ink=c3)
C('c:Fp6::pointDblLineEvalWithoutPC', ['o:Fp6', 'io:R3'], dblN, props=('C40',), cxx=True, outk=c3)
C('c:Fp6::pointDblLineEvalC', ['o:Fp6', 'io:R3', 'i:P2'], dblP, props=('C40',), cxx=True)
C('c:Fp6::pointAddLineEvalWithoutP', ['o:Fp6', 'io:R3', 'i:Q2'], addN, props=('C40',), cxx=True)
C('c:Fp6::pointAddLineEval', ['o:Fp6', 'io:R3', 'i:Q2', 'i:P2'], addP, props=('C40',), cxx=True)
C('c:Fp6::mul_Fp_b', ['io:Fp6', 'i:Fp'], lambda R, l, k: l[:2] + R.mulc(l[2:4], k[0]) + l[4:], props=('C40',), cxx=True)
C('c:Fp6::mul_Fp_c', ['io:Fp6', 'i:Fp'], lambda R, l, k: l[:4] + R.mulc(l[4:6], k[0]), props=('C40',), cxx=True)
