"""obligations about the state Param::init leaves behind.  init takes finitely many inputs (the supported curves and the code
path choice), so its postcondition is discharged by evaluating it on the process image of every one of them"""
from ecprops import xipow
PT = 'bn::ParamT<bn::Fp2T<mie::Fp> >::'
M64 = (1 << 64) - 1

# what state() reads: object, bytes ('*n': the block it points to, 'v': the contents of the vector)
OBJ = [(PT + n, '80') for n in ('p', 'r', 't')] + [(PT + n, '81') for n in ('z', 'largest_c')] + [(PT + 'b', '4'), (PT + 'b_invxi', '64')]
OBJ += [(PT + n, '32') for n in ('half', 'i0', 'i1', 'Z')] + [(PT + n, '320') for n in ('gammar', 'gammar2', 'gammar3')] + [(PT + n, '64') for n in ('W2p', 'W3p')]
OBJ += [(PT + n, k) for n in ('siTbl', 'zReplTbl') for k in ('24', 'v')] + [(PT + 'useNAF', '1')]
OBJ += [('mie::Fp::' + n, '80') for n in ('p_', 'montgomeryR_', 'p_add1_div4_')] + [('mie::Fp::' + n, '32') for n in ('montgomeryR2_', 'one_')] + [('mie::Fp::invTbl_', '16384'), ('pN', '80'), ('pp_mont', '8')]
OBJ += [(n, k) for n, m in (('mie::Fp::halfTbl_', 64), ('mie::Fp::quarterTbl_', 128), ('mie::Fp::Dbl::pNTbl_', 256), ('s_pTbl', 320)) for k in ('8', '*%d' % m)]

class Sparse:
    """the objects printed by drivers/reinit.cpp"""
    def __init__(self, symaddr, fields):
        self.symaddr = symaddr; self.bl = []
        for f in fields:
            a, h = f.split(':')
            if h: self.bl.append((int(a, 16), bytes.fromhex(h)))
    def rd(self, a, n):
        for b, d in self.bl:
            if b <= a and a + n <= b + len(d): return int.from_bytes(d[a - b:a - b + n], 'little')
        raise KeyError('%#x' % a)

def state(img, cv, tag, conv=None):
    """conv: dicts name, ok, detail"""
    p, r, z, t, xi, b = cv['p'], cv['r'], cv['z'], cv['t'], tuple(cv['xi']), cv['b']
    R = (1 << 256) % p; out = []
    rd = img.rd if hasattr(img, 'rd') else lambda a, n: int.from_bytes(bytes(img.mem0.read(a + i, 1) for i in range(n)), 'little')
    def sym(nm, must=True):
        a = img.symaddr.get(nm)
        if a is None and must: ob('%s exists' % nm, False, 'no such object')
        return a
    def ob(n, ok, d=''): out.append(dict(name='init: %s [%s]' % (n, tag), ok=bool(ok), detail='' if ok else d, kind='constant'))
    def vuint(a):
        n = rd(a + 72, 8)
        if not 1 <= n <= 9: return None
        v = rd(a, 8 * n)
        return v if n == 1 or v >> 64 * (n - 1) else None
    def isv(n, nm, want, must=True):
        a = sym(nm, must)
        if a is None: return
        v = vuint(a); ob(n, v == want, '%s is %s' % (nm, 'not normalised' if v is None else hex(v)))
    def iss(n, nm, want):
        a = sym(nm)
        if a is None: return
        v = vuint(a); v = v if v is None else -v if rd(a + 80, 1) else v
        ob(n, v == want, '%s is %s' % (nm, v))
    def raw(n, a, k, want):
        v = rd(a, 8 * k); ob(n, v == want, 'is %#x, not %#x' % (v, want))
    def fp(n, a, want): raw(n, a, 4, want * R % p)
    def fp2(n, a, want): ob(n, rd(a, 32) == want[0] * R % p and rd(a + 32, 32) == want[1] * R % p, 'is (%#x, %#x) in stored form' % (rd(a, 32), rd(a + 32, 32)))
    def on(nm, f, must=True):
        a = sym(nm, must)
        if a is not None: f(a)
    isv('p is the value of the BN polynomial at z', PT + 'p', p); isv('r is the group order', PT + 'r', r); isv('t is the trace', PT + 't', t)
    iss('z is the curve parameter', PT + 'z', z); iss('the loop parameter is 6z + 2', PT + 'largest_c', 6 * z + 2)
    on(PT + 'b', lambda a: ob('b is the curve coefficient', rd(a, 4) == b, '%d' % rd(a, 4)))
    n = pow(xi[0] ** 2 + xi[1] ** 2, -1, p)
    on(PT + 'b_invxi', lambda a: fp2('b_invxi = b / xi', a, (b * xi[0] * n, -b * xi[1] * n)))
    on(PT + 'half', lambda a: fp('half = 1/2', a, pow(2, -1, p)))
    on(PT + 'i0', lambda a: fp('i0 = 0', a, 0)); on(PT + 'i1', lambda a: fp('i1 = 1', a, 1))
    for k, nm in ((1, 'gammar'), (2, 'gammar2'), (3, 'gammar3')):
        def g(a, k=k, nm=nm):
            for i in range(5): fp2('%s[%d] = xi^(%d (p^%d-1)/6)' % (nm, i, i + 1, k), a + 64 * i, xipow(cv, (i + 1) * (p ** k - 1) // 6))
        on(PT + nm, g)
    on(PT + 'W2p', lambda a: fp2('W2p = xi^((p-1)/3)', a, xipow(cv, (p - 1) // 3)))
    on(PT + 'W3p', lambda a: fp2('W3p = xi^((p-1)/2)', a, xipow(cv, (p - 1) // 2)))
    w = xipow(cv, (p * p - 1) // 3)
    ob('xi^((p^2-1)/3) lies in F_p', w[1] == 0); on(PT + 'Z', lambda a: fp('Z = xi^((p^2-1)/3)', a, w[0]))
    def sched(nm, want, must=True):
        a = sym(nm, must)
        if a is None: return
        s, e = rd(a, 8), rd(a + 8, 8)
        if not e - s: ob('%s is not empty' % nm, False); return
        ds = [rd(s + i, 1) for i in range(e - s)] if 0 < e - s < 1000 else []
        ds = [d - 256 if d > 127 else d for d in ds]
        ob('%s: digits are -1, 0, 1' % nm[len(PT):], ds and all(d in (-1, 0, 1) for d in ds), '%s' % ds)
        ob('%s: the digits represent %d' % (nm[len(PT):], want), sum(d << i for i, d in enumerate(reversed(ds))) == want, '%s' % ds)
        return ds
    ds = sched(PT + 'siTbl', abs(6 * z + 2))
    on(PT + 'useNAF', lambda a: ob('useNAF is set when the schedule has negative digits', not ds or bool(rd(a, 1)) or -1 not in ds, ''), False)
    if cv['snark']: sched(PT + 'zReplTbl', abs(z))
    # tables of the prime field
    isv('modulus of the prime field', 'mie::Fp::p_', p)
    isv('montgomeryR = 2^256 mod p', 'mie::Fp::montgomeryR_', R, False)
    isv('(p + 1) / 4', 'mie::Fp::p_add1_div4_', (p + 1) // 4, False)
    on('mie::Fp::montgomeryR2_', lambda a: raw('montgomeryR2 = 2^512 mod p', a, 4, R * R % p), False)
    on('mie::Fp::one_', lambda a: raw('one (raw)', a, 4, 1), False)
    def inv(a):
        bad = [i for i in range(3, 259) if rd(a + 32 * (511 - i), 32) != pow(2, i + 1, p) * R % p]
        ob('invTbl[k] = 2^(512-k) for every k = 253..508 inversion can ask for', not bad, 'wrong at %s' % bad[:4])
    on('mie::Fp::invTbl_', inv, False)
    def table(nm, k, want, what):
        a = img.symaddr.get(nm)
        if a is None: return
        a = rd(a, 8)
        for i, v in enumerate(want): raw('%s[%d] = %s' % (nm.split('::')[-1], i, what % i), a + 8 * k * i, k, v)
    h = (p + 1) // 2; q = (p + 1) // 4
    table('mie::Fp::halfTbl_', 4, [0, h], '%d/2 (raw)'); table('mie::Fp::quarterTbl_', 4, [0, q, 2 * q, 3 * q], '%d (p+1)/4 (raw)')
    table('mie::Fp::Dbl::pNTbl_', 8, [(p << 256) >> i for i in range(4)], 'p 2^256 >> %d')
    table('s_pTbl', 4, [i * p % (1 << 256) for i in range(10)], '%d p')
    isv('pN = p 2^256', 'pN', p << 256, False)
    on('pp_mont', lambda a: ob('pp = -1/p mod 2^64', rd(a, 8) == -pow(p, -1, 1 << 64) % (1 << 64), ''), False)
    return out
