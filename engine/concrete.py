"""search for a concrete input on which the library's real code breaks a contract, once an obligation of
that contract has not been discharged; also re-runs a recorded input"""
import random, subprocess, time, os
import contracts
from contracts import *
A_PATTERNS = None

class ConcRing:
    def __init__(self, p): self.p = p
    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def neg(self, a): return -a % self.p
    def mul(self, a, b): return a * b % self.p
    def scale(self, a, k): return a * k % self.p
    def const(self, c): return c % self.p
class ZRing:
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def neg(self, a): return -a
    def mul(self, a, b): return a * b
    def scale(self, a, k): return a * k
    def const(self, c): return c
def ring(p, xi):
    R = Ring2(ConcRing(p), xi); R.half = pow(2, -1, p); R.R = (1 << 256) % p; R.Rinv = pow(R.R, -1, p); R.pNh = [(p << 255) % p] * 2
    return R
def zring(p, xi):
    R = Ring2(ZRing(), xi); R.half = None; R.pNh = [p << 255] * 2
    return R

class Proc:
    """one replay process; restarted after a crash"""
    def __init__(self, exe, args):
        self.cmd = [exe] + [str(a) for a in args]; self.p = None
    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def ask(self, line):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(line + '\n'); self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError): r = ''
        if not r:
            try: self.p.kill()
            except OSError: pass
            rc = self.p.wait(); self.p = None
            return ['died', str(rc)]
        return r.split()
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(timeout=5)
            except Exception: self.p.kill(); self.p.wait()
            self.p = None

EDGE64 = [0, 1, 2, (1 << 64) - 1, (1 << 64) - 2, 1 << 63, (1 << 63) - 1]
def sample(rnd, lo, hi, p):
    k = rnd.randrange(12)
    if k == 0: v = rnd.choice([lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, (lo + hi) // 2])
    elif k == 1: v = rnd.choice([0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1, (1 << 256) % p, pow(1 << 256, 2, p)])
    elif k <= 4:
        n = max(1, (hi.bit_length() + 63) // 64); v = 0
        for i in range(n):
            w = rnd.choice(EDGE64) if rnd.random() < 0.6 else rnd.getrandbits(64)
            v |= w << 64 * i
    elif k == 5: v = rnd.choice([1, 2, 3, p - 1, p]) << rnd.randrange(0, max(1, hi.bit_length()))
    elif k == 6: v = (rnd.choice([p, p << 256, p >> 1, 1 << 256, 1 << 254]) + rnd.randrange(-3, 4))
    elif k == 7: v = hi - rnd.getrandbits(rnd.randrange(1, 200))
    elif k == 8: v = rnd.getrandbits(rnd.randrange(1, max(2, hi.bit_length())))
    else: return rnd.randint(lo, hi)
    if not lo <= v <= hi:
        v = lo + v % (hi - lo + 1)
    return v

def hi_of(c, nw, p, i=0, j=0):
    hi = p - 1 if nw == 4 else (p << 256) - 1
    if c.inhi == 'full' or c.pre in ('sum', 'diff', 'subopt'): hi = (1 << 64 * nw) - 1
    elif c.inhi == 'lt2p' and nw == 4: hi = 2 * p - 2
    elif c.inhi == 'le6p': hi = min(6 * p, (1 << 256) - 1)
    if (i, j) in c.ink: hi = c.ink[i, j] * (p - 1)
    return hi

class Case:
    """one concrete call of a contract's routine"""
    def __init__(self, c, pat, vals, p, xi):
        self.c = c; self.pat = pat; self.vals = vals; self.p = p; self.xi = xi
    def layout(self):
        off = {}; n = 8
        for i, (d, t) in enumerate(self.c.args):
            s = self.pat[i]
            if s not in off: off[s] = n; n += contracts.tsize(t) // 8 + 8
        return off, n
    def line(self):
        off, n = self.layout()
        rnd = random.Random(5)
        ar = [rnd.getrandbits(64) for _ in range(n)]
        for i, (d, t) in enumerate(self.c.args):
            if d == 'o': continue
            nw = NWORD[t]; o = off[self.pat[i]]
            for j, v in enumerate(self.vals[i]):
                for k in range(nw): ar[o + nw * j + k] = (v >> 64 * k) & ((1 << 64) - 1)
        self.arena = ar
        a = ' '.join(str(off[self.pat[i]]) for i in range(len(self.pat)))
        return 'call %s %d %s %d %s' % (self.c.entry, len(self.pat), a, n, ' '.join('%x' % w for w in ar))
    def check(self, rep):
        """None if the reply satisfies the contract, else a description"""
        c = self.c; p = self.p
        if rep[0] == 'missing': return None
        if rep[0] != 'ok': return 'the call did not return (%s)' % ' '.join(rep)
        if rep[2] != '0': return 'a callee-saved register was not restored'
        ar = [int(w, 16) for w in rep[3:]]
        off, n = self.layout()
        t0 = c.args[c.outs[0]][1]; wr = []; slots = []
        for i in c.outs:
            t = c.args[i][1]; o = off[self.pat[i]]; wr.append((o, o + contracts.tsize(t) // 8))
            slots += [(i, j, o + NWORD[t] * j) for j in range(NCOMP[t])]
        o = wr[0][0]
        for i in range(n):
            if ar[i] != self.arena[i] and not any(l <= i < h for l, h in wr): return 'word %d outside the output object was changed' % (i - o)
        nw = NWORD[t0]
        out = [sum(ar[q + k] << 64 * k for k in range(nw)) for i, j, q in slots]
        R = ring(p, self.xi)
        vals = []; raw = []
        for i, (d, t) in enumerate(c.args):
            if d == 'o': continue
            sc = R.Rinv if NWORD[t] == 4 else R.Rinv * R.Rinv % p
            raw.append(self.vals[i]); vals.append([v * sc % p for v in self.vals[i]])
        if c.kind in ('exact',):
            e = c.fn(zring(p, self.xi), *raw)
            for j in range(len(out)):
                if out[j] != e[j]: return 'out[%d] = %#x, specified %#x' % (j, out[j], e[j])
            return None
        lim = None if c.outhi else (p - 1 if nw == 4 else (p << 256) - 1)
        for j in range(len(out)):
            if lim is not None and out[j] > lim * c.outk.get(slots[j][:2], 1): return 'out[%d] = %#x is out of range' % (j, out[j])
        if c.kind == 'modN':
            e = c.fn(zring(p, self.xi), *raw)
            for j in range(len(out)):
                if (out[j] - e[j]) % (p << 256) and not c.name.endswith('mul_xi') and not c.name.endswith('mul_xiC'):
                    return 'out[%d] = %#x is not congruent to %#x modulo p*2^256' % (j, out[j], e[j])
        sc = R.Rinv if nw == 4 else R.Rinv * R.Rinv % p
        got = [v * sc % p for v in out]
        if c.kind == 'inv':
            if R.mul(vals[0], got) != R.one(len(got)): return 'x * out is not 1'
            return None
        e = c.fn(R, *vals)
        for j in range(len(out)):
            if got[j] != e[j] % p: return 'out[%d] = %#x represents %#x, specified %#x' % (j, out[j], got[j], e[j] % p)
        return None

def gen(c, pat, rnd, p, xi, hint=None):
    vals = [None] * len(c.args); slot = {}
    R = ring(p, xi)
    for i, (d, t) in enumerate(c.args):
        if d == 'o': continue
        s = pat[i]
        if s in slot: vals[i] = slot[s]; continue
        nw = NWORD[t]; hi = hi_of(c, nw, p); n = NCOMP[t]
        if c.rels is not None:
            f = [rnd.randrange(p) for _ in range(12)]
            e = cyclo(R, f)
            v = [x * R.R % p for x in e]
            if rnd.random() < 0.1: v = [x * R.R % p for x in R.one(12)]
        else:
            v = [sample(rnd, 0, hi_of(c, nw, p, i, j), p) for j in range(n)]
            if rnd.random() < 0.15: v = [rnd.choice(v)] * n
            if rnd.random() < 0.1:
                j = rnd.randrange(n); v = [v[k] if k == j else 0 for k in range(n)]
            elif n > 1 and rnd.random() < 0.1:
                # a block of the tower (one extension level) is zero
                b = rnd.choice([q for q in (1, 2, 6) if q < n and n % q == 0]); j = rnd.randrange(n // b)
                v = [0 if k // b == j else v[k] for k in range(n)]
            if n > 1 and rnd.random() < 0.03: v = [0] * n
            if hint: v = [hint.get((i, j), x) if hint.get((i, j), 0) <= hi else x for j, x in enumerate(v)]
        if i and slot and rnd.random() < 0.15 and c.rels is None:
            w = rnd.choice(list(slot.values()))
            if len(w) == n: v = list(w) if rnd.random() < 0.5 else [(hi + 1 - x) % (hi + 1) for x in w]
        vals[i] = slot[s] = v
    if c.kind == 'inv' and all(x == 0 for x in vals[0 if c.args[0][0] == 'io' else 1]): return None
    if c.pre:
        ins = [i for i, (d, t) in enumerate(c.args) if d != 'o']
        x, y = vals[ins[0]], vals[ins[1]]
        nw = NWORD[c.args[ins[0]][1]]; M = (1 << 64 * nw) - 1
        for j in range(len(x)):
            a, b = x[j], y[j]
            if c.pre == 'sum' and a + b > M:
                if pat[ins[0]] == pat[ins[1]]: x[j] = y[j] = a >> 1
                else: y[j] = b % (M - a + 1)
            elif c.pre == 'diff' and a < b: x[j], y[j] = b, a
            elif c.pre == 'subopt' and not 0 <= a - b + (p << 255) <= M:
                return None
    return vals
def cyclo(R, f):
    """f^((p^6-1)(p^2+1))"""
    c = frob12(R, f, 6)
    g = R.mul12(c, inv12(R, f))
    return R.mul12(frob12(R, g, 2), g)
def invn(R, x):
    """inverse by norms down the tower"""
    p = R.A.p
    if len(x) == 1: return [pow(x[0], -1, p)]
    if len(x) == 2:
        n = pow(norm_down(R, x)[0], -1, p)
        return [x[0] * n % p, -x[1] * n % p]
    if len(x) == 6:
        a, b, c = x[:2], x[2:4], x[4:6]; m = R.mul2
        A = R.sub(m(a, a), R.mulxi(m(b, c))); B = R.sub(R.mulxi(m(c, c)), m(a, b)); C = R.sub(m(b, b), m(a, c))
        i = invn(R, norm_down(R, x))
        return m(A, i) + m(B, i) + m(C, i)
    i = invn(R, norm_down(R, x))
    return R.mul6(x[:6], i) + R.neg(R.mul6(x[6:], i))
def inv12(R, x): return invn(R, x)

def search(exe, variant, cname, pats, p, xi, seed, budget, hints=()):
    """returns (line, description) of a failing call or None, and the number of calls made"""
    c = TABLE[cname]
    pr = Proc(exe, variant)
    rnd = random.Random(seed)
    t0 = time.time(); n = 0
    hints = list(hints)
    try:
        while time.time() - t0 < budget:
            for pat in pats:
                h = rnd.choice(hints) if hints and rnd.random() < 0.3 else None
                v = gen(c, pat, rnd, p, xi, h)
                if v is None: continue
                case = Case(c, pat, v, p, xi)
                line = case.line(); n += 1
                rep = pr.ask(line)
                bad = case.check(rep)
                if bad: return (line, bad), n
    finally: pr.close()
    return None, n
