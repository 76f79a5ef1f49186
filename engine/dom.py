"""Value domain of the verifier.

A machine word is a Python int, or a Word: an integer polynomial over atoms (input values, limbs,
carries, high halves, ...) together with a range that is known to contain it.  Every atom carries
a range; every operation adds the facts (linear inequalities over monomials) that define the atoms
it creates.  Polynomial identities are decided by normal form; inequalities by linear real/integer
arithmetic over monomials (z3), so both hold for every value of the inputs.
"""
from fractions import Fraction
import itertools, time, os
M64 = (1 << 64) - 1
B64 = 1 << 64
B256 = 1 << 256

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- integer polynomials
# dict: monomial (sorted tuple of variable ids) -> non-zero int or Fraction
BOOLS = set()          # ids of 0/1 atoms: x*x = x

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v += c
            if v: r[m] = v
            else: del r[m]
    return r

def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = -c
        else:
            v -= c
            if v: r[m] = v
            else: del r[m]
    return r

def norm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    if type(k) is int:
        return {m: norm(c * k) if type(c) is Fraction else c * k for m, c in a.items()}
    return {m: norm(c * k) for m, c in a.items()}

def mmul(m, n):
    if not m: return n
    if not n: return m
    l = sorted(m + n)
    if len(BOOLS):
        out = []
        for v in l:
            if out and out[-1] == v and v in BOOLS: continue
            out.append(v)
        return tuple(out)
    return tuple(l)

def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k)
            e = c * d
            if v is None: r[k] = e
            else:
                v += e
                if v: r[k] = v
                else: del r[k]
    return {m: norm(c) for m, c in r.items()}

def pconst(c): return {(): c} if c else {}
def pvar(i): return {(i,): 1}
def pkey(p): return frozenset(p.items())
def pisconst(p): return not p or (len(p) == 1 and () in p)

class Word:
    __slots__ = ('p', 'lo', 'hi', 'tag')
    def __init__(self, p, lo, hi, tag=None):
        if type(lo) is not int: lo = -int(-lo // 1)
        if type(hi) is not int: hi = int(hi // 1)
        self.p = p; self.lo = lo; self.hi = hi; self.tag = tag
    def __repr__(self):
        return 'W(%d terms,[%x,%x])' % (len(self.p), self.lo, self.hi)

def poly(w):
    if isinstance(w, int): return pconst(w)
    return w.p
def rng(w):
    if isinstance(w, int): return w, w
    return w.lo, w.hi

class Infeasible(Exception):
    pass

class Stats:
    queries = 0; unsat = 0; time = 0.0; lost = 0.0; giveup = 25.0; normal_forms = 0
    log = []

_names = []
_range = []
def reset():
    _names.clear(); _range.clear(); BOOLS.clear(); _envelopes.clear()

def newvar(name, lo, hi):
    i = len(_names)
    _names.append(name); _range.append((lo, hi))
    if lo == 0 and hi == 1: BOOLS.add(i)
    return i

def var_range(i): return _range[i]
def var_name(i): return _names[i]

def mono_range(m):
    lo, hi = 1, 1
    for v in m:
        a, b = _range[v]
        c = (lo * a, lo * b, hi * a, hi * b)
        lo, hi = min(c), max(c)
    return lo, hi

def prange(p):
    lo = hi = 0
    for m, c in p.items():
        a, b = mono_range(m) if m else (1, 1)
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
    return lo, hi

_envelopes = {}
def _num(c):
    if type(c) is Fraction:
        t = '(/ %d.0 %d.0)' % (abs(c.numerator), c.denominator)
        return t if c >= 0 else '(- %s)' % t
    return '%d.0' % c if c >= 0 else '(- %d.0)' % -c
def _mname(m): return 'm' + '_'.join(map(str, m))
def _envelope(m, isint):
    """range of the monomial m and McCormick envelopes for each way to split off a factor"""
    lo, hi = mono_range(m)
    n = _mname(m)
    R = lambda x: '(to_real %s)' % _mname(x) if isint(x) else _mname(x)
    out = ['(assert (and (<= %s %s) (<= %s %s)))' % (_num(lo), R(m), R(m), _num(hi))]
    more = []
    if len(m) >= 2:
        splits = set()
        for i in range(len(m)): splits.add(((m[i],), m[:i] + m[i+1:]))
        for x, y in sorted(splits):
            lx, hx = mono_range(x); ly, hy = mono_range(y)
            X = R(x); Y = R(y); Z = R(m)
            # (x-lx)(y-ly)>=0, (hx-x)(hy-y)>=0, (x-lx)(hy-y)>=0, (hx-x)(y-ly)>=0
            for cz, cx, cy, k in ((1, -ly, -lx, lx * ly), (1, -hy, -hx, hx * hy), (-1, hy, lx, -lx * hy), (-1, ly, hx, -hx * ly)):
                t = [Z if cz == 1 else '(- %s)' % Z]
                if cx: t.append('(* %s %s)' % (_num(cx), X))
                if cy: t.append('(* %s %s)' % (_num(cy), Y))
                if k: t.append(_num(k))
                out.append('(assert (>= %s 0.0))' % ('(+ %s)' % ' '.join(t) if len(t) > 1 else t[0]))
            if x == y and hx - lx > 1:
                c = lx + hx            # (2x - c)^2 >= 0
                out.append('(assert (>= (+ (* 4.0 %s) (* %s %s) %s) 0.0))' % (Z, _num(-4 * c), X, _num(c * c)))
            more += [x, y]
    return '\n'.join(out), more

class Ctx:
    """facts of one execution path"""
    def __init__(self):
        self.facts = []       # (poly, lo, hi)  lo/hi may be None
        self.memo = {}
        self.texts = {}       # fact -> (the polynomial it was written for, SMT text)
        self.byvar = {}       # var -> list of fact indexes
        self.subst = {}
    def copy(self):
        c = Ctx()
        c.facts = list(self.facts)
        c.memo = dict(self.memo)
        c.texts = self.texts
        c.byvar = {k: list(v) for k, v in self.byvar.items()}
        return c
    def fact(self, p, lo, hi):
        i = len(self.facts)
        self.facts.append((p, lo, hi))
        seen = set()
        for m in p:
            for v in m:
                if v not in seen:
                    seen.add(v)
                    self.byvar.setdefault(v, []).append(i)
    # ------------------------------------------------------------ word construction
    def word(self, p, lo=0, hi=M64, tag=None):
        if pisconst(p): 
            c = p.get((), 0)
            return c
        l, h = prange(p)
        if l > lo: lo = l
        if h < hi: hi = h
        if lo == hi and isinstance(lo, int): return lo
        return Word(p, lo, hi, tag)
    def fresh(self, name, lo=0, hi=M64):
        if lo == hi: return lo
        return Word(pvar(newvar(name, lo, hi)), lo, hi)
    def boolenum(self, s, f):
        """s depends only on few bools: multilinear polynomial of f(s)"""
        vs = set()
        for m in s:
            vs.update(m)
            if len(vs) > 3: return None
        for v in vs:
            if v not in BOOLS: return None
        vs = sorted(vs)
        r = {}
        for bits in itertools.product((0, 1), repeat=len(vs)):
            env = dict(zip(vs, bits))
            val = 0
            for m, c in s.items():
                if all(env[v] for v in m): val += c
            y = f(val)
            if y:
                t = pconst(y)
                for v in vs:
                    t = pmul(t, pvar(v) if env[v] else {(): 1, (v,): -1})
                r = padd(r, t)
        return r
    def indicators(self, v):
        """[(j, poly)]: 0/1 values, exactly one of them 1, the one of j iff v = j (small-range atom v)"""
        key = ('ind', v)
        t = self.memo.get(key)
        if t is None:
            lo, hi = var_range(v)
            ws = [newvar('i%d' % j, 0, 1) for j in range(lo + 1, hi + 1)]
            rest = {(w,): 1 for w in ws}
            self.fact(rest, 0, 1)
            q = {(w,): j - lo for w, j in zip(ws, range(lo + 1, hi + 1))}
            self.fact(psub(q, padd(pvar(v), pconst(-lo))), 0, 0)
            t = self.memo[key] = [(lo, psub(pconst(1), rest))] + [(j, pvar(w)) for j, w in zip(range(lo + 1, hi + 1), ws)]
            for w in ws: self.memo[('fam', w)] = v
        return t
    def smallenum(self, s, f):
        """s depends only on one small-range atom: f(s) over its indicator flags"""
        vs = set(v for m in s for v in m)
        fams = set(self.memo.get(('fam', v)) for v in vs)
        if len(fams) == 1 and None not in fams and all(len(m) <= 1 for m in s):
            val = lambda j, ip: s.get((), 0) + sum(s.get(m, 0) for m in ip if len(ip) == 1)
            v = fams.pop()
        else:
            if len(vs) != 1: return None
            v = vs.pop(); lo, hi = var_range(v)
            if v in BOOLS or hi - lo > 64: return None
            val = lambda j, ip: sum(c * j ** len(m) for m, c in s.items())
        r = {}
        for j, ip in self.indicators(v):
            x = val(j, ip)
            if type(x) is not int: return None
            y = f(x)
            if y: r = padd(r, pscale(ip, y))
        return r
    def split(self, s, lo, hi, width=64, what='c'):
        """s = r + 2^width * q with 0 <= r < 2^width; lo <= s <= hi. returns (r, q) as values"""
        B = 1 << width
        if pisconst(s):
            c = s.get((), 0)
            return c % B, c // B
        l, h = prange(s)
        if l > lo: lo = l
        if h < hi: hi = h
        if lo >= 0 and hi < B:
            return self.word(s, lo, hi), 0
        if lo // B == hi // B:
            q = int(lo // B)
            return self.word(psub(s, pconst(q * B)), lo - q * B, hi - q * B), q
        key = ('split', width, pkey(s))
        t = self.memo.get(key)
        if t is not None: return t
        e = self.boolenum(s, lambda v: v // B)
        if e is not None:
            q = self.word(e, int(lo // B), int(hi // B))
            r = self.word(psub(s, pscale(poly(q), B)), 0, B - 1)
            self.memo[key] = (r, q)
            return r, q
        if all((type(c) is int and c % B == 0) for m, c in s.items() if m):
            k = s.get((), 0)
            if type(k) is int:
                r = k % B
                qp = {m: c // B for m, c in psub(s, pconst(r)).items()}
                q = self.word(qp, int(lo // B), int(hi // B))
                if not isinstance(q, int): self.fact(qp, int(lo // B), int(hi // B))
                self.memo[key] = (r, q)
                return r, q
        ql, qh = int(lo // B), int(hi // B)
        if qh == ql + 1 and hi - lo < 64 and self.prove_ge0(psub(s, pconst(qh * B)), integral=True):
            # a sum of flags whose sign is known from the values behind them
            lo = qh * B; rp = psub(s, pconst(lo))
            r = Word(rp, 0, hi - lo); self.fact(rp, 0, hi - lo)
            self.memo[key] = (r, qh)
            return r, qh
        if qh == ql + 1:
            if ql == -1:
                b = self.fresh(what, 0, 1); q = Word(pscale(b.p, -1), -1, 0)
            else:
                b = self.fresh(what, 0, 1); q = Word(padd(b.p, pconst(ql)), ql, qh)
        else: q = self.fresh(what, ql, qh)
        rp = psub(s, pscale(poly(q), B))
        r = Word(rp, 0, B - 1)
        self.fact(rp, 0, B - 1)
        self.memo[key] = (r, q)
        return r, q
    def add(self, a, b, cin=0, width=64):
        if isinstance(a, int) and isinstance(b, int) and isinstance(cin, int):
            s = a + b + cin
            return s & ((1 << width) - 1), s >> width
        la, ha = rng(a); lb, hb = rng(b); lc, hc = rng(cin)
        s = padd(padd(poly(a), poly(b)), poly(cin))
        return self.split(s, la + lb + lc, ha + hb + hc, width)
    def sub(self, a, b, bin=0, width=64):
        if isinstance(a, int) and isinstance(b, int) and isinstance(bin, int):
            s = a - b - bin
            return s & ((1 << width) - 1), (1 if s < 0 else 0)
        la, ha = rng(a); lb, hb = rng(b); lc, hc = rng(bin)
        s = psub(psub(poly(a), poly(b)), poly(bin))
        r, q = self.split(s, la - hb - hc, ha - lb - lc, width)
        # q in {-1, 0}; borrow = -q
        if isinstance(q, int): return r, -q
        return r, Word(pscale(q.p, -1), -q.hi, -q.lo)
    def borrow_as_bool(self, q): return q
    def mul(self, a, b, width=64):
        if isinstance(a, int) and isinstance(b, int):
            s = a * b
            return s & ((1 << width) - 1), s >> width
        la, ha = rng(a); lb, hb = rng(b)
        return self.split(pmul(poly(a), poly(b)), la * lb, ha * hb, width, 'h')
    def div2k(self, a, k):
        """(a >> k, a mod 2^k)"""
        if k == 0: return a, 0
        if isinstance(a, int): return a >> k, a & ((1 << k) - 1)
        B = 1 << k
        if a.hi < B: return 0, a
        if all(type(c) is int and c % B == 0 for c in a.p.values()):
            return self.word({m: c // B for m, c in a.p.items()}, a.lo >> k, a.hi >> k), 0
        key = ('div2k', k, pkey(a.p))
        t = self.memo.get(key)
        if t is not None: return t
        e = self.boolenum(a.p, lambda v: v >> k)
        if e is None: e = self.smallenum(a.p, lambda v: v >> k)
        if e is not None:
            q = self.word(e)
            r = self.word(psub(a.p, pscale(e, B)))
        elif k <= 20:
            r = None
            if all(type(c) is int for c in a.p.values()):
                low = {m: c % B for m, c in a.p.items() if c % B}
                rk = ('remk', k, pkey(low))
                r = self.memo.get(rk)
                if r is None and sum(low.values()) < B and all(v in BOOLS for m in low for v in m):
                    r = self.word(low, 0, B - 1)        # the low bits are explicit
            else: rk = None
            if r is None:
                r = self.fresh('rem%d' % k, 0, B - 1)
                if rk: self.memo[rk] = r
            qp = pscale(psub(a.p, poly(r)), Fraction(1, B))
            q = Word(qp, a.lo >> k, a.hi >> k)
            self.fact(qp, a.lo >> k, a.hi >> k)
        else:
            q = self.fresh('quo%d' % k, a.lo >> k, a.hi >> k)
            rp = psub(a.p, pscale(poly(q), B))
            r = self.word(rp, 0, B - 1)
            if not isinstance(r, int): self.fact(rp, 0, B - 1)
        self.memo[key] = (q, r)
        return q, r
    def ite(self, c, x, y):
        """c ? x : y  with c a 0/1 value"""
        if isinstance(c, int): return x if c else y
        px, py = poly(x), poly(y)
        if pkey(px) == pkey(py): return x
        lx, hx = rng(x); ly, hy = rng(y)
        p = padd(py, pmul(poly(c), psub(px, py)))
        return self.word(p, min(lx, ly), max(hx, hy))
    # ------------------------------------------------------------ proofs
    def bounds_fact_monos(self, monos, addc):
        """McCormick envelopes for non-linear monomials"""
        done = set(); todo = list(monos)
        while todo:
            m = todo.pop()
            if len(m) < 2 or m in done: continue
            done.add(m)
            for i in range(len(m)):
                if i and m[i] == m[i-1]: continue
                x = (m[i],); y = m[:i] + m[i+1:]
                if len(m) == 2 and i == 1: break
                todo.append(y)
                lx, hx = mono_range(x); ly, hy = mono_range(y)
                # (x-lx)(y-ly)>=0 ...
                addc({m: 1, x: -ly} if x == y else None, m, x, y, lx, hx, ly, hy)
        return done
    def prove_ge0(self, goal, levels=(1, 2, 3, 100), timeout=20000, ints=True, integral=False):
        self.integral = integral or all(type(c) is int for c in goal.values())
        lo, hi = prange(goal)
        if lo >= 0 or (self.integral and lo > -1): return True
        if hi < 0: return False
        import z3
        t0 = time.time()
        key = ('ge0', pkey(goal), len(self.facts), self.integral, ints)
        if key in self.memo: return self.memo[key]
        last = None
        res = False
        for lv in levels:
            rel = set(); fr = set()
            for m in goal: fr.update(m)
            seenv = set(); 
            for _ in range(lv):
                nf = set()
                for v in fr:
                    if v in seenv: continue
                    seenv.add(v)
                    for fi in self.byvar.get(v, ()):
                        if fi not in rel:
                            rel.add(fi)
                            for m in self.facts[fi][0]: nf.update(m)
                fr = nf - seenv
                if not fr: break
            if rel == last:
                if lv < 100 and levels[-1] >= 100: continue
                if ints and self._int_query(goal, rel, timeout, z3): res = True
                break
            last = set(rel)
            if self._split_query(goal, rel, timeout, z3):
                res = True; break
            if lv >= 100 and ints and self._int_query(goal, rel, timeout, z3):
                res = True; break
        Stats.time += time.time() - t0
        self.memo[key] = res
        return res
    def _split_query(self, goal, rel, timeout, z3):
        bs = sorted(set(v for m in goal for v in m if v in BOOLS))
        if len(bs) > 3: bs = [v for v in bs if abs(goal.get((v,), 0)) >= 1 << 190][-3:]
        if len(bs) > 3: return self._query(goal, rel, timeout, z3, False)
        for bits in itertools.product((0, 1), repeat=len(bs)):
            if not self._query(goal, rel, timeout, z3, False, dict(zip(bs, bits))): return False
        return True
    def _int_query(self, goal, rel, timeout, z3):
        # one case per value of the small-range atom (a quotient estimate) the goal speaks about
        fams = set(self.memo.get(('fam', v)) for m in goal for v in m) - {None}
        if len(fams) != 1: return self._query(goal, rel, timeout, z3, True)
        ws = [m[0] for j, ip in self.indicators(fams.pop()) if len(ip) == 1 for m in ip]
        for one in [None] + ws:
            fix = {w: int(w == one) for w in ws}
            if self._query(goal, rel, 3000, z3, False, fix): continue
            if not self._query(goal, rel, timeout, z3, True, fix): return False
        return True
    def _query(self, goal, rel, timeout, z3, ints, fix={}):
        """True iff  facts[rel] and the ranges and McCormick envelopes of their monomials imply goal >= 0
        (> -1 when the goal is integral); fix: 0/1 values assumed for some flags"""
        isint = (lambda m: all(v in BOOLS for v in m)) if ints else (lambda m: False)
        monos = {}        # monomial -> name
        def lin(p):
            t = []
            for m, c in p.items():
                if not m: t.append(_num(c))
                else:
                    monos.setdefault(m)
                    n = _mname(m)
                    t.append('(* %s %s)' % (_num(c), '(to_real %s)' % n if isint(m) else n))
            if not t: return '0.0'
            return t[0] if len(t) == 1 else '(+ ' + ' '.join(t) + ')'
        out = []
        cache = self.texts
        for fi in sorted(rel):
            p, lo, hi = self.facts[fi]
            e = cache.get((fi, ints))
            if e is None or e[0] is not p:
                L = lin(p)
                if lo is not None and lo == hi: e = '(assert (= %s %s))' % (L, _num(lo))
                else: e = ('(assert (>= %s %s))' % (L, _num(lo)) if lo is not None else '') + ('(assert (<= %s %s))' % (L, _num(hi)) if hi is not None else '')
                e = cache[(fi, ints)] = (p, e)
            else:
                for m in p:
                    if m: monos.setdefault(m)
            out.append(e[1])
        out.append('(assert (%s %s %s))' % (('<=', lin(goal), '(- 1.0)') if self.integral else ('<', lin(goal), '0.0')))
        # ranges and envelopes
        todo = list(monos); done = set()
        while todo:
            m = todo.pop()
            if m in done: continue
            done.add(m)
            monos.setdefault(m)
            e = _envelopes.get((m, ints))
            if e is None: e = _envelopes[(m, ints)] = _envelope(m, isint)
            out.append(e[0]); todo.extend(e[1])
            if fix:
                k = [v for v in m if v in fix]
                if k:
                    n = _mname(m)
                    if isint(m): n = '(to_real %s)' % n
                    if any(fix[v] == 0 for v in k): out.append('(assert (= %s 0.0))' % n)
                    else:
                        r = tuple(v for v in m if v not in fix)
                        if not r: out.append('(assert (= %s 1.0))' % n)
                        else:
                            o = _mname(r); todo.append(r)
                            out.append('(assert (= %s %s))' % (n, '(to_real %s)' % o if isint(r) else o))
        logic = 'QF_LIRA' if ints else 'QF_LRA'
        text = '\n'.join(['(declare-const %s %s)' % (_mname(m), 'Int' if isint(m) else 'Real') for m in monos] + out)
        Stats.queries += 1
        # time spent on questions without a positive answer is bounded per contract
        if Stats.lost > Stats.giveup: self.last_result = 'given up'; return False
        t0 = time.time()
        s = z3.SolverFor(logic)
        s.set('timeout', timeout)
        s.from_string(text)
        r = s.check()
        for seed in (7, 23, 91):
            if r != z3.unknown or timeout < 10000 or Stats.lost + time.time() - t0 > Stats.giveup: break
            s2 = z3.SolverFor(logic)
            s2.set('timeout', timeout * 2); s2.set('random_seed', seed)
            if seed == 23: s2.set('arith.solver', 2)
            s2.from_string(text)
            r = s2.check()
            if r != z3.unknown: s = s2
        if r == z3.unsat:
            Stats.unsat += 1
            return True
        Stats.lost += time.time() - t0
        self.last_result = str(r)
        if r == z3.sat:
            self.last_model = s.model()
        return False
    def prove_range(self, p, lo, hi):
        if not pisconst(p):
            pass
        return self.prove_ge0(psub(p, pconst(lo))) and self.prove_ge0(psub(pconst(hi), p))
    def const_bool(self, v):
        """value of the 0/1 atom v if it is the same in all models, else None"""
        if self.prove_ge0({(): 1, (v,): -2}, ints=False): return 0
        if self.prove_ge0({(): -1, (v,): 2}, ints=False): return 1
        return None
    def feasible(self, levels=3):
        """False only if the facts near the last one are contradictory"""
        if not self.facts: return True
        import z3
        rel = {len(self.facts) - 1}; fr = set(v for m in self.facts[-1][0] for v in m); seen = set()
        for _ in range(levels):
            nf = set()
            for v in fr:
                if v in seen: continue
                seen.add(v)
                for fi in self.byvar.get(v, ()):
                    if fi not in rel:
                        rel.add(fi)
                        for m in self.facts[fi][0]: nf.update(m)
            fr = nf - seen
            if len(rel) > 400: break
        t0 = time.time()
        self.integral = True
        r = self._query(pconst(-1), rel, 3000, z3, False)
        Stats.time += time.time() - t0
        return not r
