"""Function summaries of straight-line word-level code (the run-time generated routines) and their
comparison with the written contracts.

A summary is derived, for all inputs in the stated ranges, by symbolic execution over integer
polynomials: each output group (4 or 8 words) is shown to be either an exact integer polynomial of the
input groups or congruent to one modulo p with a proven range.  Callees are used through their own
summaries (memoised per routine, access pattern and input ranges)."""
import random, time
from dom import *
import dom
from x86 import *
from fpoly import FP
import contracts

class Fail(Exception):
    """an obligation that is not discharged"""
    def __init__(self, what, **kw):
        Exception.__init__(self, what); self.kw = kw

class Group:
    __slots__ = ('addr', 'n', 'E', 'hi', 'limbs', 'V')
    def __init__(self, addr, n, E, hi, limbs, V=None):
        self.addr = addr; self.n = n; self.E = E; self.hi = hi; self.limbs = limbs; self.V = V
    def copy(self): return self

class JitEngine:
    def __init__(self, img, p):
        self.img = img; self.p = p; self.F = FP(p)
        self.pN = p << 256
        self.m = Machine(img)
        self.m.step = self.step
        self.summaries = {}
        self.rng = random.Random(1)
        self.nobl = 0
        self.log = []
        self.building = []
        self.verified_routines = {}
        self.inline = set()
        self.cand4 = [p, 2 * p, 3 * p, 4 * p, 1 << 256]
        self.cand8 = [self.pN, 2 * self.pN, 1 << 512]
        self.contracts = {}          # address -> contract usable at calls
        self.use_contracts = False
        self.used = {}               # contracts relied on
        self.ring2 = None
    # ------------------------------------------------------------------ groups
    def new_group(self, s, addr, n, hi, name):
        V = newvar(name, 0, hi)
        s.fval[V] = self.F.var(V)
        return self.put_group(s, addr, n, pvar(V), hi, V)
    def put_group(self, s, addr, n, E, hi, V=None):
        """write the group with value E (exact) as fresh limbs"""
        hi = min(hi, (1 << 64 * n) - 1)
        ls = []
        p0 = E
        for i in range(1, n):
            l = newvar('l%d' % i, 0, min(M64, hi >> (64 * i)) if E and V is not None else M64)
            ls.append(l)
            p0 = psub(p0, {(l,): 1 << 64 * i})
        w0 = s.ctx.word(p0, 0, M64)
        if not isinstance(w0, int): s.ctx.fact(p0, 0, M64)
        ws = [w0] + [Word(pvar(l), 0, var_range(l)[1]) for l in ls]
        for i in range(n): s.mem[addr + 8 * i] = ws[i]
        g = Group(addr, n, E, hi, ws, V)
        s.user.setdefault('groups', {})[addr] = g
        return g
    def words(self, s, addr, n):
        ws = []
        for i in range(n):
            w = s.mem.get(addr + 8 * i)
            if w is None: w = s.rd8(addr + 8 * i)
            if w is None or type(w) is dict: return None
            ws.append(w)
        return ws
    def find_group(self, s, addr, n):
        g = s.user.get('groups', {}).get(addr)
        if g is None or g.n != n: return None
        for i in range(n):
            if s.mem.get(addr + 8 * i) is not g.limbs[i]: return None
        return g
    def isval(self, s, m):
        return all(v in s.fval for v in m)
    def cmod(self, c):
        if type(c) is int: return c % self.p
        return c.numerator * pow(c.denominator, -1, self.p) % self.p
    def sumE(self, ws):
        E = {}
        for i, w in enumerate(ws): E = padd(E, pscale(poly(w), 1 << 64 * i))
        return E
    def fmod(self, s, E):
        """value of E modulo p as a polynomial over the input values"""
        F = self.F; r = {}
        for m, c in E.items():
            c = self.cmod(c)
            if not c: continue
            t = {(): c}
            for v in m: t = F.mul(t, s.fval[v])
            r = F.add(r, t)
        return r
    def settle(self, s, addr, n, force=False):
        """recognise the n words at addr as one value; returns the Group or None"""
        g = self.find_group(s, addr, n)
        if g is not None: return g
        ws = self.words(s, addr, n)
        if ws is None: return None
        E = self.sumE(ws)
        if pisconst(E):
            return Group(addr, n, E, E.get((), 0), ws) if force else None
        F = self.F
        for rnd in range(12):
            junk = [m for m, c in E.items() if m and not self.isval(s, m) and self.cmod(c)]
            if not junk: break
            if len(junk) > (24 if force else 4 if not self.small_comb(E, junk) else 16): return None
            if not force and any(len([v for v in m if v not in s.fval]) > 1 for m in junk): return None
            bs = sorted(set(v for m in junk for v in m if v not in s.fval))
            if any(v not in BOOLS for v in bs): return None
            done = len(bs) > 4 and self.linear_junk(s, E, junk)
            for v in bs if not done else ():
                b = s.ctx.const_bool(v)
                if b is not None:
                    s.substitute(v, pconst(b)); done = True
            if not done and len(bs) > 2:
                done = self.linear_junk(s, E, junk)
            if not done:
                for i in range(len(bs)):
                    for j in range(i):
                        x, y = bs[j], bs[i]
                        if s.ctx.prove_ge0({(x,): 2, (y,): -2, (): 1}) and s.ctx.prove_ge0({(x,): -2, (y,): 2, (): 1}):
                            s.substitute(y, pvar(x)); done = True; break
                    if done: break
            if not done and len(bs) == 3:
                # one flag is the sum of two exclusive ones
                for k in range(3):
                    o = [b for i, b in enumerate(bs) if i != k]
                    q = {(bs[k],): 1, (o[0],): -1, (o[1],): -1}
                    if s.ctx.prove_ge0(q) and s.ctx.prove_ge0(pscale(q, -1)):
                        s.substitute(bs[k], {(o[0],): 1, (o[1],): 1}); done = True; break
            if not done: return None
            ws = self.words(s, addr, n); E = self.sumE(ws)
        sel = [m for m in E if m and not self.isval(s, m)]
        if not sel and all(type(c) is int for c in E.values()):
            lo, hi = prange(E)
            return self.put_group(s, addr, n, E, hi)
        hi = None
        for c in (self.cand4 if n == 4 else self.cand8):
            if c >> (64 * n) or s.ctx.prove_ge0(psub(pconst(c - 1), E), integral=True):
                hi = c - 1; break
        V = newvar('v', 0, hi)
        s.fval[V] = self.fmod(s, E)
        nv = s.user.get('nval')
        if n == 8 and nv is not None:
            q = {m: c for m, c in E.items() if not m or self.isval(s, m)}
            if all(type(c) is int and c % self.pN == 0 for m, c in E.items() if m and not self.isval(s, m)):
                nv[V] = q
        # relations that stay useful: none (the value is now known modulo p and by range)
        g = self.put_group(s, addr, n, pvar(V), hi, V)
        return g
    def small_comb(self, E, junk):
        if any(len(m) != 1 or m[0] not in BOOLS for m in junk): return False
        p = self.p
        c0 = pow(self.cmod(E[junk[0]]), -1, p)
        return all(min(k, p - k) <= 8 for k in (self.cmod(E[m]) * c0 % p for m in junk))
    def linear_junk(self, s, E, junk):
        """flags that enter the value only through one small linear combination with a constant value"""
        if any(len(m) != 1 for m in junk): return False
        p = self.p
        c0 = pow(self.cmod(E[junk[0]]), -1, p)
        L = {}
        for m in junk:
            k = self.cmod(E[m]) * c0 % p
            if k > p // 2: k -= p
            if abs(k) > 8: return False
            L[m] = k
        for j in (0, 1, -1, 2, -2):
            d = psub(L, pconst(j))
            if s.ctx.prove_ge0(d, integral=True) and s.ctx.prove_ge0(pscale(d, -1), integral=True):
                v = [m for m in junk if abs(L[m]) == 1][-1]
                rep = pscale(psub(pconst(j), {m: k for m, k in L.items() if m != v}), L[v])
                s.substitute(v[0], rep)
                return True
        return False
    # ------------------------------------------------------------------ execution with settling
    def step(self, s):
        pc = s.pc
        mn, ops, txt, nxt = self.img.decode(pc)
        st = None
        if ops and ops[0][0] == 'm' and mn in ('mov', 'add', 'adc', 'sub', 'sbb') and s.user.get('settling'):
            a = s.ea(ops[0])
            if isinstance(a, int): st = a
        pend = s.user.get('pend')
        if st is None and pend:
            if mn not in ('nop',): self.flush(s)
        r = Machine.step(self.m, s)
        if st is not None: s.user.setdefault('pend', set()).add(st & ~7)
        return r
    def flush(self, s):
        pend = sorted(s.user['pend']); s.user['pend'] = set()
        ends = [a for a in pend if a + 8 not in pend]
        for e in ends:
            self.settle(s, e - 24, 4) if self.symb(s, e - 24, 4) else None
            if self.symb(s, e - 56, 8): self.settle8(s, e - 56)
            # a low half written last
            if self.symb(s, e - 24, 8) and (e + 8) not in s.user.get('nolow', ()): self.settle8(s, e - 24)
    def settle8(self, s, a):
        # do not merge two neighbouring 4-word values into one
        if self.find_group(s, a, 4) or self.find_group(s, a + 32, 4): return
        self.settle(s, a, 8)
    def symb(self, s, a, n):
        for i in range(n):
            if not isinstance(s.mem.get(a + 8 * i), Word): return False
        return True
    # ------------------------------------------------------------------ calls
    def on_call(self, m, s):
        if s.user.get('pend'): self.flush(s)
        target = s.pc
        if not s.user.get('settling'): return None
        c = self.contracts.get(target) if self.use_contracts else None
        if c is not None and self.apply_contract(s, target, c): return None
        if target in self.inline: return None
        r = self.apply(s, target)
        if r is False: return None
        return None
    def dry(self, s, target):
        """concrete run of the callee with random data; returns (trace, final regs, xmm) or None"""
        d = State(self.img)
        d.stack_lo, d.stack_hi = s.stack_lo, s.stack_hi
        d.regions = s.regions
        rnd = self.rng
        d.r = {k: (v if isinstance(v, int) else rnd.getrandbits(63)) for k, v in s.r.items()}
        d.x = {k: [t if isinstance(t, int) else rnd.getrandbits(63) for t in v] for k, v in s.x.items()}
        class DMem(dict):
            def get(self_, a, default=None):
                v = dict.get(self_, a)
                if v is not None: return v
                v = s.mem.get(a)
                if v is None: return default
                if isinstance(v, int): return v
                v = rnd.getrandbits(64)
                dict.__setitem__(self_, a, v)
                return v
        d.mem = DMem()
        trace = []; cells = {}
        ret = s.read(s.r['rsp'], 8)
        sp0 = s.r['rsp']
        inputs = {}; outputs = {}
        oread, owrite = d.read, d.write
        written = set()
        def read(a, n):
            if n != 8 or a & 7: trace.append(('odd',))
            al = a & ~7
            if not (al < sp0 and al >= s.stack_lo and al in written):
                v = s.mem.get(al)
                if al == sp0: pass
                elif al not in written and (isinstance(v, Word) or type(v) is dict or (v is None and s.stack_lo <= al < s.stack_hi)):
                    inputs.setdefault(al, len(inputs))
                elif al not in written:
                    trace.append(('const', al, v))
                if al in written or al in inputs: trace.append(('r', cells.setdefault(al, len(cells))))
            return oread(a, n)
        def write(a, n, v):
            if n != 8 or a & 7: trace.append(('odd',))
            al = a & ~7
            written.add(al)
            if not (s.stack_lo <= al < sp0):
                outputs.setdefault(al, len(outputs))
            trace.append(('w', cells.setdefault(al, len(cells))))
            return owrite(a, n, v)
        d.read, d.write = read, write
        d.pc = target
        mach = Machine(self.img)
        mach.maxsteps = 200000
        n = 0
        while d.pc != ret or d.r['rsp'] != sp0 + 8:
            mn, ops, txt, nxt = self.img.decode(d.pc)
            if mn[0] == 'j' and mn != 'jmp': return None
            if mach.step(d) is not None: return None
            n += 1
            if n > 100000: return None
        if ('odd',) in trace: return None
        return trace, d, inputs, outputs, cells
    def apply(self, s, target):
        t = self.dry(s, target)
        if t is None:
            self.inline.add(target); return False
        trace, d, inputs, outputs, cells = t
        if not outputs: return False
        # inputs must form known groups
        todo = sorted(inputs); gs = []
        i = 0; raw = []
        groups = s.user.get('groups', {})
        while i < len(todo):
            a = todo[i]
            g = groups.get(a)
            if g is not None and self.find_group(s, a, g.n) is None: g = None
            if g is None:
                c4 = all(a + 8 * k in inputs for k in range(4)) and self.settle(s, a, 4, True)
                c8 = None
                if not c4: c8 = all(a + 8 * k in inputs for k in range(8)) and self.settle(s, a, 8, True)
                g = c4 or c8 or None
            if g is None:
                return False
            gs.append(g)
            k = 0
            while i < len(todo) and todo[i] < a + 8 * g.n: i += 1
        if any(g.addr not in cells for g in gs): return False
        so = sorted(outputs)
        key = (target,
            tuple((tuple(cells.get(g.addr + 8 * k, -1) for k in range(g.n)), g.n, g.hi, tuple(sorted(g.E.items())) if pisconst(g.E) else None) for g in gs),
            tuple((cells[a], i > 0 and so[i - 1] + 8 == a) for i, a in enumerate(so)),
            tuple((k, s.r[k]) for k in sorted(s.r) if isinstance(s.r[k], int) and not self.is_pointer(s, s.r[k])),
            hash(tuple(trace)))
        sm = self.summaries.get(key)
        if sm is None:
            if key in self.building: raise Unsupported('recursion')
            self.building.append(key)
            sm = self.summarise(s, target, gs, outputs, cells, d, key)
            self.building.pop()
            self.summaries[key] = sm
        if sm is False: return False
        # instantiate
        for e in d.events: s.events.append(e)
        inv = {c: a for a, c in cells.items()}
        env = {}
        for (V, c, n) in sm['ins']:
            a = inv[c]
            g = [g for g in gs if g.addr == a][0]
            env[V] = g
        F = self.F
        newg = []
        for (c, n, kind, E, fv, hi) in sm['outs']:
            a = inv[c]
            if kind == 'exact':
                r = {}
                for m, k in E.items():
                    q = {(): k}
                    for v in m: q = pmul(q, env[v].E)
                    r = padd(r, q)
                newg.append((a, n, 'e', r, None, min(hi, prange(r)[1])))
            else:
                r = {}
                fin = {V: self.fmod(s, g.E) for V, g in env.items()}
                for m, k in fv.items():
                    q = {(): k}
                    for v in m: q = F.mul(q, fin[v])
                    r = F.add(r, q)
                nE = None
                if E is not None and 'nval' in s.user:
                    nE = {}
                    for m, k in E.items():
                        q = {(): k}
                        for v in m: q = pmul(q, env[v].E)
                        nE = padd(nE, q)
                newg.append((a, n, 'm', nE, r, hi))
        for (a, n, k, E, fv, hi) in newg:
            if k == 'e':
                if pisconst(E):
                    c0 = E.get((), 0)
                    for i in range(n): s.mem[a + 8 * i] = (c0 >> 64 * i) & M64
                else: self.put_group(s, a, n, E, hi)
            else:
                V = newvar('r', 0, hi)
                s.fval[V] = fv
                if E is not None: s.user['nval'][V] = E
                self.put_group(s, a, n, pvar(V), hi, V)
        # memory below the stack pointer is dead
        sp0 = s.r['rsp']
        for al in [al for al in s.mem if s.stack_lo <= al < sp0]: del s.mem[al]
        for rname, st in sm['regs'].items():
            if st == 'same': continue
            if st == 'int': s.r[rname] = d.r[rname]
            else: s.r[rname] = s.ctx.fresh('clob_' + rname)
        for xn, st in sm['xmm'].items():
            if st == 'same': continue
            if st == 'int': s.x[xn] = list(d.x[xn])
            else: s.x[xn] = [s.ctx.fresh('clobx'), s.ctx.fresh('clobx')]
        s.r['rsp'] = sp0
        s.cf = None; s.zs = None; s.src = None
        self.m.ret(s)
        return True
    def arg_value(self, s, a, t, his):
        """the components of an argument object as recognised values within 0..hi, or None"""
        nw = contracts.NWORD[t]; out = []
        for j in range(contracts.NCOMP[t]):
            g = self.settle(s, a + 8 * nw * j, nw, True)
            if g is None: return None
            hi = his[j]
            if not (g.hi <= hi if not pisconst(g.E) else 0 <= g.E.get((), 0) <= hi):
                if not s.ctx.prove_ge0(psub(pconst(hi), g.E), integral=True): return None
            out.append(g)
        return out
    def nonzero(self, s, v):
        """is the F_p[u] element (list of field polynomials) known to be non-zero on this path?"""
        F = self.F
        for q in s.user.get('nonzero', ()):
            if len(q) != len(v): continue
            if self.proportional(q, v): return True
        if all(pisconst(x) for x in v): return any(x for x in v)
        return False
    def proportional(self, q, v):
        F = self.F
        for a, b in zip(q, v):
            if a and b:
                m = min(a)
                if m not in b: return False
                k = b[m] * pow(a[m], -1, self.p) % self.p
                return all(F.scale(x, k) == y for x, y in zip(q, v))
        return False
    def apply_contract(self, s, target, c):
        """the call is replaced by the callee's contract: requires checked, ensures assumed"""
        F = self.F
        if c.kind not in ('can', 'inv', 'eff'): return False
        if c.inhi: return False
        regs = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
        ad = [s.r.get(regs[i]) for i in range(len(c.args))]
        if not all(isinstance(a, int) for a in ad): return False
        types = [t for d, t in c.args]
        for i in range(len(ad)):
            for j in range(i):
                if ad[i] == ad[j]:
                    if types[i] != types[j]: return False
                    if c.alias == 'none' and (c.args[i][0] != 'i' or c.args[j][0] != 'i'): return False
                elif ad[i] < ad[j] + contracts.tsize(types[j]) and ad[j] < ad[i] + contracts.tsize(types[i]): return False
        ins = []
        for ai, ((d, t), a) in enumerate(zip(c.args, ad)):
            if d == 'o': continue
            nw = contracts.NWORD[t]
            his = [c.ink.get((ai, j), 1) * (self.p - 1) if nw == 4 else self.pN - 1 for j in range(contracts.NCOMP[t])]
            v = self.arg_value(s, a, t, his)
            if v is None: return False
            s.region(a, contracts.tsize(t), 'r')
            sc = F.Rinv if nw == 4 else F.Rinv * F.Rinv % self.p
            ins.append([F.scale(self.fmod(s, g.E), sc) for g in v])
        R = self.ring2
        d0, t0 = c.args[0]
        nw = contracts.NWORD[t0]
        up = self.F.R if nw == 4 else self.F.R * self.F.R % self.p
        if c.kind == 'inv':
            x = ins[0]
            if not self.nonzero(s, x):
                if len(x) == 1: raise Unsupported('%s is called for a value not known to be non-zero' % c.name)
                return False
            memo = s.user.setdefault('invs', {})
            key = tuple(pkey(t) for t in x)
            res = memo.get(key)
            if res is None:
                res = [F.var(newvar('inv', 0, self.p - 1)) for _ in x]
                memo[key] = res
                rel = R.mul(x, res)
                one = R.one(len(x))
                s.user['rels'] = s.user.get('rels', []) + [F.sub(a, b) for a, b in zip(rel, one)]
        else: res = c.fn(R, *ins)
        self.used[c.name] = self.used.get(c.name, 0) + 1
        ix = 0
        for ai in c.outs:
            t0 = c.args[ai][1]; nw = contracts.NWORD[t0]
            up = self.F.R if nw == 4 else self.F.R * self.F.R % self.p
            s.region(ad[ai], contracts.tsize(t0), 'w')
            for j in range(contracts.NCOMP[t0]):
                a = ad[ai] + 8 * nw * j
                fv = F.scale(res[ix], up); ix += 1
                if pisconst(fv) and (ai, j) not in c.outk:
                    c0 = fv.get((), 0)
                    for i in range(nw): s.mem[a + 8 * i] = (c0 >> 64 * i) & M64
                    continue
                hi = self.p - 1 if nw == 4 else self.pN - 1
                hi *= c.outk.get((ai, j), 1)
                V = newvar('k', 0, hi)
                s.fval[V] = fv
                self.put_group(s, a, nw, pvar(V), hi, V)
        self.havoc(s)
        self.m.ret(s)
        return True
    def havoc(self, s):
        sp0 = s.r['rsp']
        for al in [al for al in s.mem if s.stack_lo <= al < sp0]: del s.mem[al]
        for r in CALLER_SAVED: s.r[r] = s.ctx.fresh('clob_' + r)
        for xn in list(s.x): s.x[xn] = [s.ctx.fresh('clobx'), s.ctx.fresh('clobx')]
        s.cf = None; s.zs = None; s.src = None
    def nform(self, s, E, invs):
        """integer polynomial over invs congruent to E modulo p*2^256, if known"""
        nv = s.user.get('nval', {})
        for _ in range(50):
            vs = [v for m in E for v in m if v not in invs]
            if not vs: return E
            if any(v not in nv for v in vs): return None
            r = {}
            for m, k in E.items():
                q = {(): k}
                for u in m: q = pmul(q, nv[u] if u in nv else pvar(u))
                r = padd(r, q)
            E = {m: c for m, c in r.items() if type(c) is not int or c % self.pN}
        return None
    def is_pointer(self, s, v):
        if s.stack_lo <= v <= s.stack_hi: return True
        if s.regions is not None:
            for lo, hi, _ in s.regions:
                if lo <= v <= hi: return True
        return self.img.mem0.find(v) is not None or v in s.mem
    def summarise(self, s, target, gs, outputs, cells, d, key):
        q = State(self.img)
        q.stack_lo, q.stack_hi = s.stack_lo, s.stack_hi
        q.regions = None
        q.user['settling'] = True
        q.user['pend'] = set()
        q.user['nval'] = {}
        q.r = {}; tokens = {}
        for k, v in s.r.items():
            if isinstance(v, int): q.r[k] = v
            else: q.r[k] = q.ctx.fresh('in_' + k)
            tokens[k] = q.r[k]
        xt = {}
        for k, v in s.x.items():
            q.x[k] = [t if isinstance(t, int) else q.ctx.fresh('inx%d' % k) for t in v]
            xt[k] = list(q.x[k])
        for a, v in s.mem.items():
            if isinstance(v, int): q.mem[a] = v
        ins = []
        for g in gs:
            if pisconst(g.E):
                for i in range(g.n): q.mem[g.addr + 8 * i] = g.limbs[i]
                continue
            ng = self.new_group(q, g.addr, g.n, g.hi, 'in%x' % g.addr)
            ins.append((ng.V, cells[g.addr] if g.addr in cells else -1, g.n))
        sp0 = s.r['rsp']
        q.pc = target
        self.nobl += 1
        while True:
            r = self.m.step(q)
            if r is not None:
                return False
            if q.r['rsp'] == sp0 + 8: break
        if q.user.get('pend'): self.flush(q)
        todo = sorted(outputs); outs = []; i = 0
        while i < len(todo):
            a = todo[i]
            g = q.user['groups'].get(a)
            if g is not None and self.find_group(q, a, g.n) is None: g = None
            if g is None and all(a + 8 * k in outputs for k in range(8)):
                g = self.settle(q, a, 4, True) or self.settle(q, a, 8, True)
            elif g is None and all(a + 8 * k in outputs for k in range(4)): g = self.settle(q, a, 4, True)
            if g is None: return False
            invs = set(v for v, _, _ in ins)
            if all(v in invs for m in g.E for v in m) and all(type(c) is int for c in g.E.values()):
                outs.append((cells[a], g.n, 'exact', g.E, None, g.hi))
            else:
                nE = self.nform(q, g.E, invs) if g.n == 8 else None
                outs.append((cells[a], g.n, 'mod', nE, self.fmod(q, g.E), g.hi))
            while i < len(todo) and todo[i] < a + 8 * g.n: i += 1
        regs = {}
        for k in R64:
            if k == 'rsp': continue
            v = q.r.get(k)
            if k in tokens and v is tokens[k]: regs[k] = 'same'
            elif isinstance(v, int) and v == tokens.get(k): regs[k] = 'same'
            elif k not in q.r: regs[k] = 'same'
            elif isinstance(v, int): regs[k] = 'int'
            else: regs[k] = 'junk'
        xmm = {}
        for k, v in q.x.items():
            if k in xt and all(x is y or (isinstance(x, int) and x == y) for x, y in zip(v, xt[k])): xmm[k] = 'same'
            elif all(isinstance(x, int) for x in v): xmm[k] = 'int'
            else: xmm[k] = 'junk'
        return {'ins': ins, 'outs': outs, 'regs': regs, 'xmm': xmm, 'target': target}
    # ------------------------------------------------------------------ entry points
    def run_entry(self, addr, args, groups, regions, loop=None, nvals=False, pre=None, noent=False):
        """args: register arguments; groups: list of (addr, n, hi, name); returns (final states, {name: V})"""
        s = self.m.start(addr, args)
        s.regions = regions
        s.user['settling'] = True
        s.user['pend'] = set()
        if nvals: s.user['nval'] = {}
        vs = {}
        for a, n, hi, name in groups:
            if name in vs: continue
            g = self.new_group(s, a, n, hi, name)
            vs[name] = g.V
        if pre: pre(s, vs)
        saved = {}
        for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'):
            saved[r] = s.r[r] = s.ctx.fresh('callee_' + r)
        s.user['saved'] = saved
        for r in ('rax', 'rcx', 'r8', 'r9', 'r10', 'r11', 'rdx', 'rsi', 'rdi'):
            if r not in s.r: s.r[r] = s.ctx.fresh('arg_' + r)
        self.m.hooks['*'] = lambda a: self.on_call if a != addr else None
        fin = self.m.run(s)
        for f in fin:
            if f.user.get('pend'): self.flush(f)
        return fin, vs
