"""Frame obligations of the run-time generated code: constant propagation with intervals over all paths.

Every data word is unknown; addresses, the stack pointer, return addresses and saved registers are
tracked.  Loops whose exit depends on data are handled by joining states at the targets of undecided
branches until nothing changes, so the result covers every number of iterations.  Each routine must
 - read only its declared inputs, its own stack frame and the process image (tables, code constants),
 - write only its declared output and its own stack frame,
 - return with the stack pointer and callee-saved registers of its caller."""
from x86 import *
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return '<' + self.n + '>'
class Iv:
    """an integer in lo..hi"""
    __slots__ = ('lo', 'hi')
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
    def __eq__(self, o): return isinstance(o, Iv) and o.lo == self.lo and o.hi == self.hi
    def __hash__(self): return hash((self.lo, self.hi))
    def __repr__(self): return '[%x,%x]' % (self.lo, self.hi)
TOP = Iv(0, M64)
def iv(v): return (v, v) if isinstance(v, int) else (v.lo, v.hi) if isinstance(v, Iv) else (0, M64)
def mk(lo, hi, w=64):
    if lo < 0 or hi >= 1 << w: return top(w)
    return lo if lo == hi else Iv(lo, hi)
def top(w): return TOP if w == 64 else Iv(0, (1 << w) - 1)
def trunc(v, w):
    if isinstance(v, int): return v & ((1 << w) - 1)
    if w == 64: return v
    lo, hi = iv(v)
    return mk(lo, hi, w) if hi < 1 << w else top(w)
def same(a, b): return a is b or (type(a) is type(b) and not isinstance(a, Tok) and a == b)

class FS:
    __slots__ = ('r', 'x', 'm', 'fl', 'pc', 'stk', 'steps')
    def copy(self):
        s = FS(); s.r = dict(self.r); s.x = dict(self.x); s.m = dict(self.m); s.fl = self.fl; s.pc = self.pc; s.stk = self.stk; s.steps = self.steps
        return s

class Flow:
    def __init__(self, img, regions, stack=(0x7ffd00000000 - 65536, 0x7ffd00000000)):
        self.img = img; self.regions = regions; self.lo, self.hi = stack; self.bad = []; self.nsteps = 0; self.insns = set()
    def flag(self, s, what):
        k = (what, s.pc)
        if k not in self.bad: self.bad.append(k)
    def access(self, s, lo, hi, n, kind):
        for l, h, m in self.regions:
            if l <= lo and hi + n <= h and kind in m: return
        # the routine's own frame: below the return address it was entered with
        if self.lo <= lo and hi + n <= self.hi and (kind == 'r' or hi + n <= self.hi - 8): return
        self.flag(s, 'access %s %#x..%#x+%d' % (kind, lo, hi, n))
    def ea(self, s, o):
        _, sz, base, idx, sc, disp, seg = o
        if seg in ('fs', 'gs'): raise Unsupported('segment')
        lo = hi = disp
        if base: a, b = iv(s.r.get(base, TOP)); lo += a; hi += b
        if idx:
            v = s.r.get(idx, TOP)
            if isinstance(v, int) and v >> 63: v -= 1 << 64; lo += v * sc; hi += v * sc
            else: a, b = iv(v); lo += a * sc; hi += b * sc
        if lo == hi: return lo & M64, lo & M64
        return lo, hi
    def read(self, s, o, n):
        lo, hi = self.ea(s, o)
        return self.rd(s, lo, hi, n)
    def rd(self, s, lo, hi, n):
        self.access(s, lo, hi, n, 'r')
        if lo != hi: return top(8 * n) if n <= 8 else TOP
        v = s.m.get((lo, n))
        if v is not None: return v
        if (self.lo <= lo < self.hi) or any(l <= lo < h and 'd' in m for l, h, m in self.regions): return top(8 * n)
        if any(a < lo + n and lo < a + k for a, k in s.m): return top(8 * n)
        m0 = self.img.mem0.find(lo)
        if m0 is None: return top(8 * n)
        return self.img.mem0.read(lo, n)
    def write(self, s, o, n, v):
        lo, hi = self.ea(s, o)
        self.wr(s, lo, hi, n, v)
    def wr(self, s, lo, hi, n, v):
        self.access(s, lo, hi, n, 'w')
        for a, k in [c for c in s.m if c[0] < hi + n and lo < c[0] + c[1]]: del s.m[(a, k)]
        if lo == hi and n <= 8: s.m[(lo, n)] = v
    def get(self, s, o, w):
        if o[0] == 'r':
            v = s.r.get(o[1], TOP)
            if o[2] == 64: return v
            if o[3]: return (v >> o[3]) & ((1 << o[2]) - 1) if isinstance(v, int) else top(o[2])
            return trunc(v, o[2])
        if o[0] == 'i': return o[1] & ((1 << w) - 1)
        return self.read(s, o, w // 8)
    def put(self, s, o, w, v):
        if o[0] == 'm': self.write(s, o, w // 8, v); return
        if o[2] in (32, 64): s.r[o[1]] = v; return
        old = s.r.get(o[1], TOP)
        if isinstance(old, int) and isinstance(v, int):
            m = ((1 << o[2]) - 1) << o[3]; s.r[o[1]] = (old & ~m) | v << o[3]
        elif isinstance(old, int) and old < 1 << o[2] and o[3] == 0: s.r[o[1]] = v
        else: s.r[o[1]] = TOP
    def width(self, ops):
        for o in ops:
            if o[0] == 'r': return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]: return o[1] * 8
        raise Unsupported('width')
    def cond(self, s, cc):
        """True, False or None"""
        if s.fl is None: return None
        c, z, sg, ov = s.fl
        neg = cc[0] == 'n' or cc in ('ae', 'a', 'ge', 'g')
        b = {'ae': 'b', 'nb': 'b', 'nc': 'b', 'c': 'b', 'nae': 'b', 'ne': 'e', 'nz': 'e', 'z': 'e', 'a': 'be', 'nbe': 'be', 'na': 'be', 'ge': 'l', 'nl': 'l', 'nge': 'l',
             'g': 'le', 'nle': 'le', 'ng': 'le', 'ns': 's', 'no': 'o', 'np': 'p'}.get(cc, cc)
        if cc in ('nae', 'nge', 'ng', 'na'): neg = False
        if b == 'b': r = c
        elif b == 'e': r = z
        elif b == 's': r = sg
        elif b == 'o': r = ov
        elif b == 'be': r = None if c is None or z is None else c or z
        elif b == 'l': r = None if sg is None or ov is None else sg != ov
        elif b == 'le': r = None if None in (sg, ov, z) else z or sg != ov
        else: r = None
        return r if r is None else (not r if neg else bool(r))
    def setz(self, s, r, w, c=0, ov=0):
        s.fl = (c, r == 0, bool(r >> (w - 1) & 1), ov) if isinstance(r, int) else (c, None, None, None)
    def step(self, s):
        """None, or list of successor states after an undecided branch, or 'ret'"""
        self.nsteps += 1; s.steps += 1
        if s.steps > 400000: raise Unsupported('step limit')
        mn, o, txt, nxt = self.img.decode(s.pc)
        self.insns.add(s.pc)
        if mn in ('mov', 'movabs'):
            w = self.width(o); self.put(s, o[0], w, self.get(s, o[1], w))
        elif mn in ('movzx',):
            w = o[1][2] if o[1][0] == 'r' else o[1][1] * 8
            self.put(s, o[0], o[0][2], self.get(s, o[1], w))
        elif mn == 'lea':
            lo, hi = self.ea(s, o[1]); self.put(s, o[0], o[0][2], trunc(mk(lo, hi), o[0][2]))
        elif mn in ('add', 'adc', 'sub', 'sbb', 'cmp'):
            w = self.width(o); a = self.get(s, o[0], w); b = self.get(s, o[1], w)
            cin = 0
            if mn in ('adc', 'sbb'): cin = s.fl[0] if s.fl else None
            isub = mn in ('sub', 'sbb', 'cmp')
            if isub and o[0] == o[1] and cin is not None: a = b = 0
            if isinstance(a, int) and isinstance(b, int) and cin is not None:
                cin = int(cin)
                t = a - b - cin if isub else a + b + cin
                r = t & ((1 << w) - 1); h = 1 << (w - 1)
                sa, sb = (a ^ h) - h, (b ^ h) - h
                st = sa - sb - cin if isub else sa + sb + cin
                s.fl = (t != r, r == 0, bool(r & h), not -h <= st < h)
            else:
                la, ha = iv(a); lb, hb = iv(b); c0, c1 = (cin, cin) if cin is not None else (0, 1)
                if isub: lo, hi = la - hb - c1, ha - lb - c0
                else: lo, hi = la + lb + c0, ha + hb + c1
                r = mk(lo, hi, w); s.fl = None
                if isub and o[0] == o[1]: s.fl = None
            if mn != 'cmp': self.put(s, o[0], w, r)
        elif mn in ('inc', 'dec'):
            w = self.width(o); a = self.get(s, o[0], w); c = s.fl[0] if s.fl else None
            if isinstance(a, int): r = (a + (1 if mn == 'inc' else -1)) & ((1 << w) - 1); self.setz(s, r, w, c, None)
            else: r = top(w); s.fl = (c, None, None, None)
            self.put(s, o[0], w, r)
        elif mn in ('and', 'or', 'xor', 'test'):
            w = self.width(o); a = self.get(s, o[0], w); b = self.get(s, o[1], w)
            if isinstance(a, int) and isinstance(b, int): r = a & b if mn in ('and', 'test') else a | b if mn == 'or' else a ^ b
            elif mn == 'xor' and o[0] == o[1]: r = 0
            elif mn in ('and', 'test'): r = mk(0, min(iv(a)[1], iv(b)[1]), w)
            else: r = top(w)
            self.setz(s, r, w)
            if mn != 'test': self.put(s, o[0], w, r)
        elif mn in ('not', 'neg'):
            w = self.width(o); a = self.get(s, o[0], w)
            if isinstance(a, int):
                r = (~a if mn == 'not' else -a) & ((1 << w) - 1)
                if mn == 'neg': self.setz(s, r, w, a != 0, None)
            else:
                r = top(w)
                if mn == 'neg': s.fl = None
            self.put(s, o[0], w, r)
        elif mn in ('shl', 'sal', 'shr', 'sar'):
            w = self.width(o[:1]); a = self.get(s, o[0], w); k = 1 if len(o) == 1 else self.get(s, o[1], 8)
            if not isinstance(k, int): r = top(w); s.fl = None
            else:
                k &= 63 if w == 64 else 31
                if k:
                    if isinstance(a, int):
                        if mn in ('shl', 'sal'): r = (a << k) & ((1 << w) - 1); c = bool(a >> (w - k) & 1)
                        elif mn == 'shr': r = a >> k; c = bool(a >> (k - 1) & 1)
                        else: t = a - (1 << w) if a >> (w - 1) else a; r = (t >> k) & ((1 << w) - 1); c = bool(t >> (k - 1) & 1)
                        self.setz(s, r, w, c, None)
                    else:
                        lo, hi = iv(a); s.fl = None
                        r = mk(lo << k, hi << k, w) if mn in ('shl', 'sal') else mk(lo >> k, hi >> k, w) if mn == 'shr' else top(w)
                else: r = a
            self.put(s, o[0], w, r)
        elif mn in ('shrd', 'shld'):
            w = self.width(o[:1]); self.get(s, o[0], w); self.get(s, o[1], w); self.put(s, o[0], w, top(w)); s.fl = None
        elif mn == 'mul':
            w = self.width(o); self.get(s, o[0], w); s.r['rax'] = s.r['rdx'] = top(w); s.fl = None
        elif mn == 'mulx':
            w = o[0][2]; self.get(s, o[2], w); self.put(s, o[1], w, top(w)); self.put(s, o[0], w, top(w))
        elif mn == 'imul':
            w = self.width(o)
            if len(o) == 1: s.r['rax'] = s.r['rdx'] = top(w)
            else:
                a = self.get(s, o[-2], w); b = self.get(s, o[-1], w)
                la, ha = iv(a); lb, hb = iv(b)
                self.put(s, o[0], w, mk(la * lb, ha * hb, w))
            s.fl = None
        elif mn in ('div',):
            w = self.width(o); self.get(s, o[0], w); s.r['rax'] = s.r['rdx'] = top(w); s.fl = None
        elif mn == 'push':
            v = self.get(s, o[0], 64); a = s.r['rsp'] - 8; s.r['rsp'] = a; self.wr(s, a, a, 8, v)
        elif mn == 'pop':
            a = s.r['rsp']; v = self.rd(s, a, a, 8); s.r['rsp'] = a + 8; self.put(s, o[0], 64, v)
        elif mn == 'call':
            t = self.get(s, o[0], 64) if o[0][0] != 'i' else o[0][1]
            if not isinstance(t, int): raise Unsupported('call target')
            a = s.r['rsp'] - 8; s.r['rsp'] = a; self.wr(s, a, a, 8, nxt); s.stk = s.stk + ((a, nxt),); s.pc = t
            return None
        elif mn == 'ret':
            a = s.r['rsp']
            if not isinstance(a, int): self.flag(s, 'stack pointer lost'); return []
            v = self.rd(s, a, a, 8); s.r['rsp'] = a + 8
            if not s.stk or s.stk[-1] != (a, v): self.flag(s, 'return to %r from stack %#x' % (v, a)); return []
            s.stk = s.stk[:-1]; s.pc = v
            return 'ret' if not s.stk else None
        elif mn == 'jmp':
            t = o[0][1] if o[0][0] == 'i' else self.get(s, o[0], 64)
            if not isinstance(t, int): raise Unsupported('jump target')
            s.pc = t; return None
        elif mn[0] == 'j':
            c = self.cond(s, mn[1:])
            if c is None:
                t = s.copy(); t.pc = o[0][1]; s.pc = nxt
                return [t, s]
            s.pc = o[0][1] if c else nxt
            return None
        elif mn.startswith('cmov'):
            w = o[0][2]; c = self.cond(s, mn[4:]); b = self.get(s, o[1], w); a = self.get(s, o[0], w)
            v = a if c is False else b if c else a if same(a, b) else mk(min(iv(a)[0], iv(b)[0]), max(iv(a)[1], iv(b)[1]), w)
            self.put(s, o[0], w, v)
        elif mn.startswith('set'):
            c = self.cond(s, mn[3:]); self.put(s, o[0], 8, int(c) if c is not None else Iv(0, 1))
        elif mn == 'movq' or mn == 'movd':
            w = 64 if mn == 'movq' else 32
            v = s.x.get(o[1][1], TOP) if o[1][0] == 'x' else self.get(s, o[1], w)
            if w == 32: v = trunc(v, 32)
            if o[0][0] == 'x': s.x[o[0][1]] = v
            else: self.put(s, o[0], w, v)
        elif mn in ('movdqa', 'movdqu', 'movaps', 'movups'):
            if o[1][0] == 'x': v = s.x.get(o[1][1], TOP)
            else: lo, hi = self.ea(s, o[1]); self.access(s, lo, hi, 16, 'r'); v = TOP
            if o[0][0] == 'x': s.x[o[0][1]] = v
            else: lo, hi = self.ea(s, o[0]); self.wr(s, lo, hi, 16, TOP)
        elif mn in ('pxor', 'xorps', 'paddd', 'paddq', 'psubd', 'psubq', 'por', 'pand', 'punpcklqdq'):
            if o[1][0] == 'm': lo, hi = self.ea(s, o[1]); self.access(s, lo, hi, 16, 'r')
            s.x[o[0][1]] = TOP
        elif mn in ('nop', 'endbr64', 'xchg') and (mn != 'xchg' or o[0] == o[1]): pass
        elif mn in ('clc', 'stc'): s.fl = (mn == 'stc', None, None, None)
        elif mn in ('bt',): self.get(s, o[0], self.width(o[:1])); s.fl = None
        else: raise Unsupported('instruction %s' % txt)
        s.pc = nxt
        return None
    def run(self, addr, args, pre={}):
        s = FS(); s.r = {}; s.x = {}; s.m = {}; s.fl = None; s.pc = addr; s.steps = 0
        sp = self.hi - 8
        s.r['rsp'] = sp
        self.saved = {}
        for k in CALLEE: self.saved[k] = s.r[k] = Tok(k)
        for k, v in zip(['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'], args):
            if v is not None: s.r[k] = v
        ra = RETADDR
        s.m.update(pre)
        s.m[(sp, 8)] = ra; s.stk = ((sp, ra),)
        joined = {}; work = [s]; nret = 0
        while work:
            s = work.pop()
            while True:
                r = self.step(s)
                if r is None: continue
                if r == 'ret':
                    nret += 1
                    if s.r['rsp'] != sp + 8: self.flag(s, 'stack pointer not restored')
                    cl = [k for k in CALLEE if s.r[k] is not self.saved[k]]
                    if cl: self.flag(s, 'not restored: ' + ' '.join(cl))
                else:
                    for t in r:
                        key = (t.pc, t.stk)
                        o = joined.get(key)
                        if o is None: joined[key] = t.copy(); work.append(t)
                        else:
                            ch = self.join(o, t)
                            if ch: n = o.copy(); n.steps = t.steps; work.append(n)
                break
        self.nret = nret
        return nret
    def join(self, o, t):
        """o := join of o and t; True if o changed"""
        ch = False
        for f in ('r', 'x'):
            A, B = getattr(o, f), getattr(t, f)
            for k in list(A):
                if not same(A[k], B.get(k, TOP)) and A[k] is not TOP: A[k] = TOP; ch = True
        for k in list(o.m):
            b = t.m.get(k)
            if b is None or not same(o.m[k], b):
                if o.m[k] != top(8 * k[1]): o.m[k] = top(8 * k[1]); ch = True
        # cells known only in t were initial (unknown) in o: rd() of a stack cell without entry is unknown
        if o.fl is not None and o.fl != t.fl: o.fl = None; ch = True
        if not same(o.r['rsp'], t.r['rsp']): self.flag(t, 'stack pointer differs between paths')
        return ch

A0 = 0x100000000
def objects(*o):
    """o: (size, direction) -> addresses, regions"""
    ad = []; rg = []
    for i, (n, d) in enumerate(o):
        a = A0 + 0x10000 * i; ad.append(a); rg.append((a, a + n, {'i': 'rd', 'o': 'rwd', 'io': 'rwd'}[d]))
    return ad, rg
def cases(entries):
    """(name, entry, args, regions, preset memory) for every run-time generated routine"""
    import contracts
    from contracts import TABLE, tsize
    out = []
    for n, c in TABLE.items():
        if c.cxx or c.entry != n: continue
        ad, rg = objects(*[(tsize(t), d) for d, t in c.args])
        out.append((n, n, ad, rg, {}))
        # every argument the same object (in-place use)
        if c.alias != 'none' and len(set(t for d, t in c.args)) == 1 and len(c.args) > 1:
            out.append((n + ' in place', n, [ad[0]] * len(ad), [(ad[0], ad[0] + tsize(c.args[0][1]), 'rwd')], {}))
    for n in ('Fp::shr1', 'Fp::shr2', 'Fp::preInv'):
        ad, rg = objects((32, 'o'), (32, 'i')); out.append((n, n, ad, rg, {}))
    ad, rg = objects((192, 'o'), (192, 'io'), (64, 'i')); out.append(('Fp6::pointDblLineEval',) * 2 + (ad, rg, {}))
    ad, rg = objects((192, 'o'), (192, 'io')); out.append(('Fp6::pointDblLineEvalWithoutP',) * 2 + (ad, rg, {}))
    ad, rg = objects((56, 'i'), (384, 'io'))
    out.append(('Compress::square_n', 'Compress::square_n', [ad[0], Iv(1, (1 << 31) - 1)], rg, {(ad[0], 8): ad[1]}))
    for w in range(1, 13):
        for nm in ('addN', 'subN'):
            ad, rg = objects((8 * w, 'o'), (8 * w, 'i'), (8 * w, 'i')); out.append(('PF::%s n=%d' % (nm, w), 'PF::' + nm, ad + [w], rg, {}))
        for nm in ('add1', 'sub1'):
            ad, rg = objects((8 * w, 'o'), (8 * w, 'i')); out.append(('PF::%s n=%d' % (nm, w), 'PF::' + nm, ad + [w, None], rg, {}))
        ad, rg = objects((8 * w + 8, 'o'), (8 * w, 'i')); out.append(('PF::mul1 n=%d' % w, 'PF::mul1', ad + [w, None], rg, {}))
        ad, rg = objects((8 * w, 'o'), (8 * w, 'i')); out.append(('PF::div1 n=%d' % w, 'PF::div1', ad + [w, None], rg, {}))
        ad, rg = objects((8 * w, 'i')); out.append(('PF::mod1 n=%d' % w, 'PF::mod1', ad + [w, None], rg, {}))
    return out
def verify(img):
    """obligations of all routines in one process image"""
    maps = [(q[0], q[0] + q[1], 'r') for q in img.mem0.maps]
    res = []
    for name, ent, args, rg, pre in cases(img.entries):
        a = img.entries.get(ent, 0)
        if not a or (img.exe and img.lo_text <= a < img.hi_text): continue      # not generated code
        f = Flow(img, maps + rg)
        try: n = f.run(a, args, pre)
        except (Unsupported, KeyError, TypeError) as e:
            res.append((name, 'analysis', False, 'verifier limit: %r' % e, 0)); continue
        w = lambda k: [b for b in f.bad if (b[0].split()[0] in k)]
        cl = w(('not', 'stack', 'return'))
        res.append((name, 'callee-saved registers, stack pointer and return address preserved', not cl, ' '.join(map(str, cl[:3])), f.nsteps))
        for kind, t in (('r', 'reads stay inside the inputs, constants and its own frame'), ('w', 'writes stay inside the output and its own frame')):
            ac = [b for b in f.bad if b[0].startswith('access ' + kind)]
            res.append((name, t, not ac, ' '.join(map(str, ac[:3])), 0))
        res.append((name, 'a path returns', n > 0, '', 0))
    return res
