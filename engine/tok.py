"""Execution of the compiled high-level code on symbolic field values.

Integers, pointers and loop counters are concrete; the words of a field object are tokens of the value
the object holds.  A call to a routine that has a written contract is replaced by that contract (the
contracts are discharged separately on the routines' own code); every other call is executed.  A test of
a field value against zero (or for equality) splits the execution when neither answer follows from what
the path already assumes.  Anything else that would need the words of a token makes the obligation fail."""
from flow import *
from fpoly import FP, U
import contracts
from contracts import TABLE, NCOMP, NWORD, Ring2, tsize
import jitcheck

class Val:
    """contents of n words"""
    __slots__ = ('n', 'v')
    def __init__(self, n, v): self.n = n; self.v = v
class TW:
    """word i of a value"""
    __slots__ = ('val', 'i')
    def __init__(self, val, i): self.val = val; self.i = i
    def __repr__(self): return 'w%d' % self.i
class OrW:
    """bitwise or of words"""
    def __init__(self, ws): self.ws = ws
def wkey(w): return (id(w.val), w.i)

class Bits:
    """a word given by its bits: 0, 1, or the name of an unknown bit (state env 'bits' holds what a path assumes)"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = tuple(b) + (0,) * (64 - len(b))
    def __repr__(self): return 'Bits'
class NegBits:
    """minus such a word (two's complement, 32 or 64 bits)"""
    __slots__ = ('b', 'w')
    def __init__(self, b, w): self.b = b; self.w = w
class BitFl:
    """flags of a bit word: sign and zero of the low w bits, carry and overflow 0"""
    def __init__(self, b, w): self.b = b; self.w = w

class LowB:
    """a word whose low w bits are known"""
    def __init__(self, v, w): self.v = v; self.w = w
class TS:
    __slots__ = ('r', 'x', 'm', 'fl', 'pc', 'stk', 'steps', 'env')
    def copy(self):
        s = TS()
        s.r = dict(self.r); s.x = dict(self.x); s.m = dict(self.m); s.fl = self.fl; s.pc = self.pc; s.stk = self.stk; s.steps = self.steps; s.env = dict(self.env)
        return s
H0 = 0x300000000
ARGS = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
CALLER = ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']

class TM(Flow):
    def __init__(self, img, regions, hooks=(), stack=(0x7ffd00000000 - (1 << 20), 0x7ffd00000000)):
        maps = [(q[0], q[0] + q[1], 'r') for q in img.mem0.maps]
        Flow.__init__(self, img, list(regions) + [(H0, H0 + (1 << 28), 'rwd')] + maps, stack)
        self.hooks = dict(hooks); self.wordcmp = False; self.limit = 4000000; self.used = {}; self.maxpaths = 4000; self.bitmode = False
    # ------------------------------------------------------------ memory, by bytes where cells differ
    def rd(self, s, lo, hi, n):
        self.access(s, lo, hi, n, 'r')
        if lo != hi: raise Unsupported('load from an unknown address at %#x' % s.pc)
        c = s.m.get(lo)
        if c is not None and c[0] == n: return c[1]
        return self.rdbytes(s, lo, n)
    def cell_at(self, s, a):
        for b in range(a, a - 8, -1):
            c = s.m.get(b)
            if c is not None:
                if b + c[0] > a: return b, c
                return None
        return None
    def rdbytes(self, s, lo, n):
        r = 0; own = (self.lo <= lo < self.hi) or any(l <= lo < h and 'd' in m for l, h, m in self.regions)
        i = 0; base = None
        while i < n:
            q = self.cell_at(s, lo + i)
            if q is not None:
                b, (k, v) = q
                if not isinstance(v, int): return top(8 * n)
                r |= ((v >> 8 * (lo + i - b)) & 255) << 8 * i
            else:
                if own: return top(8 * n)
                if self.img.mem0.find(lo + i) is None: return top(8 * n)
                r |= self.img.mem0.read(lo + i, 1) << 8 * i
            i += 1
        return r
    def wr(self, s, lo, hi, n, v):
        self.access(s, lo, hi, n, 'w')
        if lo != hi: raise Unsupported('store to an unknown address at %#x' % s.pc)
        m = s.m
        for b in range(lo - 7, lo + n):
            c = m.get(b)
            if c is None or b + c[0] <= lo: continue
            k, w = c
            del m[b]
            if b < lo or b + k > lo + n:
                # keep the bytes that are not overwritten
                if isinstance(w, int):
                    for j in range(k):
                        if not lo <= b + j < lo + n: m[b + j] = (1, (w >> 8 * j) & 255)
                else:
                    for j in range(k):
                        if not lo <= b + j < lo + n: m[b + j] = (1, top(8))
        m[lo] = (n, v)
    # ------------------------------------------------------------ control
    def cond(self, s, cc):
        r = Flow.cond(self, s, cc)
        if r is None: raise Unsupported('decision on an unknown value at %#x' % s.pc)
        return r
    def ret(self, s, rax=None):
        for k in CALLER: s.r[k] = TOP
        s.x = {}; s.fl = None
        if rax is not None: s.r['rax'] = rax
        a = s.r['rsp']; v = self.rd(s, a, a, 8); s.r['rsp'] = a + 8
        s.stk = s.stk[:-1]; s.pc = v
        return None if s.stk else 'ret'
    def step(self, s):
        h = self.hooks.get(s.pc)
        if h is not None:
            r = h(self, s)
            if r is not False: return r
        nm = self.img.plt.get(s.pc)
        if nm: return self.extern(s, nm)
        mn, o, txt, nxt = self.img.decode(s.pc)
        if mn in ('movdqa', 'movdqu', 'movaps', 'movups', 'lddqu'):
            self.count(s)
            if o[1][0] == 'x': v = s.x.get(o[1][1], (TOP, TOP))
            else:
                lo, hi = self.ea(s, o[1]); v = (self.rd(s, lo, hi, 8), self.rd(s, lo + 8, hi + 8, 8))
            if o[0][0] == 'x': s.x[o[0][1]] = v
            else: lo, hi = self.ea(s, o[0]); self.wr(s, lo, hi, 8, v[0]); self.wr(s, lo + 8, hi + 8, 8, v[1])
            s.pc = nxt; return None
        if mn in ('movq', 'movd'):
            self.count(s)
            w = 64 if mn == 'movq' else 32
            v = s.x.get(o[1][1], (TOP, TOP))[0] if o[1][0] == 'x' else self.get(s, o[1], w)
            if w == 32: v = trunc(v, 32)
            if o[0][0] == 'x': s.x[o[0][1]] = (v, 0)
            else: self.put(s, o[0], w, v)
            s.pc = nxt; return None
        if mn in ('pxor', 'xorps') and o[0] == o[1]:
            s.x[o[0][1]] = (0, 0); s.pc = nxt; return None
        if mn == 'punpcklqdq':
            b = s.x.get(o[1][1], (TOP, TOP))[0] if o[1][0] == 'x' else self.read(s, o[1], 8)
            s.x[o[0][1]] = (s.x.get(o[0][1], (TOP, TOP))[0], b); s.pc = nxt; return None
        if mn in ('movhps', 'movlps'):
            i = mn == 'movhps'
            if o[0][0] == 'x':
                v = list(s.x.get(o[0][1], (TOP, TOP))); v[i] = self.read(s, o[1], 8); s.x[o[0][1]] = tuple(v)
            else: self.write(s, o[0], 8, s.x.get(o[1][1], (TOP, TOP))[i])
            s.pc = nxt; return None
        if mn in ('cdqe', 'cqo', 'cdq', 'cwde'):
            a = s.r['rax']
            if not isinstance(a, int): 
                if mn in ('cqo', 'cdq'): s.r['rdx'] = TOP
                else: s.r['rax'] = TOP
            elif mn == 'cdqe': a &= 0xffffffff; s.r['rax'] = a | 0xffffffff00000000 if a >> 31 else a
            elif mn == 'cqo': s.r['rdx'] = M64 if a >> 63 else 0
            elif mn == 'cdq': s.r['rdx'] = 0xffffffff if a >> 31 & 1 else 0
            else: raise Unsupported(txt)
            s.pc = nxt; return None
        if mn in ('movsx', 'movsxd'):
            self.count(s)
            w = o[1][2] if o[1][0] == 'r' else (o[1][1] or 4) * 8
            v = self.get(s, o[1], w)
            if isinstance(v, int): 
                v &= (1 << w) - 1
                if v >> (w - 1): v |= ((1 << o[0][2]) - 1) & ~((1 << w) - 1)
            else: v = top(o[0][2])
            self.put(s, o[0], o[0][2], v); s.pc = nxt; return None
        if mn.startswith('rep_stos'):
            w = {'q': 8, 'd': 4, 'b': 1}[mn[-1]] if mn[-1] in 'qdb' else (o[0][1] if o else 8)
            n, d, v = s.r['rcx'], s.r['rdi'], trunc(s.r['rax'], 8 * w)
            if not (isinstance(n, int) and isinstance(d, int)): raise Unsupported(txt)
            for i in range(n): self.wr(s, d + w * i, d + w * i, w, v)
            s.r['rdi'] = d + w * n; s.r['rcx'] = 0; s.pc = nxt; return None
        if mn.startswith('rep_movs'):
            w = o[0][1] or 8
            n, d, q = s.r['rcx'], s.r['rdi'], s.r['rsi']
            if not (isinstance(n, int) and isinstance(d, int) and isinstance(q, int)): raise Unsupported(txt)
            for i in range(n): self.wr(s, d + w * i, d + w * i, w, self.rd(s, q + w * i, q + w * i, w))
            s.r['rdi'] = d + w * n; s.r['rsi'] = q + w * n; s.r['rcx'] = 0; s.pc = nxt; return None
        if mn == 'mul' or (mn == 'imul' and len(o) == 1):
            w = self.width(o); a, b = self.get(s, o[0], w), trunc(s.r['rax'], w)
            if isinstance(a, int) and isinstance(b, int) and mn == 'mul' and w == 64:
                s.r['rax'] = a * b & M64; s.r['rdx'] = a * b >> 64; s.fl = None; s.pc = nxt; return None
        if mn == 'imul' and len(o) > 1:
            w = self.width(o[:1]); a, b = self.get(s, o[-2], w), self.get(s, o[-1], w)
            if isinstance(a, int) and isinstance(b, int):
                self.put(s, o[0], w, a * b & ((1 << w) - 1)); s.fl = None; s.pc = nxt; return None
        if mn == 'div':
            w = self.width(o); a, b, d = trunc(s.r['rax'], w), self.get(s, o[0], w), trunc(s.r['rdx'], w)
            if isinstance(a, int) and isinstance(b, int) and isinstance(d, int) and b:
                q, r = divmod(d << w | a, b); s.r['rax'] = q; s.r['rdx'] = r; s.fl = None; s.pc = nxt; return None
        if mn == 'bt' and o[0][0] == 'r':
            w = self.width(o); a, b = self.get(s, o[0], w), self.get(s, o[1], w)
            if isinstance(a, int) and isinstance(b, int):
                s.fl = (bool(a >> (b & (w - 1)) & 1), None, None, None); s.pc = nxt; return None
        if isinstance(s.fl, BitFl) and (mn[0] == 'j' and mn != 'jmp' or mn.startswith('cmov') or mn.startswith('set')):
            return self.bitflags(s, mn[1:] if mn[0] == 'j' else mn[4:] if mn[0] == 'c' else mn[3:])
        if isinstance(s.fl, BitFl) and mn in ('adc', 'sbb', 'inc', 'dec'): s.fl = (False, None, None, None)
        if self.bitmode and o:
            r = self.bitop(s, mn, o, nxt)
            if r is not False: return r
        if self.wordcmp and mn in ('or', 'xor', 'cmp', 'test'):
            w = self.width(o); a, b = self.get(s, o[0], w), self.get(s, o[1], w)
            if isinstance(a, (TW, OrW)) or isinstance(b, (TW, OrW)):
                r = self.wordop(s, mn, o, a, b, nxt)
                if r is not False: return r
        if mn in ('je', 'jne') and False: pass
        if mn == 'ud2': raise Unsupported('ud2')
        return Flow.step(self, s)
    def count(self, s):
        self.nsteps += 1; s.steps += 1
        if s.steps > 400000: raise Unsupported('step limit')
    # ------------------------------------------------------------ words given by bits
    def get(self, s, o, w):
        if o[0] == 'r':
            v = s.r.get(o[1], TOP)
            if isinstance(v, Bits) and o[2] < 64: return Bits(v.b[o[3]:o[3] + o[2]])
            if isinstance(v, NegBits): return v if o[2] == v.w else top(o[2])
            if isinstance(v, LowB): return v.v & ((1 << o[2]) - 1) if o[3] == 0 and o[2] <= v.w else top(o[2])
        return Flow.get(self, s, o, w)
    def put(self, s, o, w, v):
        if o[0] == 'r' and o[2] < 32 and o[3] == 0 and isinstance(v, int):
            old = s.r.get(o[1], TOP)
            if not isinstance(old, int) and not (isinstance(old, LowB) and old.w > o[2]): s.r[o[1]] = LowB(v, o[2]); return
        Flow.put(self, s, o, w, v)
    def bit(self, s, b): return s.env.get('bits', {}).get(b, b)
    def bits(self, s, v): return [self.bit(s, b) for b in v.b]
    def assign(self, s, b, v):
        t = s.copy(); t.env['bits'] = {**s.env.get('bits', {}), b: v}; return t
    def known1(self, s, bs):
        """one of the bits is known to be 1"""
        if 1 in bs: return True
        f = s.env.get('some')
        if f is None: return False
        rest = [b for b in f if self.bit(s, b) != 0]
        return bool(rest) and all(b in bs for b in rest)
    def bitflags(self, s, cc):
        """decide what the condition needs"""
        v, w = s.fl.b, s.fl.w; bs = self.bits(s, v)[:w]
        sg = bs[w - 1]; need = cc.lstrip('n') if cc not in ('ne',) else 'e'
        if need in ('s', 'le', 'l', 'g', 'ge') and sg not in (0, 1):
            rest = [b for b in s.env.get('some') or () if self.bit(s, b) != 0]
            if rest == [sg]: return [self.assign(s, sg, 1)]
            return [self.assign(s, sg, 0), self.assign(s, sg, 1)]
        z = None
        if sg == 1 or self.known1(s, bs): z = False
        elif all(b == 0 for b in bs): z = True
        elif need in ('le', 'g', 'e', 'z', 'a', 'be'):
            un = [b for b in bs if b not in (0, 1)]
            t = s.copy(); t.env['bits'] = {**s.env.get('bits', {}), **{b: 0 for b in un}}
            if len(un) == 1: return [t, self.assign(s, un[0], 1)]
            u = s.copy(); u.env['some'] = tuple(un)
            return [t, u]
        s.fl = (False, z, sg == 1 if sg in (0, 1) else None, False)
        return None
    def bitop(self, s, mn, o, nxt):
        if mn in ('mov', 'movabs', 'push', 'pop', 'call', 'jmp', 'ret', 'nop') or mn[0] == 'j': return False
        if mn == 'lea':
            _, sz, base, idx, sc, disp, seg = o[1]
            vb, vi = s.r.get(base) if base else None, s.r.get(idx) if idx else None
            if not isinstance(vb, Bits) and not isinstance(vi, Bits): return False
            if disp == 0 and not base: k = {1: 0, 2: 1, 4: 2, 8: 3}[sc]; v = vi
            elif disp == 0 and base == idx and sc == 1: k = 1; v = vb
            else: return False
            self.put(s, o[0], o[0][2], Bits((0,) * k + v.b[:o[0][2] - k])); s.pc = nxt; return None
        if mn in ('add', 'shl', 'sal', 'shr', 'sar', 'test', 'cmp', 'and', 'neg', 'movsxd', 'movsx', 'movzx', 'bt', 'xor', 'or', 'not'):
            try: w = self.width(o[:1])
            except Unsupported: w = self.width(o)
            if mn in ('movsxd', 'movsx', 'movzx'):
                if o[1][0] != 'r' and not o[1][1]: return False
                w = o[1][2] if o[1][0] == 'r' else o[1][1] * 8
                a = self.get(s, o[1], w)
                if not isinstance(a, Bits): return False
                bs = list(a.b[:w])
                if mn != 'movzx': bs += [bs[-1]] * (64 - w)
                self.put(s, o[0], o[0][2], Bits(bs[:o[0][2]])); s.pc = nxt; return None
            a = self.get(s, o[0], w); b = self.get(s, o[1], w) if len(o) > 1 else None
            if isinstance(a, NegBits) or isinstance(b, NegBits):
                return self.negop(s, mn, o, a, b, w, nxt)
            if not isinstance(a, Bits) and not isinstance(b, Bits): return False
            if mn == 'add' and o[0] == o[1]: r = Bits((0,) + a.b[:w - 1])
            elif mn in ('shl', 'sal', 'shr', 'sar') and isinstance(a, Bits) and (b is None or isinstance(b, int)):
                k = 1 if b is None else b & (63 if w == 64 else 31)
                if mn in ('shl', 'sal'): r = Bits((0,) * k + a.b[:w - k])
                else: r = Bits(a.b[k:w] + ((0,) if mn == 'shr' else (a.b[w - 1],)) * k)
            elif mn in ('test', 'and'):
                if o[0] == o[1]: r = a
                else:
                    if isinstance(a, int): a, b = b, a
                    if not isinstance(b, int): return False
                    r = Bits([x if b >> i & 1 else 0 for i, x in enumerate(a.b[:w])])
            elif mn == 'cmp' and b == 0: r = a
            elif mn == 'cmp' and a == 0:
                bs = self.bits(s, b)[:w]
                if self.known1(s, bs): s.fl = (True, False, None, None)
                elif all(x == 0 for x in bs): s.fl = (False, True, False, False)
                else:
                    un = [x for x in bs if x not in (0, 1)]
                    t = s.copy(); t.env['bits'] = {**s.env.get('bits', {}), **{x: 0 for x in un}}
                    if len(un) == 1: return [t, self.assign(s, un[0], 1)]
                    u = s.copy(); u.env['some'] = tuple(un)
                    return [t, u]
                s.pc = nxt; return None
            elif mn == 'bt' and isinstance(b, int) and isinstance(a, Bits):
                x = self.bit(s, a.b[b & (w - 1)])
                if x not in (0, 1): return [self.assign(s, x, 0), self.assign(s, x, 1)]
                s.fl = (bool(x), None, None, None); s.pc = nxt; return None
            elif mn == 'neg' and isinstance(a, Bits):
                self.put(s, o[0], w, NegBits(a, w)); s.fl = None; 
                if self.bit(s, a.b[w - 1]) == 0: s.fl = (None, None, True if self.known1(s, self.bits(s, a)[:w]) else None, None)
                s.pc = nxt; return None
            else: return False
            if mn not in ('test', 'cmp'): self.put(s, o[0], w, r)
            s.fl = BitFl(r, w) if mn in ('test', 'cmp', 'and') else None
            s.pc = nxt; return None
        return False
    def negop(self, s, mn, o, a, b, w, nxt):
        """minus a value known to be in 1..2^(w-1)-1"""
        if not isinstance(a, NegBits) or a.w != w: return False
        bs = self.bits(s, a.b)
        if bs[w - 1] != 0 or not self.known1(s, bs[:w]): return False
        if mn == 'neg':
            self.put(s, o[0], w, a.b); s.fl = (True, False, False, False); s.pc = nxt; return None
        if (mn == 'test' and o[0] == o[1]) or (mn == 'cmp' and b == 0):
            s.fl = (False, False, True, False); s.pc = nxt; return None
        if mn == 'shr' and b == w - 1: self.put(s, o[0], w, 1); s.fl = None; s.pc = nxt; return None
        return False
    def wordop(self, s, mn, o, a, b, nxt):
        """tests of unknown words: 'or' and 'xor' collect what must vanish, comparisons split the path"""
        f = lambda v: frozenset() if v == 0 else frozenset([wkey(v)]) if isinstance(v, TW) else v.ws if isinstance(v, OrW) else None
        if mn == 'test' and o[0] == o[1]: mn = 'cmp'; b = 0
        if mn in ('or', 'xor') and self.width(o) == 64:
            if mn == 'or':
                x, y = f(a), f(b)
                if x is None or y is None: return False
                v = OrW(x | y)
            elif isinstance(a, TW) and isinstance(b, TW): v = 0 if wkey(a) == wkey(b) else OrW(frozenset([('x',) + tuple(sorted((wkey(a), wkey(b))))]))
            else: return False
            self.put(s, o[0], 64, v); s.pc = nxt; s.fl = None
            return self.zsplit(s, f(v)) if self.peekflag(nxt) else None
        if mn == 'cmp' and b == 0 and isinstance(a, (TW, OrW)):
            s.pc = nxt
            return self.zsplit(s, f(a))
        if mn == 'cmp' and isinstance(a, TW) and isinstance(b, TW):
            x, y = wkey(a), wkey(b)
            if x == y: s.fl = (False, True, None, None); s.pc = nxt; return None
            for w in s.env.get('words', ()):
                if w[0] in ('eq', 'lt', 'gt') and {w[1], w[2]} == {x, y}:
                    lt = (w[0] == 'lt') == (w[1] == x)
                    s.fl = (False, True, None, None) if w[0] == 'eq' else (lt, False, None, None); s.pc = nxt; return None
            out = []
            for c, z in ((False, True), (True, False), (False, False)):
                t = s.copy(); t.env['words'] = t.env.get('words', ()) + (('eq' if z else 'lt' if c else 'gt', x, y),)
                t.fl = (c, z, None, None); t.pc = nxt; out.append(t)
            return out
        return False
    def peekflag(self, pc):
        """the condition an instruction tests, if it tests one"""
        mn = self.img.decode(pc)[0]
        if mn[0] == 'j' and mn != 'jmp': return mn[1:]
        if mn.startswith('set'): return mn[3:]
        if mn.startswith('cmov'): return mn[4:]
    def zsplit(self, s, ws):
        """flags of a word that is zero exactly when all of ws are"""
        zero = set(); nz = []
        for w in s.env.get('words', ()):
            if w[0] == 'zero': zero |= w[1]
            elif w[0] == 'nonzero': nz.append(w[1])
            elif w[0] == 'eq': zero.add(('x',) + tuple(sorted(w[1:])))
            else: nz.append(frozenset([('x',) + tuple(sorted(w[1:]))]))
        ws = frozenset(ws) - zero
        if not ws: s.fl = (False, True, False, False); return None
        if any(q <= ws for q in nz): s.fl = (False, False, None, False); return None
        out = []
        for z in (True, False):
            t = s.copy(); t.env['words'] = t.env.get('words', ()) + (('zero' if z else 'nonzero', ws),)
            t.fl = (False, z, None, False); out.append(t)
        return out
    # ------------------------------------------------------------ the C library
    def extern(self, s, nm):
        r = s.r; a, b, c = r.get('rdi'), r.get('rsi'), r.get('rdx')
        nm = nm.split('@')[0]
        if nm in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk'):
            if not all(isinstance(v, int) for v in (a, b, c)): raise Unsupported('memcpy')
            i = 0; ws = []
            while i < c:
                k = 8 if c - i >= 8 else 4 if c - i >= 4 else 1
                ws.append((i, k, self.rd(s, b + i, b + i, k))); i += k
            for i, k, v in ws: self.wr(s, a + i, a + i, k, v)
            return self.ret(s, a)
        if nm == 'memset':
            if not all(isinstance(v, int) for v in (a, b, c)): raise Unsupported('memset')
            i = 0
            while i < c:
                k = 8 if c - i >= 8 else 1
                self.wr(s, a + i, a + i, k, (b & 255) * (0x0101010101010101 if k == 8 else 1)); i += k
            return self.ret(s, a)
        if nm in ('_Znwm', '_Znam', 'malloc') or nm.startswith('operator new'):
            if not isinstance(a, int): raise Unsupported('allocation of unknown size')
            h = s.env.get('heap', H0); s.env['heap'] = h + ((a + 31) & ~15)
            return self.ret(s, h)
        if nm.startswith('operator delete') or nm.startswith('_Zd') or nm == 'free': return self.ret(s)
        if nm == '__cxa_allocate_exception':
            h = s.env.get('heap', H0); s.env['heap'] = h + 256
            return self.ret(s, h)
        if nm in ('__cxa_throw',): s.env['end'] = 'throw'; return 'ret'
        if nm.startswith('std::__throw') or nm.startswith('_ZSt'): s.env['end'] = 'throw'; return 'ret'
        if 'runtime_error' in nm or nm.startswith('std::exception') or 'error::' in nm: return self.ret(s, a)
        if nm in ('__cxa_guard_acquire',): return self.ret(s, 0)
        if nm == '__gmpz_size': return self.ret(s, abs(self.mpsize(s, a)))
        if nm == '__gmpz_cmp_si' and b == 0: return self.ret(s, (self.mpsize(s, a) > 0) - (self.mpsize(s, a) < 0) & M64)
        if nm in ('exit', 'abort', '_exit'): s.env['end'] = nm; return 'ret'
        raise Unsupported('call of ' + nm)
    def mpsize(self, s, a):
        n = self.rd(s, a + 4, a + 4, 4)
        if not isinstance(n, int): raise Unsupported('GMP integer of unknown size')
        return n - (1 << 32) if n >> 31 else n
    # ------------------------------------------------------------ running
    def start(self, addr, args, mem, env=None):
        s = TS(); s.r = {}; s.x = {}; s.m = {}; s.fl = None; s.pc = addr; s.steps = 0; s.env = dict(env or {})
        sp = self.hi - 8
        s.r['rsp'] = sp
        self.saved = {}
        for k in CALLEE: self.saved[k] = s.r[k] = Tok(k)
        for k, v in zip(ARGS, args):
            if v is not None: s.r[k] = v
        for a, n, v in mem: s.m[a] = (n, v)
        s.m[sp] = (8, RETADDR); s.stk = ((sp, RETADDR),)
        return s
    def run(self, s):
        """every path from s to its end"""
        sp = self.hi - 8; work = [s]; out = []
        while work:
            s = work.pop()
            while True:
                r = self.step(s)
                if r is None: continue
                if r == 'ret':
                    if 'end' not in s.env:
                        if s.r['rsp'] != sp + 8: self.flag(s, 'stack pointer not restored')
                        if any(s.r[k] is not self.saved[k] for k in CALLEE): self.flag(s, 'not restored: callee-saved register')
                    out.append(s)
                    if len(out) > self.maxpaths: raise Unsupported('too many paths')
                else: work += r
                break
        return out

# ---------------------------------------------------------------- values as polynomials over F_p2
class CRing:
    """the contracts' ring interface on single polynomials: one entry stands for one F_p2 element"""
    def __init__(self, D):
        self.D = D; self.F = D.F; self.A = D.F; self.half = D.half; self.xi = D.xi
    def add(self, x, y): return [self.F.add(x[0], y[0])]
    def sub(self, x, y): return [self.F.sub(x[0], y[0])]
    def neg(self, x): return [self.F.neg(x[0])]
    def scale(self, x, k): return [self.F.scale(x[0], k)]
    def mul(self, x, y): return [self.D.mul(x[0], y[0])]
    mul2 = mul
    def mulxi(self, x): return [self.D.mul(x[0], self.D.c2(self.xi))]
    def mulc(self, x, c): return [self.D.mul(x[0], c)]
    def zero(self, n): return [{}]
    def one(self, n): return [{(): 1}]

class PolyDom:
    """the field values of one scenario"""
    def __init__(self, cv):
        self.p = cv['p']; self.F = FP(cv['p']); self.xi = cv['xi']; self.half = pow(2, -1, self.p)
        self.names = []; self.conjv = {}
        self.C = CRing(self); self.R2 = Ring2(self.F, self.xi); self.R2.half = self.half
        self.R2.R = self.F.R; self.R2.Rinv = self.F.Rinv
        self.rels = []
    def c2(self, c): return {k: v for k, v in (((), c[0] % self.p), ((U,), c[1] % self.p)) if v}
    def var(self, name):
        """an element of F_p"""
        v = len(self.names); self.names.append(name); self.conjv[v] = v
        return {(v,): 1}
    def var2(self, name):
        """an element of F_p2: it and its conjugate are independent unknowns"""
        v = len(self.names); self.names += [name, name + "'"]; self.conjv[v] = v + 1; self.conjv[v + 1] = v
        return {(v,): 1}
    def conj(self, a):
        r = {}
        for m, c in a.items():
            l = tuple(sorted(U if v == U else self.conjv[v] for v in m))
            r[l] = (self.p - c) % self.p if U in m else c
        return r
    def re(self, a): return self.F.scale(self.F.add(a, self.conj(a)), self.half)
    def im(self, a): return self.F.mul(self.F.scale(self.F.sub(a, self.conj(a)), self.half), {(U,): self.p - 1})
    def show(self, a):
        return ' + '.join('%s%s' % (c if c < 1000 else '-%d' % (self.p - c) if self.p - c < 1000 else '#', ''.join('*u' if v == U else '*' + self.names[v] for v in m)) for m, c in list(a.items())[:6]) or '0'
    def mul(self, a, b): return self.F.mul(a, b)
    def isconst(self, a): return all(m in ((), (U,)) for m in a)
    def norm(self, s, a):
        for v, q in s.env.get('sub', ()):
            if any(v in m for m in a): a = self.F.subst(a, v, q)
        rels = self.rels + list(s.env.get('rel', ()))
        if rels and len(a): a = self.F.reduce(a, rels)
        return a
    def addrel(self, q):
        """q = 0 holds (and so does its conjugate)"""
        self.rels.append(q)
        c = self.conj(q)
        if c != q: self.rels.append(c)
    def nzlist(self, s): return list(s.env.get('nz', ()))
    def divexact(self, a, d):
        """a / d if d divides a"""
        F = self.F
        key = F.order
        h, d = F.monic(d)
        q = {}; a = dict(a); n = 0
        while a:
            m = max(a, key=key); t = F.mdiv(m, h)
            if t is None: return None
            c = a[m]; q[t] = c
            a = F.sub(a, F.mul({t: c}, d)); n += 1
            if n > 400: return None
        return q
    def sign(self, s, a):
        """0: the value is zero; 1: it is not; None: not known"""
        a = self.norm(s, a)
        if not a: return 0
        if self.isconst(a): return 1
        nz = []
        for d in self.nzlist(s):
            d = self.norm(s, d)
            if d and not self.isconst(d): nz.append(d)
        ch = True
        while ch:
            ch = False
            for d in nz:
                q = self.divexact(a, d)
                if q is not None:
                    a = q; ch = True
                    if self.isconst(a): return 1
        return None
    def assume(self, s, a, zero):
        a = self.norm(s, a)
        # strip factors known to be non-zero
        ch = True
        while ch:
            ch = False
            for d in self.nzlist(s):
                d = self.norm(s, d)
                if not d or self.isconst(d): continue
                q = self.divexact(a, d)
                if q is not None and not self.isconst(q): a = q; ch = True
        if not zero:
            s.env['nz'] = s.env.get('nz', ()) + (a, self.conj(a)); return s
        vs = sorted(set(v for m in a for v in m if v != U), reverse=True)
        for v in vs:
            ms = [m for m in a if v in m]
            if ms == [(v,)] or (len(ms) == 1 and len(ms[0]) == 1):
                rep = self.F.scale({m: c for m, c in a.items() if m != (v,)}, -pow(a[(v,)], -1, self.p))
                cv = self.conjv[v]
                if cv != v and any(cv in m for m in rep): continue
                sub = [(v, rep)]
                if cv != v: sub.append((cv, self.conj(rep)))
                old = tuple((w, self.subs(q, sub)) for w, q in s.env.get('sub', ()))
                s.env['sub'] = old + tuple(sub)
                return s
        s.env['rel'] = s.env.get('rel', ()) + tuple(q for q in (a, self.conj(a)))
        return s
    def subs(self, q, sub):
        for v, r in sub: q = self.F.subst(q, v, r)
        return q
    # ------------------------------------------------------------ objects in memory
    def words(self, tm, s, a, n): return [tm.rd(s, a + 8 * i, a + 8 * i, 8) for i in range(n)]
    def fp(self, tm, s, a):
        ws = self.words(tm, s, a, 4)
        if all(isinstance(w, int) for w in ws):
            X = sum(w << 64 * i for i, w in enumerate(ws))
            if X >= self.p: tm.flag(s, 'operand of a field operation is not reduced'); 
            return self.F.const(X * self.F.Rinv)
        if all(isinstance(w, TW) for w in ws) and all(w.val is ws[0].val and w.i == ws[0].i + i for i, w in enumerate(ws)):
            v = ws[0].val; i = ws[0].i
            if v.n == 4 and i == 0: return self.norm(s, v.v)
            if v.n == 8 and i == 0: return self.re(self.norm(s, v.v))
            if v.n == 8 and i == 4: return self.im(self.norm(s, v.v))
            r = self.part(tm, s, v, i, 4)
            if r is not None: return r
        return None
    def part(self, tm, s, v, i, n): return None
    def fp2(self, tm, s, a):
        ws = self.words(tm, s, a, 8)
        if all(isinstance(w, TW) for w in ws) and all(w.val is ws[0].val and w.i == ws[0].i + i for i, w in enumerate(ws)):
            v = ws[0].val; i = ws[0].i
            if v.n == 8 and i == 0: return self.norm(s, v.v)
            r = self.part(tm, s, v, i, 8)
            if r is not None: return r
        x = self.fp(tm, s, a); y = self.fp(tm, s, a + 32)
        if x is None or y is None: return None
        return self.norm(s, self.F.add(x, self.F.mul(y, {(U,): 1})))
    def put(self, tm, s, a, n, v):
        v = self.norm(s, v)
        if self.isconst(v):
            cs = [v.get((), 0)] + ([v.get((U,), 0)] if n == 8 else [])
            if n == 4 and (U,) in v: return False
            for j, c in enumerate(cs):
                X = c * self.F.R % self.p
                for i in range(4): tm.wr(s, a + 32 * j + 8 * i, a + 32 * j + 8 * i, 8, (X >> 64 * i) & M64)
            return True
        val = Val(n, v)
        for i in range(n): tm.wr(s, a + 8 * i, a + 8 * i, 8, TW(val, i))
        return True
    def mem(self, a, n, v):
        """initial contents"""
        val = Val(n, v)
        if self.isconst(v):
            out = []
            for j, c in enumerate([v.get((), 0)] + ([v.get((U,), 0)] if n == 8 else [])):
                X = c * self.F.R % self.p
                out += [(a + 32 * j + 8 * i, 8, (X >> 64 * i) & M64) for i in range(4)]
            return out
        return [(a + 8 * i, 8, TW(val, i)) for i in range(n)]
    # ------------------------------------------------------------ hooks
    def hooks(self, img, only=None):
        class B: pass
        b = B(); b.img = img; jitcheck.bind(b, TABLE)
        H = {}
        for a, (rk, c) in b.bound.items():
            if all(t in ('Fp', 'Fp2') for d, t in c.args): H[a] = self.contract_hook(c)
        for a, names in img.syms.items():
            for d in names:
                if d in ('mie::Fp::isZero() const',): H[a] = self.zero_hook(4)
                elif d in ('bn::Fp2T<mie::Fp>::isZero() const',): H[a] = self.zero_hook(8)
                elif d in ('bn::Fp2T<mie::Fp>::operator==(bn::Fp2T<mie::Fp> const&) const',): H[a] = self.eq_hook(8, (1, 0))
                elif d in ('mie::Fp::compare(mie::Fp const&, mie::Fp const&)',): H[a] = self.eq_hook(4, (0, 1, 0xffffffff))
        return H
    def rdval(self, tm, s, a, t): return self.fp(tm, s, a) if t == 'Fp' else self.fp2(tm, s, a)
    def contract_hook(self, c):
        def h(tm, s):
            ad = [s.r.get(k) for k in ARGS[:len(c.args)]]
            if not all(isinstance(a, int) for a in ad): return False
            for i in range(len(ad)):
                for j in range(i):
                    ti, tj = c.args[i][1], c.args[j][1]
                    if ad[i] == ad[j] and ti == tj:
                        if c.alias == 'none' and 'i' != c.args[i][0] + c.args[j][0] != 'ii': return False
                    elif ad[i] < ad[j] + tsize(tj) and ad[j] < ad[i] + tsize(ti): return False
            ins = []
            for (d, t), a in zip(c.args, ad):
                if d == 'o': continue
                v = self.rdval(tm, s, a, t)
                if v is None: return False
                ins.append((t, v))
            tm.used[c.name] = tm.used.get(c.name, 0) + 1
            res = self.apply(tm, s, c, ins)
            if res is None: return False
            t = c.args[0][1]
            if not self.put(tm, s, ad[0], 4 if t == 'Fp' else 8, res): return False
            return tm.ret(s)
        return h
    def apply(self, tm, s, c, ins):
        t0 = c.args[0][1]
        if c.kind == 'inv': return self.inverse(tm, s, ins[0][1], t0)
        if all(t == 'Fp' for t, v in ins) and t0 == 'Fp':
            return c.fn(self.R2, *[[v] for t, v in ins])[0]
        try:
            return c.fn(self.C, *[[v] for t, v in ins])[0]
        except IndexError:
            r = c.fn(self.R2, *[[v] if t == 'Fp' else [self.re(v), self.im(v)] for t, v in ins])
            return self.F.add(r[0], self.F.mul(r[1], {(U,): 1}))
    def inverse(self, tm, s, v, t):
        """requires the value to be non-zero"""
        F = self.F; v = self.norm(s, v)
        sg = self.sign(s, v)
        if sg != 1: tm.flag(s, 'inverse of a value not known to be non-zero: ' + self.show(v)); return None
        if self.isconst(v):
            a, b = v.get((), 0), v.get((U,), 0); n = pow(a * a + b * b, -1, self.p)
            return self.c2((a * n, -b * n))
        key = ('inv', frozenset(v.items()))
        memo = s.env.get('invs', {})
        if key in memo: return memo[key]
        w = self.var('inv%d' % len(self.names)) if t == 'Fp' else self.var2('inv%d' % len(self.names))
        s.env['invs'] = {**memo, key: w}
        r = F.sub(F.mul(v, w), F.const(1))
        s.env['rel'] = s.env.get('rel', ()) + ((r,) if self.conj(r) == r else (r, self.conj(r)))
        s.env['nz'] = s.env.get('nz', ()) + ((w,) if self.conj(w) == w else (w, self.conj(w)))
        return w
    def decide(self, tm, s, e, yes, no):
        """states in which e = 0 (return value yes) and e != 0 (return values no)"""
        g = self.sign(s, e)
        if g is not None:
            rs = [(yes,)] if g == 0 else [no]
            rv = rs[0]
            if len(rv) == 1: return tm.ret(s, rv[0])
            out = []
            for r in rv:
                t = s.copy(); q = tm.ret(t, r)
                if q == 'ret': raise Unsupported('predicate is the entry point')
                out.append(t)
            return out
        out = []
        for z, rv in ((True, (yes,)), (False, no)):
            for r in rv:
                t = s.copy(); self.assume(t, e, z)
                if tm.ret(t, r) == 'ret': raise Unsupported('predicate is the entry point')
                out.append(t)
        return out
    def zero_hook(self, n):
        def h(tm, s):
            a = s.r['rdi']
            if not isinstance(a, int): return False
            v = self.fp(tm, s, a) if n == 4 else self.fp2(tm, s, a)
            if v is None: return False
            return self.decide(tm, s, v, 1, (0,))
        return h
    def eq_hook(self, n, ret):
        def h(tm, s):
            a, b = s.r['rdi'], s.r['rsi']
            if not (isinstance(a, int) and isinstance(b, int)): return False
            f = self.fp if n == 4 else self.fp2
            x, y = f(tm, s, a), f(tm, s, b)
            if x is None or y is None: return False
            return self.decide(tm, s, self.F.sub(x, y), ret[0], ret[1:])
        return h
