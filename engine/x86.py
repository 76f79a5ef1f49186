"""Symbolic executor for the x86-64 code of the library: code generated at run time by the library's
own generator and code compiled from its C++ sources.  The instruction semantics below are trusted."""
import re, subprocess, os, tempfile
from dom import *
import dom

R64 = ['rax','rbx','rcx','rdx','rsi','rdi','rbp','rsp'] + ['r%d' % i for i in range(8, 16)]
SUB = {}
for r in R64[:4]:
    b = r[1]
    SUB[r] = (r, 64, 0); SUB['e%sx' % b] = (r, 32, 0); SUB['%sx' % b] = (r, 16, 0); SUB['%sl' % b] = (r, 8, 0); SUB['%sh' % b] = (r, 8, 8)
for r in R64[4:8]:
    b = r[1:]
    SUB[r] = (r, 64, 0); SUB['e' + b] = (r, 32, 0); SUB[b] = (r, 16, 0); SUB[b + 'l'] = (r, 8, 0)
for r in R64[8:]:
    SUB[r] = (r, 64, 0); SUB[r + 'd'] = (r, 32, 0); SUB[r + 'w'] = (r, 16, 0); SUB[r + 'b'] = (r, 8, 0)

PTRSZ = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'TBYTE': 10}

class Mem0:
    """snapshot of the initial concrete memory"""
    def __init__(self, maps, data):
        self.maps = maps; self.data = data   # (addr, len, perm, off, name)
    def find(self, a):
        for m in self.maps:
            if m[0] <= a < m[0] + m[1]: return m
        return None
    def read(self, a, n):
        m = self.find(a)
        if m is None or a + n > m[0] + m[1]: return None
        o = m[3] + a - m[0]
        return int.from_bytes(self.data[o:o + n], 'little')

class Image:
    """initial memory, instruction decoder, symbols"""
    def __init__(self, binfile, dumptext, exe=None, cachedir='/tmp'):
        self.entries = {}
        maps = []; off = 0
        for l in dumptext.splitlines():
            f = l.split()
            if not f: continue
            if f[0] == 'entry': self.entries[f[1]] = int(f[2])
            elif f[0] == 'map':
                maps.append((int(f[1]), int(f[2]), f[3], off, f[4])); off += int(f[2])
        self.mem0 = Mem0(maps, open(binfile, 'rb').read())
        self.insn = {}
        self.exe = exe
        self.syms = {}      # addr -> name (demangled)
        self.symaddr = {}
        self.symsize = {}
        if exe: self.load_syms()
    CACHE = {}
    def load_syms(self):
        c = Image.CACHE.get(self.exe)
        if c is None:
            self.load_syms0()
            Image.CACHE[self.exe] = {k: getattr(self, k) for k in ('syms', 'symaddr', 'symsize', 'plt', 'lo_text', 'hi_text')}
            Image.CACHE[self.exe]['insn'] = dict(self.insn)
            return
        for k, v in c.items(): setattr(self, k, v if k != 'insn' else dict(v))
    @staticmethod
    def symbols(exe):
        """addresses of the symbols only"""
        i = Image.__new__(Image); i.exe = exe; i.syms = {}; i.symaddr = {}; i.symsize = {}; i.load_nm()
        return i.symaddr
    def load_syms0(self):
        self.load_nm()
        self.load_text()
    def load_nm(self):
        t = subprocess.run(['nm', '-S', self.exe], capture_output=True, text=True).stdout
        rows = []
        for l in t.splitlines():
            f = l.split()
            if len(f) == 4: rows.append((int(f[0], 16), int(f[1], 16), f[2], f[3]))
            elif len(f) == 3: rows.append((int(f[0], 16), 0, f[1], f[2]))
        dm = subprocess.run(['c++filt'], input='\n'.join(r[3] for r in rows), capture_output=True, text=True).stdout.split('\n')
        for r, d in zip(rows, dm):
            self.syms.setdefault(r[0], []).append(d)
            self.symaddr.setdefault(d, r[0]); self.symaddr.setdefault(r[3], r[0])
            self.symsize[r[0]] = max(r[1], self.symsize.get(r[0], 0))
    def load_text(self):
        t = subprocess.run('objdump -d -Mintel -j .plt -j .plt.sec -j .plt.got %s | grep "^[0-9a-f]* <"' % self.exe, shell=True, capture_output=True, text=True).stdout
        self.plt = {}
        for l in t.splitlines():
            m = re.match(r'([0-9a-f]+) <(.+)@plt>:', l)
            if m: self.plt[int(m.group(1), 16)] = m.group(2)
        # text
        self._objdump(['-d', self.exe])
        self.lo_text = min(self.insn); self.hi_text = max(self.insn) + 16
    def _objdump(self, args):
        t = subprocess.run(['objdump', '-Mintel', '--no-show-raw-insn', '-w', '-z'] + args, capture_output=True, text=True).stdout
        prev = None
        for l in t.splitlines():
            m = re.match(r'\s*([0-9a-f]+):\t(.*)$', l)
            if not m: 
                prev = None
                continue
            a = int(m.group(1), 16)
            if prev is not None: self.insn[prev][3] = a
            s, _, cm = m.group(2).partition('#')
            s = s.strip()
            if '[rip' in s: s = re.sub(r'\[rip[+-]0x[0-9a-f]+\]', 'ds:0x' + cm.split()[0].replace('0x', ''), s)
            s = re.sub(r'\s*<[^>]*>+', '', s)
            mn, _, ops = s.partition(' ')
            if mn in ('notrack', 'bnd', 'cs', 'data16', 'addr32'):
                mn, _, ops = ops.strip().partition(' ')
            if mn in ('rep', 'repz', 'repnz', 'lock'):
                mn2, _, ops = ops.strip().partition(' ')
                mn = mn if not mn2 else (mn2 if mn2 == 'ret' else mn + '_' + mn2)
            self.insn[a] = [mn, self._ops(ops.strip()), s, None]
            prev = a
    def _ops(self, ops):
        if not ops: return ()
        out = []
        for o in re.split(r',(?![^\[]*\])', ops):
            out.append(self._op(o.strip()))
        return tuple(out)
    def _op(self, o):
        if o in SUB: return ('r',) + SUB[o]
        m = re.match(r'xmm(\d+)$', o)
        if m: return ('x', int(m.group(1)))
        m = re.match(r'(?:(\w+) PTR )?(?:(fs|gs|ds|cs|es|ss):)?\[(.*)\]$', o)
        if m:
            sz = PTRSZ.get(m.group(1)) if m.group(1) else None
            base = idx = None; sc = 1; disp = 0
            for t in re.findall(r'[+-]?[^+-]+', m.group(3)):
                sg = -1 if t[0] == '-' else 1
                t = t.lstrip('+-')
                if '*' in t:
                    a, b = t.split('*')
                    if a in ('riz', 'eiz'): continue
                    if a not in SUB: return ('?', o)
                    idx = SUB[a][0]; sc = int(b)
                    if SUB[a][1] != 64: return ('?', o)
                elif t in SUB:
                    if SUB[t][1] != 64: return ('?', o)
                    if base is None: base = SUB[t][0]
                    else: idx = SUB[t][0]
                elif t in ('rip',): return ('?', o)
                elif t in ('riz', 'eiz'): pass
                else:
                    try: disp += sg * int(t, 16)
                    except ValueError: return ("?", o)
            return ('m', sz, base, idx, sc, disp, m.group(2))
        m = re.match(r'(?:(\w+) PTR )?(?:(fs|gs|ds|cs|es|ss):)?(0x[0-9a-f]+)$', o)
        if m and (m.group(1) or m.group(2)):
            return ('m', PTRSZ.get(m.group(1)), None, None, 1, int(m.group(3), 16), m.group(2))
        try:
            return ('i', int(o, 16))
        except ValueError:
            return ('?', o)
    def decode(self, a):
        t = self.insn.get(a)
        if t is not None and t[3] is not None: return t
        m = self.mem0.find(a)
        if m is None or 'x' not in m[2]: raise Unsupported('execution outside code at %x' % a)
        n = min(4096, m[0] + m[1] - a)
        o = m[3] + a - m[0]
        fd, fn = tempfile.mkstemp(); os.write(fd, self.mem0.data[o:o + n]); os.close(fd)
        save = self.insn; self.insn = {}
        self._objdump(['-D', '-b', 'binary', '-mi386:x86-64', '--adjust-vma=%d' % a, fn])
        os.unlink(fn)
        new = self.insn; self.insn = save
        addrs = sorted(new)
        if n == 4096: addrs = [x for x in addrs if x < a + n - 20]
        for x in addrs:
            if x not in self.insn or self.insn[x][3] is None:
                if new[x][3] is None: continue
                self.insn[x] = new[x]
        t = self.insn.get(a)
        if t is None: raise Unsupported('cannot decode at %x' % a)
        return t

class Throw(Exception): pass
class Restart(Exception): pass

class State:
    def __init__(self, img):
        self.img = img
        self.r = {}
        self.x = {}
        self.mem = {}         # aligned addr -> int/Word  or dict of pieces
        self.cf = 0
        self.zs = None        # (value, width) result for ZF/SF
        self.src = None       # ('sub'|'add'|'logic', a, b, width)
        self.ctx = Ctx()
        self.pc = 0
        self.fval = {}        # var -> field polynomial (shared dict copied on fork)
        self.regions = None   # list of (lo, hi, mode) or None: no checks
        self.events = []
        self.steps = 0
        self.trail = []
        self.user = {}
        self.stack_lo = self.stack_hi = 0
    def fork(self):
        s = State.__new__(State)
        s.img = self.img; s.r = dict(self.r); s.x = dict(self.x)
        s.mem = {k: (dict(v) if type(v) is dict else v) for k, v in self.mem.items()}
        s.cf = self.cf; s.zs = self.zs; s.src = self.src
        s.ctx = self.ctx.copy(); s.pc = self.pc; s.fval = dict(self.fval)
        s.regions = self.regions; s.events = list(self.events); s.steps = self.steps
        s.trail = list(self.trail); s.user = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.user.items()}
        s.stack_lo = self.stack_lo; s.stack_hi = self.stack_hi
        return s
    # ---------------------------------------------------------------- substitution
    def substitute(self, var, rep):
        """replace atom var by polynomial rep everywhere"""
        def sp(p):
            if not any(var in m for m in p): return p
            r = {}
            powers = {0: pconst(1), 1: rep}
            for m, c in p.items():
                k = m.count(var)
                if k == 0: r = padd(r, {m: c}); continue
                if k not in powers:
                    q = rep
                    for _ in range(k - 1): q = pmul(q, rep)
                    powers[k] = q
                rest = tuple(v for v in m if v != var)
                r = padd(r, pmul({rest: c}, powers[k]))
            return r
        def sw(w):
            if not isinstance(w, Word): return w
            p = sp(w.p)
            if p is w.p: return w
            if w.tag and w.tag[0] == 'or':
                return Word(p, w.lo, w.hi, ('or', [sw(t) for t in w.tag[1]]))
            return self.ctx.word(p, w.lo, w.hi)
        for k in self.r: self.r[k] = sw(self.r[k])
        for k, v in self.x.items(): self.x[k] = [sw(t) for t in v]
        for k, v in self.mem.items():
            if type(v) is dict: self.mem[k] = {o: (n, sw(t)) for o, (n, t) in v.items()}
            else: self.mem[k] = sw(v)
        if isinstance(self.cf, Word): self.cf = sw(self.cf)
        if self.zs: self.zs = (sw(self.zs[0]), self.zs[1])
        if self.src: self.src = (self.src[0], sw(self.src[1]), sw(self.src[2]), self.src[3])
        c = self.ctx
        old = c.facts; c.facts = []; c.byvar = {}
        c.memo = {k: v for k, v in c.memo.items() if k[0] == 'fam' and k[1] != var or k[0] == 'ind' and not any(var in m for _, ip in v for m in ip)}
        for p, lo, hi in old:
            q = sp(p)
            if pisconst(q):
                v = q.get((), 0)
                if (lo is not None and v < lo) or (hi is not None and v > hi): raise Infeasible()
                continue
            c.fact(q, lo, hi)
        c.fact(rep, *var_range(var))
        self.user.setdefault('subst', []).append((var, rep))
    # ---------------------------------------------------------------- memory
    def region(self, a, n, kind):
        if self.regions is None: return
        for lo, hi, mode in self.regions:
            if lo <= a and a + n <= hi and kind in mode: return
        if self.stack_lo <= a and a + n <= self.stack_hi: return
        self.events.append(('access', kind, a, n, self.pc))
    def rd8(self, al):
        v = self.mem.get(al)
        if v is None:
            if self.stack_lo <= al < self.stack_hi: return None
            v = self.img.mem0.read(al, 8)
        return v
    def read(self, a, n):
        if not isinstance(a, int): return self.table_read(a, n)
        self.region(a, n, 'r')
        al = a & ~7; off = a - al
        if off + n > 8:
            k = 8 - off
            lo = self.read(a, k); hi = self.read(a + k, n - k)
            if isinstance(lo, int) and isinstance(hi, int): return lo | hi << (8 * k)
            return self.ctx.word(padd(poly(lo), pscale(poly(hi), 1 << 8 * k)), 0, (1 << 8 * n) - 1)
        v = self.rd8(al)
        if v is None:
            w = self.ctx.fresh('uninit@%x' % a, 0, (1 << 8 * n) - 1)
            if n == 8: self.mem[al] = w
            else: self.mem.setdefault(al, {}); self.mem[al][off] = (n, w)
            return w
        if type(v) is dict:
            t = v.get(off)
            if t is not None and t[0] == n: return t[1]
            if t is not None and t[0] > n: return self.low(t[1], n)
            # combine pieces
            tot = {}; o = off; ok = True; hi = 0; allint = True
            while o < off + n:
                t = v.get(o)
                if t is None or o + t[0] > off + n:
                    # piece containing o?
                    f = None
                    for po, (pn, pv) in v.items():
                        if po <= o < po + pn: f = (po, pn, pv)
                    if f is None:
                        base = None if self.stack_lo <= al < self.stack_hi else self.img.mem0.read(al, 8)
                        if base is None:
                            w = self.ctx.fresh('uninit@%x' % (al + o), 0, 255); v[o] = (1, w); t = (1, w)
                        else: t = (1, (base >> 8 * o) & 255)
                    else:
                        po, pn, pv = f
                        k = min(po + pn, off + n) - o
                        q = self.ctx.div2k(pv, 8 * (o - po))[0]
                        t = (k, self.low(q, k))
                tot = padd(tot, pscale(poly(t[1]), 1 << 8 * (o - off)))
                o += t[0]
            return self.ctx.word(tot, 0, (1 << 8 * n) - 1)
        if n == 8: return v
        if isinstance(v, int): return (v >> 8 * off) & ((1 << 8 * n) - 1)
        return self.low(self.ctx.div2k(v, 8 * off)[0], n)
    def indicators(self, v):
        done = self.user.setdefault('indsub', set())
        t = self.ctx.indicators(v)
        if v not in done:
            done.add(v)
            rep = {}
            for j, ip in t: rep = padd(rep, pscale(ip, j))
            self.substitute(v, rep)
            raise Restart()
        return t
    def table_read(self, a, n):
        p = a.p
        vs = set(v for m in p for v in m)
        fams = set(self.ctx.memo.get(('fam', v)) for v in vs)
        if len(fams) == 1 and None not in fams and all(len(m) <= 1 for m in p):
            cases = [(p.get((), 0) + sum(p.get(m, 0) for m in ip if len(ip) == 1), ip) for j, ip in self.indicators(fams.pop())]
        elif len(vs) == 1:
            v = vs.pop()
            lo, hi = var_range(v)
            if hi - lo > 64: raise Unsupported('symbolic address (%s %d..%d) at %x' % (var_name(v), lo, hi, self.pc))
            ev = lambda j: sum(c * j ** len(m) for m, c in p.items())
            if v in BOOLS: cases = [(ev(0), {(): 1, (v,): -1}), (ev(1), pvar(v))]
            else: cases = [(ev(j), ip) for j, ip in self.indicators(v)]
        else: raise Unsupported('symbolic address (%s) at %x' % (' '.join('%s%r' % (var_name(v), var_range(v)) for v in vs), self.pc))
        tot = {}; L = None; H = 0
        for ad, ind in cases:
            if type(ad) is not int: raise Unsupported('symbolic address at %x' % self.pc)
            w = self.read(ad & M64, n)
            l, h = rng(w)
            L = l if L is None else min(L, l); H = max(H, h)
            tot = padd(tot, pmul(ind, poly(w)))
        return self.ctx.word(tot, L, H)
    def low(self, v, n):
        if isinstance(v, int): return v & ((1 << 8 * n) - 1)
        return self.ctx.div2k(v, 8 * n)[1]
    def write(self, a, n, v):
        if not isinstance(a, int): raise Unsupported('symbolic address at %x' % self.pc)
        self.region(a, n, 'w')
        al = a & ~7; off = a - al
        if off + n > 8:
            k = 8 - off
            self.write(a, k, self.low(v, k))
            self.write(a + k, n - k, self.ctx.div2k(v, 8 * k)[0])
            return
        if n == 8:
            self.mem[al] = v; return
        cur = self.mem.get(al)
        if cur is None:
            base = None if self.stack_lo <= al < self.stack_hi else self.img.mem0.read(al, 8)
            if base is None: self.mem[al] = {off: (n, v)}; return
            cur = base
        if type(cur) is not dict:
            if isinstance(cur, int) and isinstance(v, int):
                m = ((1 << 8 * n) - 1) << 8 * off
                self.mem[al] = (cur & ~m) | (v << 8 * off); return
            d = {}
            if isinstance(cur, int):
                for o in range(8): d[o] = (1, (cur >> 8 * o) & 255)
            else: d[0] = (8, cur)
            cur = d
        # remove overlaps
        new = {}
        for o, (k, pv) in cur.items():
            if o + k <= off or o >= off + n: new[o] = (k, pv); continue
            if o < off: new[o] = (off - o, self.low(pv, off - o))
            if o + k > off + n:
                s = off + n - o
                new[off + n] = (k - s, self.ctx.div2k(pv, 8 * s)[0])
        new[off] = (n, v)
        self.mem[al] = new
    # ---------------------------------------------------------------- operands
    def ea(self, o):
        _, sz, base, idx, sc, disp, seg = o
        if seg in ('fs', 'gs'):
            return 0x7fff00000000 + disp if base is None and idx is None else self._bad('segment')
        a = disp
        if base: 
            b = self.r[base]
            if isinstance(b, int) and isinstance(a, int): a += b
            else: a = self.ctx.add(b, a & M64)[0]
        if idx:
            i = self.r[idx]
            if isinstance(i, int) and isinstance(a, int): a += i * sc
            else:
                if isinstance(i, int): i = i * sc & M64
                else: i = self.ctx.split(pscale(i.p, sc), i.lo * sc, i.hi * sc)[0]
                a = self.ctx.add(a & M64 if isinstance(a, int) else a, i)[0]
        return a & M64 if isinstance(a, int) else a
    def _bad(self, s): raise Unsupported(s + ' at %x' % self.pc)
    def width(self, ops):
        for o in ops:
            if o[0] == 'r': return o[2]
        for o in ops:
            if o[0] == 'm' and o[1]: return o[1] * 8
        self._bad('operand width')
    def getreg(self, name, w, sh):
        v = self.r.get(name)
        if v is None:
            v = self.r[name] = self.ctx.fresh('init_' + name)
        if w == 64: return v
        if isinstance(v, int): return (v >> sh) & ((1 << w) - 1)
        if sh: v = self.ctx.div2k(v, sh)[0]
        return self.ctx.div2k(v, w)[1]
    def setreg(self, name, w, sh, v):
        if w == 64 or w == 32: self.r[name] = v; return
        old = self.getreg(name, 64, 0)
        m = ((1 << w) - 1) << sh
        if isinstance(old, int) and isinstance(v, int):
            self.r[name] = (old & ~m) | (v << sh)
        else:
            if sh: self._bad('high byte write')
            if isinstance(old, int): hi = pconst(old & ~m & M64)
            elif old.hi < (1 << w): hi = {}
            else: hi = psub(poly(old), poly(self.ctx.div2k(old, w)[1]))
            p = padd(hi, poly(v))
            self.r[name] = self.ctx.word(p, 0, M64)
    def get(self, o, w):
        k = o[0]
        if k == 'r': 
            v = self.getreg(o[1], o[2], o[3])
            return v
        if k == 'i': return o[1] & ((1 << w) - 1)
        if k == 'm': return self.read(self.ea(o), w // 8)
        self._bad('operand %r' % (o,))
    def put(self, o, w, v):
        if o[0] == 'r': self.setreg(o[1], o[2], o[3], v)
        elif o[0] == 'm': self.write(self.ea(o), w // 8, v)
        else: self._bad('dest operand')
    def getx(self, i):
        v = self.x.get(i)
        if v is None: v = self.x[i] = [self.ctx.fresh('init_xmm%d' % i), self.ctx.fresh('init_xmm%dh' % i)]
        return v
    def getxm(self, o):
        if o[0] == 'x': return list(self.getx(o[1]))
        a = self.ea(o)
        return [self.read(a, 8), self.read(a + 8, 8)]
    # ---------------------------------------------------------------- conditions
    def bnot(self, b):
        if isinstance(b, int): return 1 - b
        return self.ctx.word(psub(pconst(1), b.p), 1 - b.hi, 1 - b.lo)
    def zero_cond(self, v, w):
        """0/1 value or ('zero', v)"""
        if isinstance(v, int): return 1 if v == 0 else 0
        if v.lo > 0: return 0
        if v.hi == 1: return self.bnot(v)
        e = self.ctx.boolenum(v.p, lambda t: 1 if t == 0 else 0)
        if e is not None: return self.ctx.word(e, 0, 1)
        return ('zero', v)
    def signbit(self, v, w):
        if isinstance(v, int): return v >> (w - 1)
        return self.ctx.div2k(v, w - 1)[0]
    def flip(self, v, w):
        """v + 2^(w-1) mod 2^w : order isomorphism signed -> unsigned"""
        h = 1 << (w - 1)
        if isinstance(v, int): return v ^ h
        return self.ctx.split(padd(v.p, pconst(h)), v.lo + h, v.hi + h, w)[0]
    def cond(self, cc):
        """truth value: 0/1, boolean Word, or ('zero', v, negated)"""
        neg = False
        if cc in ('ae', 'nb', 'nc'): cc, neg = 'b', True
        elif cc in ('c', 'nae'): cc = 'b'
        elif cc in ('ne', 'nz'): cc, neg = 'e', True
        elif cc == 'z': cc = 'e'
        elif cc in ('a', 'nbe'): cc, neg = 'be', True
        elif cc == 'na': cc = 'be'
        elif cc in ('ge', 'nl'): cc, neg = 'l', True
        elif cc in ('g', 'nle'): cc, neg = 'le', True
        elif cc == 'ns': cc, neg = 's', True
        elif cc == 'no': cc, neg = 'o', True
        if cc == 'b': b = self.cf
        elif cc == 'e': b = self.zero_cond(*self.zs)
        elif cc == 's': b = self.signbit(*self.zs)
        elif cc == 'be':
            if self.src and self.src[0] == 'sub':
                _, x, y, w = self.src
                b = self.bnot(self.ctx.sub(y, x, 0, w)[1])
            else: b = self.or_cond(self.cf, self.zero_cond(*self.zs))
        elif cc in ('l', 'le'):
            if self.src is None: self._bad('signed condition')
            k, x, y, w = self.src
            if k == 'logic':
                s = self.signbit(*self.zs)
                b = s if cc == 'l' else self.or_cond(s, self.zero_cond(*self.zs))
            elif k == 'sub':
                fx, fy = self.flip(x, w), self.flip(y, w)
                b = self.ctx.sub(fx, fy, 0, w)[1] if cc == 'l' else self.bnot(self.ctx.sub(fy, fx, 0, w)[1])
            else: self._bad('signed condition')
        elif cc == 'o':
            k, x, y, w = self.src
            if not (isinstance(x, int) and isinstance(y, int)): self._bad('overflow condition')
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            v = sx + sy if k == 'add' else sx - sy if k == 'sub' else 0
            b = 0 if -(1 << (w - 1)) <= v < (1 << (w - 1)) else 1
        else: self._bad('condition ' + cc)
        if b is None: self._bad('undefined flag')
        if neg:
            if isinstance(b, tuple): return (b[0], b[1], not (b[2] if len(b) > 2 else False))
            return self.bnot(b)
        if isinstance(b, tuple) and len(b) == 2: return (b[0], b[1], False)
        return b
    def or_cond(self, a, b):
        if isinstance(b, tuple): 
            if a == 0: return b
            self._bad('combined condition')
        if isinstance(a, int) and isinstance(b, int): return a | b
        p = psub(padd(poly(a), poly(b)), pmul(poly(a), poly(b)))
        return self.ctx.word(p, 0, 1)
    # assume truth of condition (bool value or zero cond); raises Infeasible
    def assume(self, c, val):
        if isinstance(c, int):
            if c != val: raise Infeasible()
            return
        if isinstance(c, tuple):
            _, v, neg = c
            if neg: val = 1 - val
            if val: self.assume_zero(v)
            else: self.assume_nonzero(v)
            return
        p = c.p
        self.assume_eq(psub(p, pconst(val)))
    def assume_eq(self, p):
        """p == 0"""
        lin = None
        best = None
        for m, k in p.items():
            if len(m) == 1 and k in (1, -1):
                v = m[0]
                if not any(v in n for n in p if n != m):
                    if best is None or v > best[0]: best = (v, k)
        # constants such as 2^64*c == ... : try any coefficient for single-variable polynomials
        if best is None and len([m for m in p if m]) == 1:
            m = [m for m in p if m][0]
            if len(m) == 1:
                q = Fraction(-p.get((), 0), 1) / p[m]
                if q.denominator != 1: raise Infeasible()
                lo, hi = var_range(m[0])
                if not lo <= q <= hi: raise Infeasible()
                self.substitute(m[0], pconst(int(q))); return
        if best:
            v, k = best
            rest = {m: c for m, c in p.items() if m != (v,)}
            rep = pscale(rest, -k)
            lo, hi = prange(rep)
            vl, vh = var_range(v)
            if hi < vl or lo > vh: raise Infeasible()
            self.substitute(v, rep)
        else:
            if pisconst(p):
                if p.get((), 0) != 0: raise Infeasible()
                return
            lo, hi = prange(p)
            if lo > 0 or hi < 0: raise Infeasible()
            self.ctx.fact(p, 0, 0)
            self.ctx.memo = {k: v for k, v in self.ctx.memo.items() if k[0] != 'ge0'}
    def assume_zero(self, w):
        if isinstance(w, int):
            if w: raise Infeasible()
            return
        if w.tag and w.tag[0] == 'or':
            ws = w.tag[1]
            self.assume_eq(w.p)
            # later substitutions must see earlier ones: record and apply one by one
            for i in range(len(ws)):
                self._applied(ws[i])
            return
        if w.lo > 0: raise Infeasible()
        self.assume_eq(w.p)
    def _applied(self, w):
        if isinstance(w, Word):
            p = w.p
            for var, rep in self.user.get('subst', []):
                if any(var in m for m in p):
                    r = {}
                    for m, c in p.items():
                        t = {tuple(v for v in m if v != var): c}
                        for _ in range(m.count(var)): t = pmul(t, rep)
                        r = padd(r, t)
                    p = r
            w2 = Word(p, 0, w.hi, w.tag) if not pisconst(p) else p.get((), 0)
            self.assume_zero(w2)
        else: self.assume_zero(w)
    def assume_nonzero(self, w):
        if isinstance(w, int):
            if not w: raise Infeasible()
            return
        if w.tag and w.tag[0] == 'or':
            # at least one word non-zero; words are non-negative
            s = {}
            for t in w.tag[1]: s = padd(s, poly(t))
            self.ctx.fact(s, 1, None)
        else:
            self.ctx.fact(w.p, 1, None)
        self.ctx.memo = {k: v for k, v in self.ctx.memo.items() if k[0] != 'ge0'}

CALLER_SAVED = ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']
RETADDR = 0x7ead0000

class Machine:
    def __init__(self, img):
        self.img = img
        self.hooks = {}        # addr -> fn(machine, state) -> None | list of states   (called at call target)
        self.cuts = {}         # addr -> fn
        self.maxsteps = 2000000
        self.total_steps = 0
        self.deadline = None
        self.on_branch = None
    def start(self, addr, args, stack_top=0x7ffd00000000, stack_size=1 << 16):
        s = State(self.img)
        s.stack_lo = stack_top - stack_size; s.stack_hi = stack_top
        s.r['rsp'] = stack_top - 8
        s.mem[stack_top - 8] = RETADDR
        for nm, v in zip(['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'], args): s.r[nm] = v
        s.pc = addr
        return s
    def run(self, s, maxpaths=4000):
        """explore all paths until the return to RETADDR; returns final states.
        state.user['end'] = 'ret' | 'throw'"""
        done = []; work = [s]
        while work:
            s = work.pop()
            while True:
                if s.pc == RETADDR:
                    s.user['end'] = 'ret'; done.append(s); break
                if s.user.get('end'): done.append(s); break
                try: r = self.step(s)
                except Infeasible: break
                if r is not None:
                    work.extend(r)
                    if len(work) + len(done) > maxpaths: raise Unsupported('too many paths')
                    break
        return done
    def do_call(self, s, target, ret):
        s.r['rsp'] = s.r['rsp'] - 8
        s.write(s.r['rsp'], 8, ret)
        s.pc = target
        return self.enter(s, target)
    def enter(self, s, target):
        h = self.hooks.get(target)
        if h is None: h = self.hooks.get('*') and self.hooks['*'](target)
        if h is not None:
            return h(self, s)
        return None
    def ret(self, s):
        a = s.read(s.r['rsp'], 8)
        s.r['rsp'] += 8
        if not isinstance(a, int): raise Unsupported('symbolic return address')
        s.pc = a
    def branch(self, s, c, taken, fall):
        if isinstance(c, int):
            s.pc = taken if c else fall
            return None
        if self.on_branch:
            r = self.on_branch(self, s, c, taken, fall)
            if r is not None: return r
        out = []
        t = s.fork()
        try:
            t.assume(c, 1); t.pc = taken; t.trail.append((s.pc, 1))
            if t.ctx.feasible(): out.append(t)
        except Infeasible: pass
        f = s
        try:
            pc = s.pc
            f.assume(c, 0); f.pc = fall; f.trail.append((pc, 0))
            if f.ctx.feasible(): out.append(f)
        except Infeasible: pass
        return out
    def step(self, s):
        s.steps += 1; self.total_steps += 1
        if s.steps > self.maxsteps: raise Unsupported('step limit')
        if self.deadline is not None and (self.total_steps & 255) == 0:
            import time
            if time.time() > self.deadline: raise Unsupported('time limit')
        c = self.cuts.get(s.pc)
        if c is not None:
            r = c(self, s)
            if r is not None: return r
        mn, ops, txt, nxt = self.img.decode(s.pc)
        f = getattr(self, 'i_' + mn, None)
        if f is None:
            if mn[0] == 'j': return self.jcc(s, mn[1:], ops, nxt)
            if mn.startswith('cmov'): return self.cmov(s, mn[4:], ops, nxt)
            if mn.startswith('set'): return self.setcc(s, mn[3:], ops, nxt)
            raise Unsupported('instruction "%s" at %x' % (txt, s.pc))
        while True:
            try: r = f(s, ops, nxt); break
            except Restart: pass
        if r is None: s.pc = nxt; return None
        if r is True: return None     # pc already set
        return r
    # ------------------------------------------------------------------ instructions
    def jcc(self, s, cc, ops, nxt):
        return self.branch(s, s.cond(cc), ops[0][1], nxt)
    def fork_cond(self, s, c):
        """decide a zero-type condition: fork re-executing this instruction"""
        _, v, neg = c
        pc = s.pc
        out = []
        t = s.fork()
        try:
            t.assume_zero(v); t.zs = (0, t.zs[1]) if t.zs else (0, 64); t.trail.append((pc, 'z'))
            if t.ctx.feasible(): out.append(t)
        except Infeasible: pass
        f = s.fork()
        try:
            f.assume_nonzero(v); f.zs = (1, f.zs[1]); f.trail.append((pc, 'nz'))
            if f.ctx.feasible(): out.append(f)
        except Infeasible: pass
        return out
    def cmov(self, s, cc, ops, nxt):
        c = s.cond(cc)
        if isinstance(c, tuple): return self.fork_cond(s, c)
        w = ops[0][2]
        v = s.get(ops[1], w)
        s.put(ops[0], w, s.ctx.ite(c, v, s.get(ops[0], w)))
        s.pc = nxt
    def setcc(self, s, cc, ops, nxt):
        c = s.cond(cc)
        if isinstance(c, tuple): return self.fork_cond(s, c)
        s.put(ops[0], 8, c)
        s.pc = nxt
    def i_nop(self, s, o, n): pass
    i_endbr64 = i_nop
    i_xchg_ax = i_nop
    def i_mov(self, s, o, n):
        w = s.width(o)
        s.put(o[0], w, s.get(o[1], w))
    i_movabs = i_mov
    def i_movzx(self, s, o, n):
        w = o[1][2] if o[1][0] == 'r' else o[1][1] * 8
        s.put(o[0], o[0][2], s.get(o[1], w))
    def sext(self, s, v, w, W):
        if isinstance(v, int):
            return v | (((1 << W) - (1 << w)) if v >> (w - 1) else 0)
        if v.hi < (1 << (w - 1)): return v
        b = s.signbit(v, w)
        return s.ctx.word(padd(v.p, pscale(poly(b), (1 << W) - (1 << w))), 0, (1 << W) - 1)
    def i_movsx(self, s, o, n):
        w = o[1][2] if o[1][0] == 'r' else o[1][1] * 8
        s.put(o[0], o[0][2], self.sext(s, s.get(o[1], w), w, o[0][2]))
    i_movsxd = i_movsx
    def i_cdqe(self, s, o, n): s.r['rax'] = self.sext(s, s.getreg('rax', 32, 0), 32, 64)
    def i_cwde(self, s, o, n): s.r['rax'] = self.sext(s, s.getreg('rax', 16, 0), 16, 32)
    def i_cdq(self, s, o, n):
        b = s.signbit(s.getreg('rax', 32, 0), 32)
        s.r['rdx'] = s.ctx.ite(b, 0xffffffff, 0)
    def i_cqo(self, s, o, n):
        b = s.signbit(s.getreg('rax', 64, 0), 64)
        s.r['rdx'] = s.ctx.ite(b, M64, 0)
    def i_lea(self, s, o, n):
        a = s.ea(o[1])
        w = o[0][2]
        if w < 64:
            a = s.low(a, w // 8)
        s.put(o[0], w, a)
    def arith(self, s, o, cin, isub, store=True):
        w = s.width(o)
        a = s.get(o[0], w); b = s.get(o[1], w)
        if isub:
            if o[0] == o[1] and o[0][0] == 'r' and (isinstance(cin, int) and cin == 0): r, c = 0, 0
            else: r, c = s.ctx.sub(a, b, cin, w)
        else: r, c = s.ctx.add(a, b, cin, w)
        s.cf = c; s.zs = (r, w)
        s.src = ('sub' if isub else 'add', a, b, w) if isinstance(cin, int) and cin == 0 else None
        if store: s.put(o[0], w, r)
    def i_add(self, s, o, n): self.arith(s, o, 0, False)
    def i_adc(self, s, o, n): self.arith(s, o, self.getcf(s), False)
    def i_sub(self, s, o, n): self.arith(s, o, 0, True)
    def i_sbb(self, s, o, n): self.arith(s, o, self.getcf(s), True)
    def i_cmp(self, s, o, n): self.arith(s, o, 0, True, False)
    def getcf(self, s):
        if s.cf is None: raise Unsupported('undefined carry at %x' % s.pc)
        return s.cf
    def i_inc(self, s, o, n):
        w = s.width(o); a = s.get(o[0], w)
        r, c = s.ctx.add(a, 1, 0, w); s.zs = (r, w); s.src = ('add', a, 1, w) ; s.put(o[0], w, r)
    def i_dec(self, s, o, n):
        w = s.width(o); a = s.get(o[0], w)
        r, c = s.ctx.sub(a, 1, 0, w); s.zs = (r, w); s.src = None if True else None; s.put(o[0], w, r)
    def i_neg(self, s, o, n):
        w = s.width(o); a = s.get(o[0], w)
        r, c = s.ctx.sub(0, a, 0, w)
        s.cf = c; s.zs = (r, w); s.src = ('sub', 0, a, w); s.put(o[0], w, r)
    def i_not(self, s, o, n):
        w = s.width(o); a = s.get(o[0], w)
        s.put(o[0], w, s.ctx.sub((1 << w) - 1, a, 0, w)[0])
    def setlogic(self, s, r, w):
        s.cf = 0; s.zs = (r, w); s.src = ('logic', r, 0, w)
    def and_(self, s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a & b
        if isinstance(a, int): a, b = b, a
        full = (1 << w) - 1
        if isinstance(b, int):
            if b == 0: return 0
            if b == full: return a
            mk = self.mask_of(s, a, full)
            if mk is not None: return s.ctx.ite(mk, b, 0)
            if b & (b + 1) == 0:
                return s.ctx.div2k(a, b.bit_length())[1]
            # contiguous mask
            k = (b & -b).bit_length() - 1
            q, r = s.ctx.div2k(a, k)
            bb = b >> k
            if bb & (bb + 1) == 0:
                if bb.bit_length() + k < w: q = s.ctx.div2k(q, bb.bit_length())[1]
                if isinstance(q, int): return q << k
                return s.ctx.word(pscale(q.p, 1 << k), q.lo << k, q.hi << k)
            raise Unsupported('and mask at %x' % s.pc)
        if pkey(a.p) == pkey(b.p): return a
        if a.hi == 1 and b.hi == 1:
            return s.ctx.word(pmul(a.p, b.p), 0, 1)
        for x, y in ((a, b), (b, a)):
            m = self.mask_of(s, y, full)
            if m is not None: return s.ctx.ite(m, x, 0)
        raise Unsupported('symbolic and at %x' % s.pc)
    def mask_of(self, s, y, full):
        if isinstance(y, int): return 1 if y == full else 0 if y == 0 else None
        vs = set(v for m in y.p for v in m)
        if len(vs) > 3 or not all(v in BOOLS for v in vs): return None
        e = s.ctx.boolenum(y.p, lambda t: 1 if t == full else 0 if t == 0 else 1 << 70)
        if e is None: return None
        if any(c > 1 << 60 or c < -(1 << 60) for c in e.values()): return None
        return s.ctx.word(e, 0, 1)
    def or_(self, s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a | b
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int) and b == 0: return a
        full = (1 << w) - 1
        if isinstance(b, int) and b == full: return full
        pa, pb = poly(a), poly(b)
        if pkey(pa) == pkey(pb): return a
        if a.hi == 1 and rng(b)[1] == 1:
            return s.ctx.word(psub(padd(pa, pb), pmul(pa, pb)), 0, 1)
        for x, y in ((a, b), (b, a)):
            ly, hy = rng(y)
            ly, hy = -int(-ly // 1), int(hy // 1)
            k = hy.bit_length()
            px = poly(x)
            if all(type(c) is int and c % (1 << k) == 0 for c in px.values()):
                return s.ctx.word(padd(px, poly(y)), max(rng(x)[0], ly), full)
            if k < w and not isinstance(x, int):
                # low k bits of x known zero by an existing split
                t = s.ctx.memo.get(('div2k', k, pkey(px)))
                if t is not None and isinstance(t[1], int) and t[1] == 0:
                    return s.ctx.word(padd(px, poly(y)), max(rng(x)[0], ly), full)
        parts = []
        for x in (a, b):
            if isinstance(x, Word) and x.tag and x.tag[0] == 'or': parts += x.tag[1]
            else: parts.append(x)
        lo = -int(-max(rng(a)[0], rng(b)[0]) // 1)
        w_ = s.ctx.fresh('or', lo, full)
        w_.tag = ('or', parts)
        return w_
    def xor_(self, s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a ^ b
        if isinstance(a, int): a, b = b, a
        full = (1 << w) - 1
        if isinstance(b, int):
            if b == 0: return a
            if b == full: return s.ctx.sub(full, a, 0, w)[0]
        pa, pb = poly(a), poly(b)
        if pkey(pa) == pkey(pb): return 0
        if a.hi == 1 and rng(b)[1] <= 1:
            return s.ctx.word(psub(padd(pa, pb), pscale(pmul(pa, pb), 2)), 0, 1)
        for x, y in ((a, b), (b, a)):
            m = self.mask_of(s, y, full)
            if m is not None:
                nx = s.ctx.sub(full, x, 0, w)[0]
                return s.ctx.ite(m, nx, x)
        if isinstance(b, int) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            q, r = s.ctx.div2k(a, k)
            bit = s.ctx.div2k(q, 1)[1]
            return s.ctx.word(padd(pa, padd(pconst(b), pscale(poly(bit), -2 * b))), 0, full)
        raise Unsupported('symbolic xor at %x' % s.pc)
    def logic(self, s, o, f, store=True):
        w = s.width(o)
        if f is self.xor_ and o[0] == o[1]: r = 0
        else:
            a = s.get(o[0], w); b = s.get(o[1], w)
            r = f(s, a, b, w)
        self.setlogic(s, r, w)
        if store: s.put(o[0], w, r)
    def i_and(self, s, o, n): self.logic(s, o, self.and_)
    def i_or(self, s, o, n): self.logic(s, o, self.or_)
    def i_xor(self, s, o, n): self.logic(s, o, self.xor_)
    def i_test(self, s, o, n): self.logic(s, o, self.and_, False)
    def shcount(self, s, o, w):
        if len(o) == 1: return 1
        c = s.get(o[1], 8)
        if not isinstance(c, int): raise Unsupported('symbolic shift count at %x' % s.pc)
        return c & (63 if w == 64 else 31)
    def i_shr(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o, w)
        if k == 0: return
        a = s.get(o[0], w)
        q0, r0 = s.ctx.div2k(a, k - 1)
        q, r = s.ctx.div2k(a, k)
        if isinstance(a, int): s.cf = (a >> (k - 1)) & 1
        elif k == 1: s.cf = r
        else: s.cf = None
        s.zs = (q, w); s.src = ('logic', q, 0, w); s.put(o[0], w, q)
    def i_sar(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o, w)
        if k == 0: return
        a = s.get(o[0], w)
        if isinstance(a, int):
            t = a - (1 << w) if a >> (w - 1) else a
            r = (t >> k) & ((1 << w) - 1); s.cf = (t >> (k - 1)) & 1
        else:
            b = s.signbit(a, w)
            if k == w - 1: r = s.ctx.ite(b, (1 << w) - 1, 0)
            else:
                q = s.ctx.div2k(a, k)[0]
                r = s.ctx.word(padd(poly(q), pscale(poly(b), (1 << w) - (1 << (w - k)))), 0, (1 << w) - 1)
            s.cf = None
        s.zs = (r, w); s.src = ('logic', r, 0, w); s.put(o[0], w, r)
    def i_shl(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o, w)
        if k == 0: return
        a = s.get(o[0], w)
        if isinstance(a, int):
            r = (a << k) & ((1 << w) - 1); s.cf = (a >> (w - k)) & 1
        else:
            r, q = s.ctx.split(pscale(a.p, 1 << k), a.lo << k, a.hi << k, w)
            s.cf = q if k == 1 else None
        s.zs = (r, w); s.src = ('logic', r, 0, w); s.put(o[0], w, r)
    i_sal = i_shl
    def i_shrd(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o[1:], w)
        if k == 0: return
        a = s.get(o[0], w); b = s.get(o[1], w)
        q, r = s.ctx.div2k(a, k); bq, br = s.ctx.div2k(b, k)
        v = s.ctx.word(padd(poly(q), pscale(poly(br), 1 << (w - k))), 0, (1 << w) - 1)
        s.cf = (r if k == 1 else None) if not isinstance(a, int) else (a >> (k - 1)) & 1
        s.zs = (v, w); s.src = None; s.put(o[0], w, v)
    def i_shld(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o[1:], w)
        if k == 0: return
        a = s.get(o[0], w); b = s.get(o[1], w)
        la, ha = rng(a)
        lo, q = s.ctx.split(pscale(poly(a), 1 << k), la << k, ha << k, w)
        hb = s.ctx.div2k(b, w - k)[0]
        v = s.ctx.word(padd(poly(lo), poly(hb)), 0, (1 << w) - 1)
        s.cf = q if k == 1 else None
        s.zs = (v, w); s.src = None; s.put(o[0], w, v)
    def i_rol(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o, w); a = s.get(o[0], w)
        if not isinstance(a, int): raise Unsupported('rol')
        k %= w
        s.put(o[0], w, ((a << k) | (a >> (w - k))) & ((1 << w) - 1)); s.cf = None
    def i_ror(self, s, o, n):
        w = s.width(o[:1]); k = self.shcount(s, o, w); a = s.get(o[0], w)
        if not isinstance(a, int): raise Unsupported('ror')
        k %= w
        s.put(o[0], w, ((a >> k) | (a << (w - k))) & ((1 << w) - 1)); s.cf = None
    def bitop(self, s, o):
        w = s.width(o[:1]); k = s.get(o[1], w); a = s.get(o[0], w)
        if not isinstance(k, int): raise Unsupported('symbolic bit index at %x' % s.pc)
        if o[0][0] == 'm' and o[1][0] != 'i' and k >= w: raise Unsupported('bt memory')
        k &= w - 1
        if isinstance(a, int): b = (a >> k) & 1
        else:
            q = s.ctx.div2k(a, k)[0]; b = s.ctx.div2k(q, 1)[1]
        s.cf = b; s.zs = None; s.src = None
        return w, k, a, b
    def i_bt(self, s, o, n): self.bitop(s, o)
    def i_bts(self, s, o, n):
        w, k, a, b = self.bitop(s, o)
        s.put(o[0], w, a | 1 << k if isinstance(a, int) else s.ctx.word(padd(a.p, pscale(psub(pconst(1), poly(b)), 1 << k)), 0, (1 << w) - 1))
    def i_btr(self, s, o, n):
        w, k, a, b = self.bitop(s, o)
        s.put(o[0], w, a & ~(1 << k) if isinstance(a, int) else s.ctx.word(psub(a.p, pscale(poly(b), 1 << k)), 0, (1 << w) - 1))
    def i_btc(self, s, o, n):
        w, k, a, b = self.bitop(s, o)
        if not isinstance(a, int): raise Unsupported('btc')
        s.put(o[0], w, a ^ 1 << k)
    def i_mul(self, s, o, n):
        w = s.width(o)
        if w != 64 and w != 32: raise Unsupported('mul width')
        a = s.getreg('rax', w, 0); b = s.get(o[0], w)
        lo, hi = s.ctx.mul(a, b, w)
        s.r['rax'] = lo; s.r['rdx'] = hi
        s.cf = None; s.zs = None; s.src = None
        if isinstance(hi, int): s.cf = 1 if hi else 0
    def i_mulx(self, s, o, n):
        w = o[0][2]
        lo, hi = s.ctx.mul(s.getreg('rdx', w, 0), s.get(o[2], w), w)
        s.put(o[1], w, lo); s.put(o[0], w, hi)
    def i_adcx(self, s, o, n): raise Unsupported('adcx')
    def i_imul(self, s, o, n):
        if len(o) == 1: raise Unsupported('imul 1')
        w = o[0][2]
        a = s.get(o[-2] if len(o) == 3 else o[0], w); b = s.get(o[-1], w)
        if len(o) == 3: a = s.get(o[1], w)
        # low half is sign independent
        if isinstance(b, int) and b >> (w - 1) and not isinstance(a, int):
            r = s.ctx.split(pscale(a.p, b - (1 << w)), (b - (1 << w)) * a.hi, 0, w)[0]
        else: r = s.ctx.mul(a, b, w)[0]
        s.put(o[0], w, r); s.cf = None; s.zs = None; s.src = None
    def i_div(self, s, o, n):
        w = s.width(o)
        a = s.getreg('rax', w, 0); d = s.getreg('rdx', w, 0); b = s.get(o[0], w)
        if all(isinstance(v, int) for v in (a, d, b)):
            N = a | d << w
            if b == 0 or N // b >> w: raise Unsupported('divide error at %x' % s.pc)
            q, r = divmod(N, b)
        else:
            N = padd(pscale(poly(d), 1 << w), poly(a))
            if isinstance(b, int) and b == 0: raise Unsupported('divide error at %x' % s.pc)
            # no #DE: b > d  is an obligation
            if not s.ctx.prove_ge0(psub(psub(poly(b), poly(d)), pconst(1))):
                s.events.append(('divide', s.pc, w)); 
            lb, hb = rng(b); la, ha = rng(a); ld, hd = rng(d)
            q = s.ctx.fresh('q', 0, min((1 << w) - 1, (ha + (hd << w)) // max(lb, 1)))
            qb = pmul(poly(q), poly(b))
            rp = psub(N, qb)
            r = Word(rp, 0, hb - 1)
            s.ctx.fact(rp, 0, None)
            s.ctx.fact(psub(psub(poly(b), rp), pconst(1)), 0, None)
        s.r['rax'] = q; s.r['rdx'] = r
        s.cf = None; s.zs = None; s.src = None
    def i_idiv(self, s, o, n):
        w = s.width(o)
        a = s.getreg('rax', w, 0); d = s.getreg('rdx', w, 0); b = s.get(o[0], w)
        if not all(isinstance(v, int) for v in (a, d, b)): raise Unsupported('idiv at %x' % s.pc)
        N = a | d << w
        if N >> (2 * w - 1): N -= 1 << 2 * w
        if b >> (w - 1): b -= 1 << w
        q = abs(N) // abs(b); q = -q if (N < 0) != (b < 0) else q
        r = N - q * b
        m = (1 << w) - 1
        s.r['rax'] = q & m; s.r['rdx'] = r & m; s.cf = None; s.zs = None
    def i_xchg(self, s, o, n):
        w = s.width(o)
        a = s.get(o[0], w); b = s.get(o[1], w)
        if o[0] == o[1]: return
        s.put(o[0], w, b); s.put(o[1], w, a)
    def i_push(self, s, o, n):
        v = s.get(o[0], 64)
        s.r['rsp'] -= 8; s.write(s.r['rsp'], 8, v)
    def i_pop(self, s, o, n):
        v = s.read(s.r['rsp'], 8); s.r['rsp'] += 8
        s.put(o[0], 64, v)
    def i_leave(self, s, o, n):
        s.r['rsp'] = s.r['rbp']; s.r['rbp'] = s.read(s.r['rsp'], 8); s.r['rsp'] += 8
    def i_ret(self, s, o, n):
        self.ret(s); return True
    def target(self, s, o):
        if o[0] == 'i': return o[1]
        t = s.get(o, 64)
        if not isinstance(t, int): raise Unsupported('symbolic call target at %x' % s.pc)
        return t
    def i_call(self, s, o, n):
        t = self.target(s, o[0])
        r = self.do_call(s, t, n)
        return True if r is None else r
    def i_jmp(self, s, o, n):
        t = self.target(s, o[0])
        s.pc = t
        if self.img.exe and self.img.lo_text <= t < self.img.hi_text and t not in self.img.syms: return True
        if t in self.hooks or (self.hooks.get('*') and self.hooks['*'](t)):
            r = self.enter(s, t)
            return True if r is None else r
        return True
    def i_bswap(self, s, o, n):
        w = o[0][2]; a = s.get(o[0], w)
        if not isinstance(a, int): raise Unsupported('bswap')
        s.put(o[0], w, int.from_bytes(a.to_bytes(w // 8, 'little'), 'big'))
    def i_clc(self, s, o, n): s.cf = 0
    def i_stc(self, s, o, n): s.cf = 1
    def i_cmc(self, s, o, n): s.cf = s.bnot(s.cf)
    def i_bsr(self, s, o, n):
        w = o[0][2]; a = s.get(o[1], w)
        if not isinstance(a, int): raise Unsupported('symbolic bsr at %x' % s.pc)
        s.zs = (a, w); s.cf = None
        if a: s.put(o[0], w, a.bit_length() - 1)
    def i_bsf(self, s, o, n):
        w = o[0][2]; a = s.get(o[1], w)
        if not isinstance(a, int): raise Unsupported('symbolic bsf at %x' % s.pc)
        s.zs = (a, w); s.cf = None
        if a: s.put(o[0], w, (a & -a).bit_length() - 1)
    def i_rep_stos(self, s, o, n):
        w = o[0][1]
        c = s.r['rcx']
        if not isinstance(c, int): raise Unsupported('rep stos')
        v = s.getreg('rax', 8 * w, 0)
        for _ in range(c):
            s.write(s.r['rdi'], w, v); s.r['rdi'] += w
        s.r['rcx'] = 0
    def i_rep_movs(self, s, o, n):
        w = o[0][1]
        c = s.r['rcx']
        if not isinstance(c, int): raise Unsupported('rep movs')
        for _ in range(c):
            s.write(s.r['rdi'], w, s.read(s.r['rsi'], w)); s.r['rdi'] += w; s.r['rsi'] += w
        s.r['rcx'] = 0
    # ---------------------------------------------------------------- sse moves
    def i_movq(self, s, o, n):
        a, b = o
        if a[0] == 'x':
            if b[0] == 'x': s.x[a[1]] = [s.getx(b[1])[0], 0]
            else: s.x[a[1]] = [s.get(b, 64), 0]
        else: s.put(a, 64, s.getx(b[1])[0])
    def i_movd(self, s, o, n):
        a, b = o
        if a[0] == 'x': s.x[a[1]] = [s.get(b, 32), 0]
        else: s.put(a, 32, s.low(s.getx(b[1])[0], 4))
    def i_movdqa(self, s, o, n):
        a, b = o
        v = s.getxm(b)
        if a[0] == 'x': s.x[a[1]] = v
        else:
            ad = s.ea(a); s.write(ad, 8, v[0]); s.write(ad + 8, 8, v[1])
    i_movdqu = i_movups = i_movaps = i_movapd = i_movupd = i_lddqu = i_movdqa
    def i_pxor(self, s, o, n):
        a = s.getxm(o[0]); b = s.getxm(o[1])
        if o[0] == o[1]: s.x[o[0][1]] = [0, 0]; return
        s.x[o[0][1]] = [self.xor_(s, a[0], b[0], 64), self.xor_(s, a[1], b[1], 64)]
    i_xorps = i_xorpd = i_pxor
    def i_paddd(self, s, o, n):
        a = s.getxm(o[0]); b = s.getxm(o[1]); out = []
        for x, y in zip(a, b):
            (xq, xr), (yq, yr) = s.ctx.div2k(x, 32), s.ctx.div2k(y, 32)
            l = s.ctx.add(xr, yr, 0, 32)[0]; h = s.ctx.add(xq, yq, 0, 32)[0]
            out.append(s.ctx.word(padd(poly(l), pscale(poly(h), 1 << 32))))
        s.x[o[0][1]] = out
    def i_punpcklqdq(self, s, o, n):
        a = s.getxm(o[0]); b = s.getxm(o[1]); s.x[o[0][1]] = [a[0], b[0]]
    def i_punpckhqdq(self, s, o, n):
        a = s.getxm(o[0]); b = s.getxm(o[1]); s.x[o[0][1]] = [a[1], b[1]]
    def i_movhps(self, s, o, n):
        if o[0][0] == 'x': s.x[o[0][1]] = [s.getx(o[0][1])[0], s.read(s.ea(o[1]), 8)]
        else: s.write(s.ea(o[0]), 8, s.getx(o[1][1])[1])
    def i_movlps(self, s, o, n):
        if o[0][0] == 'x': s.x[o[0][1]] = [s.read(s.ea(o[1]), 8), s.getx(o[0][1])[1]]
        else: s.write(s.ea(o[0]), 8, s.getx(o[1][1])[0])
