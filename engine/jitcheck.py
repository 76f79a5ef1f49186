"""obligations of one routine against its written contract (field level)"""
import time, itertools
from jit import *
import contracts
from contracts import *
import dom

def dom_reset():
    import dom
    dom.Stats.lost = 0.0

class Ob:
    __slots__ = ('name', 'ok', 'detail', 'kind', 'hints')
    def __init__(self, name, ok, detail='', kind='', hints=()):
        self.name = name; self.ok = ok; self.detail = detail; self.kind = kind; self.hints = hints

def hints(ctx, c, pat, vs, groups):
    """input values suggested by the solver's counterexample"""
    model = getattr(ctx, 'last_model', None)
    if model is None: return []
    mv = {d.name(): model[d] for d in model.decls()}
    def val(v):
        r = mv.get('m%d' % v)
        if r is None: return None
        try: return int(r.as_fraction())
        except Exception:
            try: return r.as_long()
            except Exception: return None
    a = {}; b = {}
    for i, (d, t) in enumerate(c.args):
        if d not in ('i', 'io'): continue
        src = [j for j in range(len(pat)) if pat[j] == pat[i] and c.args[j][0] in ('i', 'io')][0]
        for j in range(NCOMP[t]):
            V = vs['%s%d' % ('zxyabc'[src], j)]
            x = val(V)
            if x is None: continue
            if x >= 0: a[(i, j)] = x
            g = groups.get(V)
            if g:
                t_ = 0
                for k, w in enumerate(g.limbs):
                    if k and isinstance(w, Word):
                        l = val(list(w.p)[0][0])
                        if l is not None: t_ |= (l & M64) << 64 * k
                    elif isinstance(w, int): t_ |= w << 64 * k
                b[(i, j)] = t_ + (x - t_ if 0 <= x - t_ < B64 else 0)
    return [h for h in (a, b) if h]

def alias_patterns(c):
    """lists of argument slots: objects that coincide share a slot number"""
    n = len(c.args)
    types = [a[1] for a in c.args]
    base = list(range(n))
    if c.alias == 'none': 
        pats = [base]
        # inputs may coincide with each other
        if n == 3 and types[1] == types[2]: pats.append([0, 1, 1])
        return pats
    pats = []
    def rec(i, cur):
        if i == n: pats.append(list(cur)); return
        opts = [i] + sorted(set(s for j, s in enumerate(cur) if types[j] == types[i]))
        for o in opts: rec(i + 1, cur + [o])
    rec(0, [])
    return pats

A0 = 0x100000000
def setup(je, c, pat, img_regions):
    p = je.p
    addrs = []
    slot_addr = {}
    for i, (d, t) in enumerate(c.args):
        s = pat[i]
        if s not in slot_addr: slot_addr[s] = A0 + 0x10000 * s
        addrs.append(slot_addr[s])
    groups = []; regions = list(img_regions); done = set()
    modes = {}
    for i, (d, t) in enumerate(c.args):
        a = addrs[i]
        m = modes.setdefault(a, [t, set()])
        if d in ('i', 'io'): m[1].add('r')
        if d in ('o', 'io'): m[1].update('rw')
    for i, (d, t) in enumerate(c.args):
        a = addrs[i]
        if d in ('i', 'io') and a not in done:
            done.add(a)
            nw = NWORD[t]
            for j in range(NCOMP[t]):
                hi = p - 1 if nw == 4 else (p << 256) - 1
                if c.inhi == 'full' or c.pre in ('sum', 'diff', 'subopt'): hi = (1 << 64 * nw) - 1
                elif c.inhi == 'lt2p' and nw == 4: hi = 2 * p - 2
                elif (i, j) in c.ink: hi = c.ink[i, j] * (p - 1)
                elif c.inhi == 'le6p': hi = min(6 * p, (1 << 256) - 1)
                groups.append((a + 8 * nw * j, nw, hi, '%s%d' % ('zxyabc'[i], j)))
    for a, (t, m) in modes.items(): regions.append((a, a + tsize(t), ''.join(sorted(m))))
    return addrs, groups, regions

def resolved(f, v):
    """the input value v under the path's assumptions"""
    p = pvar(v)
    for var, rep in f.user.get('subst', []):
        if any(var in m for m in p):
            r = {}
            for m, c in p.items():
                t = {tuple(x for x in m if x != var): c}
                for _ in range(m.count(var)): t = pmul(t, rep)
                r = padd(r, t)
            p = r
    if not all(u in f.fval for m in p for u in m): return pvar(v)
    return p

def mkring(je, xi):
    F = je.F
    R = Ring2(F, xi); R.half = pow(2, -1, je.p); R.R = F.R; R.Rinv = F.Rinv; R.pNh = [F.const(je.pN // 2)] * 2
    return R

def settle_diff(F, d, rels):
    if not d: return True
    if not rels: return False
    return F.inspan(d, rels) or not F.reduce(d, rels)

def inputs(je, f, c, pat, vs):
    """the represented input values (over F_p) and the raw integer values"""
    F = je.F; ins = []; iins = []
    for i, (d, t) in enumerate(c.args):
        if d not in ('i', 'io'): continue
        nw = NWORD[t]
        src = [j for j in range(len(pat)) if pat[j] == pat[i] and c.args[j][0] in ('i', 'io')][0]
        V = [vs['%s%d' % ('zxyabc'[src], j)] for j in range(NCOMP[t])]
        sc = F.Rinv if nw == 4 else F.Rinv * F.Rinv % je.p
        iv = [resolved(f, v) for v in V]
        ins.append([F.scale(je.fmod(f, q), sc) for q in iv])
        iins.append(iv)
    return ins, iins

def relations(je, f):
    """polynomials known to vanish modulo p on this path"""
    F = je.F; out = []
    sub = f.user.get('subst', [])
    for i, (var, rep) in enumerate(sub):
        if var not in f.fval: continue
        for v2, r2 in sub[i + 1:]:
            if any(v2 in m for m in rep):
                t = {}
                for m, c in rep.items():
                    q = {tuple(x for x in m if x != v2): c}
                    for _ in range(m.count(v2)): q = pmul(q, r2)
                    t = padd(t, q)
                rep = t
        if all(v in f.fval for m in rep for v in m):
            out.append(F.sub(f.fval[var], je.fmod(f, rep)))
    return out

CLASSES = {'Fp': 'mie::Fp', 'FpDbl': 'mie::Fp::Dbl', 'Fp2': 'bn::Fp2T<mie::Fp>', 'Fp2Dbl': 'bn::Fp2T<mie::Fp>::Dbl',
    'Fp6': 'bn::Fp6T<bn::Fp2T<mie::Fp> >', 'Fp6Dbl': 'bn::Fp6T<bn::Fp2T<mie::Fp> >::Dbl',
    'Fp12': 'bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp> > >', 'Fp12Dbl': 'bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp> > >::Dbl'}
def bind(je, table):
    """addresses whose calls may be replaced by a contract: the function pointers' targets and the
    out-of-line copies of the functions named by the contracts"""
    je.bound = {}
    rank = {n: i for i, n in enumerate(table)}
    by = {}
    for n, c in table.items():
        if c.kind not in ('can', 'inv', 'eff') or c.inhi: continue
        if not c.cxx:
            a = je.img.entries.get(c.entry, 0)
            if a: je.bound.setdefault(a, (rank[n], c))
            continue
        cl, _, fn = n[2:].rpartition('::')
        if cl in CLASSES:
            if fn == 'operator-u': fn = 'operator-'
            by.setdefault(CLASSES[cl] + '::' + fn, []).append(c)
    for a, names in je.img.syms.items():
        for d in names:
            if '[clone' in d or '(' not in d: continue
            h, _, ps = d.partition('(')
            for c in by.get(h, ()):
                ps2 = ps.rpartition(')')[0]
                n = len(split_args(ps2))
                member = n == len(c.args) - 1 or (n == 0 and len(c.args) == 1)
                if n == len(c.args) or (member and c.member):
                    r = rank[c.name]
                    if a not in je.bound: je.bound[a] = (r, c)
def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out
def enable(je, c, table):
    """a C++ function may rely on generated code's contracts and on contracts listed before its own"""
    je.use_contracts = c.cxx
    if not hasattr(je, 'bound'): bind(je, table)
    rk = list(table).index(c.name)
    je.contracts = {a: k for a, (r, k) in je.bound.items() if (not k.cxx or r < rk) and k.name != c.name}

def verify(je, c, addr, pat, xi, img_regions, want=('value', 'frame')):
    """all obligations of contract c for the routine at addr with aliasing pattern pat"""
    obs = []
    p = je.p; F = je.F
    tag = c.name + '/' + ''.join(map(str, pat))
    addrs, groups, regions = setup(je, c, pat, img_regions)
    def pre(s, vs):
        if c.pre is None: return
        ins = [i for i, (d, t) in enumerate(c.args) if d in ('i', 'io')]
        t = c.args[ins[0]][1]; nw = NWORD[t]
        for j in range(NCOMP[t]):
            g = [s.user['groups'][addrs[i] + 8 * nw * j] for i in ins]
            x, y = g[0].E, g[1].E
            if c.pre == 'sum': s.ctx.fact(padd(x, y), 0, (1 << 64 * nw) - 1)
            elif c.pre == 'subopt': s.ctx.fact(padd(psub(x, y), pconst(je.pN // 2)), 0, (1 << 64 * nw) - 1)
            else: s.ctx.fact(psub(x, y), 0, (1 << 64 * nw) - 1)
    enable(je, c, TABLE)
    je.ring2 = mkring(je, xi)
    pre0 = pre
    ing = {}
    def pre(s, vs):
        for g in s.user['groups'].values(): ing[g.V] = g
        pre0(s, vs)
        if c.kind == 'inv':
            x = inputs(je, s, c, pat, vs)[0][0]
            s.user['nonzero'] = [x, norm_down(je.ring2, x)] if len(x) > 1 else [x]
    try:
        fin, vs = je.run_entry(addr, addrs, groups, regions, nvals=True, pre=pre, noent=True)
    except Unsupported as e:
        return [Ob(tag + ': execution', False, 'verifier limit: %s' % e, 'limit')]
    except RecursionError:
        return [Ob(tag + ': execution', False, 'verifier limit: recursion', 'limit')]
    except Infeasible:
        return [Ob(tag + ': execution', False, 'infeasible', 'limit')]
    if not fin: return [Ob(tag + ': returns', False, 'no path returns', 'frame')]
    R = je.ring2
    IR = Ring2(IntRing(), xi); IR.half = None; IR.pNh = [pconst(je.pN // 2)] * 2
    def fail_hints(f, n0):
        if any(not o.ok for o in obs[n0:]):
            h = hints(f.ctx, c, pat, vs, ing)
            for o in obs[n0:]:
                if not o.ok: o.hints = h
    for k, f in enumerate(fin):
        n0 = len(obs)
        pt = tag + ('/path%d' % k if len(fin) > 1 else '')
        if 'frame' in want:
            bad = [r for r in f.user['saved'] if f.r[r] is not f.user['saved'][r]]
            obs.append(Ob(pt + ': callee-saved registers and stack pointer restored', not bad and f.r['rsp'] == f.stack_hi, 'clobbered %s' % bad if bad else '', 'frame'))
            ev = f.events
            obs.append(Ob(pt + ': reads and writes stay inside the declared objects and its own frame', not ev, ' '.join('%s' % (e,) for e in ev[:4]), 'frame'))
        if 'value' not in want: continue
        ins, iins = inputs(je, f, c, pat, vs)
        if c.kind != 'inv': exp = c.fn(R, *ins)
        rels = relations(je, f) + f.user.get('rels', []) + (c.rels(R, *ins) if c.rels else [])
        got = []
        iexp = c.fn(IR, *iins) if c.kind in ('exact', 'modN') else None
        d0, t0 = c.args[0]; nw = NWORD[t0]
        invs = set(vs.values())
        slots = [(i, j, NWORD[c.args[i][1]]) for i in c.outs for j in range(NCOMP[c.args[i][1]])]
        for ix, (ai, aj, nw) in enumerate(slots):
            a = addrs[ai] + 8 * nw * aj; j = ix
            nm = '%s: %s[%d]' % (pt, 'out' if ai == c.outs[0] else 'arg%d' % ai, aj)
            g = je.settle(f, a, nw, True)
            if g is None:
                obs.append(Ob(nm + ' value', False, 'result is not a value of the field the verifier can recognise', 'value')); continue
            if c.kind == 'exact':
                ok = g.E == iexp[j] if all(v in invs for m in g.E for v in m) else False
                if not ok:
                    d = psub(g.E, iexp[j])
                    ok = f.ctx.prove_ge0(d) and f.ctx.prove_ge0(pscale(d, -1))
                obs.append(Ob(nm + ' equals the exact integer', ok, '' if ok else 'differs from the specified integer', 'value'))
                continue
            fm = je.fmod(f, g.E)
            if c.kind == 'inv':
                got.append(F.scale(fm, F.Rinv))
                ok = g.hi <= p - 1 or f.ctx.prove_ge0(psub(pconst(p - 1), g.E), integral=True)
                obs.append(Ob(nm + ' range', ok, '', 'range'))
                continue
            want_v = F.scale(exp[j], F.R if nw == 4 else F.R * F.R % p)
            ok = fm == want_v
            if not ok: ok = settle_diff(F, F.sub(fm, want_v), rels)
            obs.append(Ob(nm + ' value modulo p', ok, '' if ok else 'difference has %d terms' % len(F.sub(fm, want_v)), 'value'))
            if c.kind == 'modN':
                e = je.nform(f, g.E, invs)
                if e is None: e = g.E
                dlt = psub(e, iexp[j])
                ok2 = all(type(k_) is int and k_ % je.pN == 0 for k_ in dlt.values())
                if not c.name.endswith('mul_xi'):
                    obs.append(Ob(nm + ' congruent modulo p*2^256', ok2, '', 'value'))
            lim = p - 1 if nw == 4 else (p << 256) - 1
            if c.outhi: lim = None
            if (ai, aj) in c.outk: lim = c.outk[ai, aj] * (p - 1)
            if lim is not None:
                ok = g.hi <= lim or f.ctx.prove_ge0(psub(pconst(lim), g.E), integral=True)
                obs.append(Ob(nm + ' range', ok, '' if ok else 'range only shown to be <= %#x' % g.hi, 'range'))
            else:
                obs.append(Ob(nm + ' fits', True, 'hi/pN=%.4g' % (g.hi / je.pN), 'range'))
        fail_hints(f, n0)
        if c.kind == 'inv' and len(got) == NCOMP[t0]:
            prod = R.sub(R.mul(ins[0], got), R.one(len(got)))
            for j, d in enumerate(prod):
                obs.append(Ob('%s: (x * out)[%d] = %d' % (pt, j, j == 0), settle_diff(F, d, rels), '', 'value'))
    return obs

# ---------------------------------------------------------------- the loop of Compress::square_n
def backward_jump(img, addr):
    """the target of the only backward jump of the routine (read linearly up to its return)"""
    pc = addr; heads = set(); far = addr
    for _ in range(20000):
        mn, ops, txt, nxt = img.decode(pc)
        if mn[0] == 'j' and ops and ops[0][0] == 'i':
            t = ops[0][1]
            if addr <= t <= pc: heads.add(t)
            elif t > pc and t - pc < 0x10000: far = max(far, t)
        if mn in ('ret', 'retq', 'repz') and pc >= far: break
        pc = nxt
    return heads

def verify_square_n(je, xi, img_regions):
    """loop invariant of Compress::square_n: at the head of the loop the object holds (g4, g3, g2, g5) as canonical values and
    the frame cells that live across an iteration keep their values; one pass from an arbitrary such state performs one
    compressed squaring.  Cells that differ between arrivals are given arbitrary values first."""
    p = je.p; F = je.F; obs = []; tag = 'Compress::square_n'
    heads = backward_jump(je.img, je.img.entries['Compress::square_n'])
    if len(heads) != 1: return [Ob(tag + ': loop', False, 'expected one loop, found %d' % len(heads), 'limit')]
    H, = heads
    c = contracts.TABLE['c:Compress::square1']
    Z = A0; gs = [(Z + 32 * j, 4, p - 1, 'x%d' % j) for j in range(12)]
    regions = list(img_regions) + [(Z, Z + 384, 'rw')]
    enable(je, c, TABLE)
    R = je.ring2 = mkring(je, xi)
    places = [2 * i + k for i in (1, 2, 3, 5) for k in (0, 1)]
    def ob(n, ok, d='', k='value'): obs.append(Ob('%s: %s' % (tag, n), bool(ok), '' if ok else d, k))
    def values(s, when):
        """the components as polynomials; checks that they are canonical"""
        out = {}
        for j in places:
            g = je.settle(s, Z + 32 * j, 4, True)
            if g is None: ob('%s: component %d is a field value' % (when, j), False, 'not recognised'); return None
            ob('%s: component %d is canonical' % (when, j), g.hi <= p - 1 or s.ctx.prove_ge0(psub(pconst(p - 1), g.E), integral=True), 'range up to %#x' % g.hi, 'range')
            out[j] = F.scale(je.fmod(s, g.E), F.Rinv)
        return out
    def compare(s, when):
        v = values(s, when)
        if v is None: return False
        old = s.user['cur']
        exp = comp_sqr(R, [F.scale(F.var(old[j]), F.Rinv) if j in old else {} for j in range(12)])
        for j in places: ob('%s: component %d is that of one compressed squaring' % (when, j), v[j] == exp[j], 'differs')
        return True
    def cells(s):
        d = {('r', k): v for k, v in s.r.items()}
        for k, v in s.x.items():
            for i, w in enumerate(v): d['x', k, i] = w
        for a in s.mem:
            if s.r['rsp'] <= a <= s.stack_hi: d['m', a] = s.mem[a]
        return d
    def put(s, k, v):
        if k[0] == 'r': s.r[k[1]] = v
        elif k[0] == 'x': s.x[k[1]][k[2]] = v
        else:
            s.mem[k[1]] = v
    def upto(s, p):
        """a polynomial after the substitutions of this path"""
        for var, rep in s.user.get('subst', []):
            if any(var in m for m in p):
                r = {}
                for m, c in p.items():
                    t = {tuple(v for v in m if v != var): c}
                    for _ in range(m.count(var)): t = pmul(t, rep)
                    r = padd(r, t)
                p = r
        return p
    def proves(s, p): return s.ctx.prove_ge0(upto(s, p), integral=True)
    def cut(m, s):
        if s.user.get('pend'): je.flush(s)
        n = s.user['arr'] = s.user.get('arr', 0) + 1
        now = cells(s)
        if n == 1: s.user['c1'] = now; return None
        if n == 2:
            if not compare(s, 'iteration'): s.user['end'] = 'lost'; return [s]
            old = s.user['c1']; keep = {}; cnt = {}
            I = newvar('done', 1, (1 << 31) - 3)
            ob('the loop is repeated only while squarings remain', proves(s, psub(N, pconst(2))), '', 'count')
            s.ctx.fact(psub(psub(N, pvar(I)), pconst(1)), 0, None)
            for k in set(old) | set(now):
                a, b = old.get(k), now.get(k)
                if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): keep[k] = b; continue
                if b is None: continue
                d = psub(poly(b), poly(a)) if isinstance(a, (int, Word)) and isinstance(b, (int, Word)) else None
                if d in (pconst(1), pconst(-1)) and all(len(m) <= 1 for m in poly(a)):
                    # after I iterations the cell holds a + d * I, with 1 <= I < n
                    l, h = (1, (1 << 31) + 7)
                    w = Word(padd(poly(a), pscale(pvar(I), d[()])), l, h)
                    if proves(s, psub(w.p, pconst(1))): cnt[k] = (w, d[()]); put(s, k, w); s.user['I'] = I; continue
                put(s, k, s.ctx.fresh('any'))
            ob('loop keeps the stack pointer', ('r', 'rsp') in keep, 'rsp changes', 'frame')
            ob('the loop has a counter', 1 <= len(cnt) <= 4, '%d counters' % len(cnt), 'count')
            s.cf = s.ctx.fresh('anycf') if False else None; s.zs = None; s.src = None
            gr = s.user['groups']
            for a in list(gr):
                if je.find_group(s, a, gr[a].n) is None: del gr[a]
            cur = {}
            for j in places:
                g = je.new_group(s, Z + 32 * j, 4, p - 1, 'y%d' % j); cur[j] = g.V
            s.user['cur'] = cur; s.user['keep'] = keep; s.user['cnt'] = cnt
            s.user['invs'] = {}; s.user['rels'] = []; s.user['nval'] = {}
            return None
        compare(s, 'iteration from an arbitrary state')
        bad = [k for k, v in s.user['keep'].items() if not (now.get(k) is v or (isinstance(v, int) and isinstance(now.get(k), int) and now[k] == v))]
        ob('iteration preserves the cells that live across it', not bad, 'changes %s' % bad[:4], 'frame')
        for k, (w, dl) in s.user['cnt'].items():
            v = now.get(k); ok = v is not None and upto(s, psub(poly(v), padd(poly(w), pconst(dl)))) == {}
            ob('the counter advances by one', ok, '', 'count')
        if 'I' in s.user: ob('the loop is repeated only while squarings remain (after any number of them)', proves(s, psub(psub(N, pvar(s.user['I'])), pconst(2))), '', 'count')
        s.user['end'] = 'again'
        return [s]
    def pre(s, vs):
        s.user['cur'] = {j: vs['x%d' % j] for j in places}
    je.m.cuts = {H: cut}
    nw = newvar('n', 1, (1 << 31) - 1); N = pvar(nw)
    try: fin, vs = je.run_entry(je.img.entries['c:Compress::squareN'], [Z, Word(N, 1, (1 << 31) - 1)], gs, regions, nvals=True, pre=pre, noent=True)
    except Unsupported as e: return obs + [Ob(tag + ': execution', False, 'verifier limit: %s' % e, 'limit')]
    except (RecursionError, Infeasible) as e: return obs + [Ob(tag + ': execution', False, 'verifier limit', 'limit')]
    finally: je.m.cuts = {}
    ends = [f.user.get('end') for f in fin]
    ob('the loop is entered, repeated and left', 'again' in ends and 'ret' in ends, '%s' % ends, 'frame')
    for f in fin:
        ob('reads and writes stay inside the object and the frame', not f.events, ' '.join('%s' % (e,) for e in f.events[:4]), 'frame')
        if f.user.get('end') != 'ret': continue
        compare(f, 'last iteration')
        done = pvar(f.user['I']) if 'I' in f.user else {}
        ob('the loop is left only after n squarings', proves(f, psub(padd(done, pconst(1)), N)), '', 'count')
        bad = [r for r in f.user['saved'] if f.r[r] is not f.user['saved'][r]]
        ob('callee-saved registers and stack pointer restored', not bad and f.r['rsp'] == f.stack_hi, 'clobbered %s' % bad, 'frame')
    return obs
