"""what each property's check consists of"""
import traceback, os, time
import build, contracts, concrete
from build import CURVES, variants
from contracts import TABLE
from x86 import Image
from jit import JitEngine
import jitcheck

JOBS = {}
def job(f): JOBS[f.__name__] = f; return f

TRUST = ['the x86-64 instruction semantics of engine/x86.py',
         'polynomial arithmetic and the translation to linear arithmetic in engine/dom.py, engine/fpoly.py',
         'z3 for linear real/integer arithmetic', 'objdump for instruction decoding',
         'the C++ compiler used for the checks (g++ -O1) compiles the sources as the shipped build does']
ASSUME = ['arguments are distinct, non-overlapping objects except where an alias pattern says they are the same object',
          'the process image (generated code, tables, parameters) is not modified after Param::init',
          'represented values: a stored field element X stands for X/2^256 mod p']

EC_ASSUME = ['the coordinates of an input point are canonical field values (Z = 0 for infinity, X and Y then arbitrary)',
             'inputs of the group operations lie on the curve; the curve groups have no point of order 2 (lemma: -b and -b\' are not cubes)',
             'scalars of class mpz_class are decided for up to 9 limbs (576 bits); Vuint up to its capacity of 9 words']

PAIR_ASSUME = ['mathematics outside the contracts: existence and Galois invariance of the functions of a divisor (f_{P}, Miller), '
               'that the second group is the p-eigenspace of the Frobenius map on the r-torsion, and Vercauteren\'s theorem that the optimal '
               'ate function gives a bilinear pairing, non-degenerate under the condition checked as a lemma',
               'P and Q are in the groups of order r (P on the curve, Q in the r-torsion of the twist)']
DEP2 = [('fp254', 0, 0), ('fp254', 1, 1), ('snark1', 1, 0), ('snark2', 0, 0)]

def images(G, vs):
    exes = G['exes'] = build.dumps()
    G['img'] = {}
    for v in vs:
        exe = exes['dump_snark' if CURVES[v[0]]['snark'] else 'dump_default']
        b, txt = build.snapshot(exe, flat(v), '_'.join(map(str, v)))
        G['img'][v] = Image(b, txt, exe)
def flat(v):
    """a configuration (the last initialisation, then the ones before it) as the initialisations in their order"""
    return list(v[3:]) + list(v[:3])

def engine(G, v):
    je = G['eng'].get(v)
    if je is None:
        G['eng'].clear()
        img = G['img'][v]
        je = G['eng'][v] = JitEngine(img, CURVES[v[0]]['p'])
        je.m.deadline = G['deadline']
        je.regs = [(q[0], q[0] + q[1], 'r') for q in img.mem0.maps]
    return je

@job
def contract(G, v, names, want):
    je = engine(G, v)
    obs = []; fns = []
    xi = CURVES[v[0]]['xi']
    for n in names:
        c = TABLE[n]
        a = je.img.entries.get(c.entry, 0)
        if a == 0: continue
        fns.append(n)
        for pat in jitcheck.alias_patterns(c):
            jitcheck.dom_reset()
            try: res = jitcheck.verify(je, c, a, pat, xi, je.regs, want)
            except Exception: res = [jitcheck.Ob('%s/%s: execution' % (n, ''.join(map(str, pat))), False, 'verifier limit: ' + traceback.format_exc()[-500:], 'limit')]
            for o in res:
                d = dict(name='%s[%s mode%d mulx%d%s]' % (o.name, v[0], v[1], v[2], ' after ' + ' '.join(map(str, v[3:])) if len(v) > 3 else ''), ok=o.ok, detail=o.detail, kind=o.kind)
                if not o.ok:
                    d['search'] = ((n, tuple(pat)), v); d['hints'] = list(o.hints)
                obs.append(d)
    return obs, {'functions': fns}

@job
def frames(G, v):
    import flow
    obs = []; fns = set()
    for n, what, ok, det, k in flow.verify(G['img'][v]):
        fns.add(n.split()[0])
        d = dict(name='%s: %s [%s mode%d mulx%d]' % (n, what, v[0], v[1], v[2]), ok=ok, detail=det, kind='frame')
        if not ok: d['search'] = (('frame', n.split()[0]), v)
        obs.append(d)
    return obs, {'functions': fns}

@job
def lemma(G, which, curve):
    import lemmas
    return [dict(name='lemma %s: %s [%s]' % (which, n, curve), ok=ok, detail='' if ok else 'identity does not hold', kind='lemma') for n, ok in getattr(lemmas, which)(CURVES[curve])], {}

# private tables: a wrong entry is reported as the failed obligation; the constants of Param are observable in themselves
PUBLIC = 'p is,r is,t is,z is,the loop,b is,b_invxi,half =,i0,i1,gammar,W2p,W3p,Z ='.split(',')
@job
def initstate(G, v):
    """postcondition of Param::init, evaluated on the image of one configuration"""
    import initprops
    obs = initprops.state(G['img'][v], CURVES[v[0]], '%s mode%d mulx%d' % v[:3])
    for o in obs:
        if not o['ok'] and any(o['name'].startswith('init: ' + q) for q in PUBLIC):
            o['replay'] = dict(kind='init', cmd='Param::init', variant=list(v), name=o['name'], what='after Param::init(%s %d %d): %s %s' % (tuple(v[:3]) + (o['name'], o['detail'])))
        elif not o['ok']:
            for k, n in (('invTbl', 'f:Fp::inv'), ('halfTbl', 'c:Fp::divBy2'), ('quarterTbl', 'c:Fp::divBy4'), ('pNTbl', 'FpDbl::add'), ('pp =', 'Fp::mul')):
                if k in o['name'] and v[1] >= 0 and n in TABLE: o['search'] = ((n, tuple(range(len(TABLE[n].args)))), v); o['hints'] = []
    return obs, {'functions': {'ParamT::init', 'Fp::setModulo', 'Fp::setTablesForDiv', 'getGoodRepl'}}

def histories(snark):
    cs = variants(curves=('snark1', 'snark2')) if snark else variants(curves=('fp254',))
    hs = [(c,) for c in cs] + [(a, c) for a in cs for c in cs] + [(a, c, d) for a in cs for c in cs for d in cs]
    return hs
def reachable(r):
    """bytes of the instructions reachable from the entry points: [(lo, hi)], or None when control flow is not direct"""
    from x86 import Mem0
    img = Image.__new__(Image); img.insn = {}; maps = []; data = b''
    for a, d in r[2]: maps.append((a, len(d), 'rwx', len(data), 'anon')); data += d
    img.mem0 = Mem0(maps, data)
    seen = set(); todo = [int(e.split('=')[1], 16) for e in r[0].split(',') if e]; out = []
    todo = [a for a in todo if img.mem0.find(a)]        # the others are compiled functions
    while todo:
        a = todo.pop()
        while a and a not in seen:
            if img.mem0.find(a) is None: return None
            seen.add(a); mn, ops, t, nx = img.decode(a)
            out.append((a, nx if nx else a + 1))
            if mn == 'ret': break
            if mn[0] == 'j' or mn == 'call':
                if ops[0][0] != 'i': return None
                todo.append(ops[0][1])
                if mn == 'jmp': break
            a = nx
    out.sort(); res = []
    for lo, hi in out:
        if res and lo <= res[-1][1]: res[-1][1] = max(hi, res[-1][1])
        else: res.append([lo, hi])
    return res
def cut(r, lo, hi):
    for a, d in r[2]:
        if a <= lo and hi <= a + len(d): return d[lo - a:hi - a]
    return None
def same_code(f, r):
    """same entry points, and the same code reachable from them, as in a fresh process"""
    return f is not None and f[0] == r[0] and f[3] is not None and all(cut(f, lo, hi) == cut(r, lo, hi) for lo, hi in f[3])
def run_histories(hs, exe, symaddr, tag):
    """[(entry digest, objects, code digest) or None] after each history"""
    import initprops, subprocess
    w = build.workdir()
    with open(os.path.join(w, tag + '.ranges'), 'w') as f:
        for nm, k in initprops.OBJ:
            if nm in symaddr: f.write('%d %s\n' % (symaddr[nm], k))
    with open(os.path.join(w, tag + '.hist'), 'w') as f:
        for h in hs: f.write(' '.join('%s %d %d' % c for c in h) + '\n')
    r = subprocess.run([exe, os.path.join(w, tag + '.ranges'), os.path.join(w, tag + '.hist')], capture_output=True, text=True, timeout=400)
    out = [None] * len(hs)
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) > 3 and f[1] == 'E': out[int(f[0])] = [f[2], initprops.Sparse(symaddr, f[3:-2]), [(int(q.split(':')[0], 16), bytes.fromhex(q.split(':')[1])) for q in f[-2:]], None]
    for h, r in zip(hs, out):
        if len(h) == 1 and r: r[3] = reachable(r)
    return out
@job
def history(G, tag, lo, hi):
    """postcondition of Param::init after a history of initialisations: the constants of the last one, the code of the last one"""
    import initprops
    hs, res = G['hist'][tag]; obs = []; fresh = {h[0]: r for h, r in zip(hs, res) if len(h) == 1}
    for h, r in list(zip(hs, res))[lo:hi]:
        t = ' then '.join('%s mode%d mulx%d' % c for c in h); v = h[-1]
        rep = dict(kind='history', cmd='Param::init', history=[list(c) for c in h], what='history of initialisations: ' + t)
        if r is None:
            obs.append(dict(name='re-init: %s terminates normally' % t, ok=False, detail='the process ended', kind='constant', replay=rep)); continue
        st = initprops.state(r[1], CURVES[v[0]], t)
        for o in st:
            o['name'] = 're-' + o['name']
            if not o['ok'] and any(o['name'].startswith('re-init: ' + q) for q in PUBLIC): o['replay'] = dict(rep, name=o['name'])
        obs += st
        if len(h) > 1 and any(same_code(fresh[c], r) for c in fresh if c[0] == v[0]):
            obs.append(dict(name='re-init: entry points and generated code are those of a fresh process with this curve [%s]' % t, ok=True, detail='', kind='constant'))
    return obs, {'functions': {'ParamT::init', 'Fp::setModulo', 'PairingCode::init', 'zmInit'}}

def hl_images(G, vs):
    exes = build.hl_dumps()
    G['hl'] = {}
    for v in vs:
        exe = exes['dump_hlsnark' if CURVES[v[0]]['snark'] else 'dump_hldefault']
        b, txt = build.snapshot(exe, v, 'hl_%s_%d_%d' % v)
        G['hl'][v] = Image(b, txt, exe)

@job
def hl(G, v, lst, k, n):
    """scenarios k, k+n, ... of a list of the curve / pairing layer"""
    import ecprops, pairprops, cycprops, invprops
    obs = []; fns = set(); home = [m for m in (ecprops, pairprops, cycprops, invprops) if hasattr(m, lst)][0]
    for i, (f, a) in enumerate(getattr(home, lst)()):
        if i % n != k: continue
        for o in f(G['hl'][v], CURVES[v[0]], *a):
            fns.add(o['name'].split('(')[0].split(' ')[0]); fns.update(o['used'])
            d = dict(name='%s [%s mode%d mulx%d]' % (o['name'], v[0], v[1], v[2]), ok=o['ok'], detail=o['detail'], kind=o['kind'])
            if not o['ok']: d['search'] = (('hl', f.__name__, a), v)
            obs.append(d)
    return obs, {'functions': fns}
@job
def square_n(G, v):
    """the loop of compressed squarings"""
    je = engine(G, v); obs = []
    for o in jitcheck.verify_square_n(je, CURVES[v[0]]['xi'], je.regs):
        d = dict(name='%s [%s mode%d mulx%d]' % (o.name, v[0], v[1], v[2]), ok=o.ok, detail=o.detail, kind=o.kind)
        if not o.ok: d['search'] = (('hl', 'squaren', ()), v)
        obs.append(d)
    return obs, {'functions': {'Compress::square_n'}}
@job
def preinv(G, v):
    """the loop of the almost inverse"""
    import invprops
    je = engine(G, v); obs = []
    for o in invprops.verify(je, je.regs):
        d = dict(name='%s [%s mode%d mulx%d]' % ((o.name,) + v), ok=o.ok, detail=o.detail, kind=o.kind)
        if not o.ok: d['search'] = (('hl', 'inv_body', (0,)), v)
        obs.append(d)
    G['eng'].clear()
    return obs, {'functions': {'Fp::preInv'}}
def inv_jobs(vs, hv=()):
    return [('preinv', v) for v in vs] + contract_jobs('C11', vs, []) + hl_jobs('inv_list', hv, 1) + [('lemma', 'inv_lemmas', c) for c in CURVES]
def hl_replay(G, v):
    if 'hlexe' not in G:
        G['hlexe'] = build.compile_many([('replay_hld', 'replay.cpp', ['-O1', '-DHL']), ('replay_hls', 'replay.cpp', ['-O1', '-DHL', '-DBN_SUPPORT_SNARK'])])
    return G['hlexe']['replay_hls' if CURVES[v[0]]['snark'] else 'replay_hld']
@job
def hlconst(G, v):
    """the curve constants the routines read are those of the selected curve"""
    import ecprops
    return ecprops.constants(G['hl'][v], CURVES[v[0]], '%s mode%d mulx%d' % v), {}
def hl_jobs(lst, vs, n): return [('hl', v, lst, k, n) for k in range(n) for v in vs]

def find_hl(G, what, v, seed, budget):
    import hlconc
    if what[1] not in hlconc.TESTS: return None
    cv = CURVES[v[0]]
    r, k = hlconc.search(hl_replay(G, v), v, what[1], what[2], cv, seed, budget)
    if r is None: return None
    return dict(kind='hl', scenario=what[1], args=what[2], variant=list(v), line=r[0], what='%s: %s' % (v, r[1]), calls=k)

def find_input(G, key, hints, seed, budget):
    what, v = key
    if what[0] == 'hl': return find_hl(G, what, v, seed, budget)
    if what[0] == 'frame':
        if what[1] not in TABLE: return None
        what = (what[1], tuple(range(len(TABLE[what[1]].args))))
    n, pat = what
    if 'rexe' not in G:
        G['rexe'] = build.compile_many([('replay_default', 'replay.cpp', ['-O1']), ('replay_snark', 'replay.cpp', ['-O1', '-DBN_SUPPORT_SNARK'])])
    cv = CURVES[v[0]]
    exe = G['rexe']['replay_snark' if cv['snark'] else 'replay_default']
    r, k = concrete.search(exe, flat(v), n, [list(pat)], cv['p'], cv['xi'], seed, budget, hints)
    if r is None: return None
    return dict(kind='contract', contract=n, variant=list(v), pattern=list(pat), line=r[0], what='%s %s: %s' % (n, v, r[1]), calls=k)

def replay_init(rec):
    import initprops
    hs = [tuple(tuple(c) for c in rec['history'])] if rec['kind'] == 'history' else [(tuple(rec['variant'][:3]),)]
    v = hs[0][-1]; snark = CURVES[v[0]]['snark']
    exes = build.compile_many([('dump_x', 'dump.cpp', build.OPT1 + (['-DBN_SUPPORT_SNARK'] if snark else []))])
    b, txt = build.snapshot(exes['dump_x'], [x for c in hs[0] for x in c], 'x')
    bad = [o for o in initprops.state(Image(b, txt, exes['dump_x']), CURVES[v[0]], ' then '.join(map(str, hs[0]))) if not o['ok']]
    for o in bad: print(o['name'], o['detail'])
    return 1 if bad else 0
def replay(rec):
    if rec.get('kind') in ('init', 'history'): return replay_init(rec)
    cv = CURVES[rec['variant'][0]]
    snark = cv['snark']
    if rec.get('kind') == 'hl':
        import hlconc
        exe = build.compile_many([('replay', 'replay.cpp', ['-O1', '-DHL'] + (['-DBN_SUPPORT_SNARK'] if snark else []))])['replay']
        pr = concrete.Proc(exe, rec['variant'])
        bad = hlconc.judge(rec['scenario'], rec['args'], cv, rec['line'], pr.ask(rec['line'])); pr.close()
        print('%s: %s' % (rec['scenario'], bad or 'as specified on this input'))
        return 1 if bad else 0
    exe = build.compile_many([('replay', 'replay.cpp', ['-O1'] + (['-DBN_SUPPORT_SNARK'] if snark else []))])['replay']
    pr = concrete.Proc(exe, flat(rec['variant']))
    c = TABLE[rec['contract']]
    f = rec['line'].split()
    n = int(f[2]); nw = int(f[3 + n]); ar = [int(x, 16) for x in f[4 + n:]]
    case = concrete.Case(c, rec['pattern'], None, cv['p'], cv['xi'])
    off, _ = case.layout()
    vals = []
    for i, (d, t) in enumerate(c.args):
        w = contracts.NWORD[t]; o = off[rec['pattern'][i]]
        vals.append(None if d == 'o' else [sum(ar[o + w * j + k] << 64 * k for k in range(w)) for j in range(contracts.NCOMP[t])])
    case.vals = vals; case.arena = ar
    bad = case.check(pr.ask(rec['line'])); pr.close()
    print('%s: %s' % (rec['contract'], bad or 'contract satisfied on this input'))
    return 1 if bad else 0

COST = {'Fp6::pointDblLineEval': 30, 'Fp6::pointDblLineEvalWithoutP': 30, 'c:Fp6::mulFp6_24_Fp_01': 9, 'c:Fp12::sqru': 8, 'c:Fp6::mulC': 20, 'c:Fp6Dbl::mulC': 20, 'c:Fp12Dbl::mul_Fp2_024C': 25, 'c:Fp12Dbl::mul_Fp2_024_Fp2_024': 15,
        'c:Fp12::mulC': 10, 'c:Fp2::squareC': 10, 'Fp6::mul': 20, 'Fp12::mul': 20, 'Fp6Dbl::mul': 20, 'Fp12::square': 15, 'Fp12Dbl::mul_Fp2_024': 15}
def contract_jobs(prop, vs_jit, vs_cxx, want=('value', 'frame'), only=None):
    js = []
    for v in vs_jit:
        names = [n for n, c in TABLE.items() if prop in c.props and (not c.cxx or v in vs_cxx) and (only is None or only(c))]
        cur = []; w = 0
        for n in names:
            cur.append(n); w += COST.get(n, 2)
            if w >= 16: js.append(('contract', v, cur, want)); cur = []; w = 0
        if cur: js.append(('contract', v, cur, want))
    js.sort(key=lambda j: -sum(COST.get(n, 2) for n in j[2]))
    return js

def c24_jobs(G, tier, vs):
    hv = variants(mulx=(0,)) if tier == 'quick' else variants()
    hl_images(G, hv)
    js = [('square_n', v) for v in vs] + hl_jobs('c24_list', hv, 1) + hl_jobs('c24_fixed', [v for v in hv if not CURVES[v[0]]['snark']], 1)
    return js + [('lemma', 'cyclo_lemmas', c) for c in CURVES] + inv_jobs(vs, hv)
def prepare(prop, tier, G, seed):
    all_v = variants()
    cx = all_v if tier == 'thorough' else variants(modes=(0, 1), mulx=(0,)) 
    P = dict(trusted=TRUST, assumptions=list(ASSUME), configurations=['%s mode=%d mulx=%d' % v for v in all_v])
    if prop in ('C10', 'C13', 'C20', 'C21', 'C22', 'C23', 'C24'):
        images(G, all_v)
        P['jobs'] = contract_jobs(prop, all_v, cx)
        if prop == 'C23':
            hv = variants(mulx=(0,)) if tier == 'quick' else all_v
            hl_images(G, hv); P['jobs'] += hl_jobs('frob_list', hv, 1)
        if prop == 'C24':
            P['jobs'] = c24_jobs(G, tier, all_v) + P['jobs']
            P['assumptions'] += ['square_n is called with at least one squaring (its loop tests after the body); decompression is applied to compressed elements of the cyclotomic subgroup',
                                 'the elements of the cyclotomic subgroup are the x with x^(p^4-p^2+1) = 1; the relations used are consequences of that (lemmas)',
                                 'CompressT::squareC/square_nC (portable C++ versions) are not reached after Param::init and not verified']
    elif prop == 'C11':
        hv = variants(mulx=(0,)) if tier == 'quick' else all_v
        images(G, all_v); hl_images(G, hv)
        P['jobs'] = inv_jobs(all_v) + hl_jobs('c11_list', hv, 1) + hl_jobs('pred_list', hv, 1) + contract_jobs('C10', all_v, cx, only=lambda c: c.name in ('Fp::mul', 'Fp::sub', 'Fp::add', 'c:Fp::square', 'c:Fp::operator*='))
        P['assumptions'] += ['p is prime (probable-prime test); Fermat\'s theorem and p = 3 mod 4 give that x^((p+1)/4) is a root of every square',
                             'inversion and division are specified for a non-zero divisor only']
    elif prop == 'C40':
        images(G, all_v)
        P['jobs'] = contract_jobs(prop, all_v, cx) + [('lemma', 'line_lemmas', c) for c in CURVES]
    elif prop in ('C30', 'C31', 'C32'):
        dep = [('fp254', 0, 0), ('fp254', 1, 1), ('snark1', 0, 1), ('snark2', 1, 0)] if tier == 'quick' else all_v
        hv = variants(mulx=(0,)) if tier == 'quick' else all_v
        images(G, dep); hl_images(G, hv)
        js = []
        if prop == 'C31':
            js += hl_jobs('c31_list', [('fp254', 0, 0), ('snark1', 0, 0)] if tier == 'quick' else hv, 12)
            js += hl_jobs('c30_list', [('fp254', 0, 0), ('snark1', 0, 0)], 1)
        else: js += hl_jobs('c30_list' if prop == 'C30' else 'c32_list', hv, 1)
        js += hl_jobs('pred_list', hv, 1) + [('lemma', 'curve_lemmas', c) for c in CURVES] + [('hlconst', v) for v in hv]
        for q in ('C20', 'C10', 'C13'): js += contract_jobs(q, dep, dep)
        js += inv_jobs(dep, hv)
        P['jobs'] = js
        P['assumptions'] += EC_ASSUME
        P['configurations'] = ['%s mode=%d mulx=%d' % v for v in hv]
    elif prop in ('C41', 'C42', 'C43'):
        dep = DEP2 if tier == 'quick' else all_v
        hv = variants(mulx=(0,)) if tier == 'quick' else all_v
        images(G, dep); hl_images(G, hv)
        js = []
        if prop == 'C41': js += hl_jobs('c41_list', hv, 2)
        else:
            js += hl_jobs('c42_list' if prop == 'C42' else 'c43_list', hv, 4) + hl_jobs('c41_list', hv, 1) + hl_jobs('frob_list', hv, 1) + hl_jobs('norm_list', hv, 1)
            js += [('lemma', 'line_lemmas', c) for c in CURVES]
            if prop == 'C43': js += hl_jobs('c42_list', hv[:1], 1)
        js += [('lemma', 'pairing_lemmas', c) for c in CURVES] + [('lemma', 'curve_lemmas', c) for c in CURVES] + [('hlconst', v) for v in hv]
        for q in ('C40', 'C22', 'C23', 'C24', 'C21', 'C20', 'C10', 'C13'):
            if q != 'C40' or prop != 'C41': js += contract_jobs(q, dep, dep)
        js += [('square_n', v) for v in dep if not CURVES[v[0]]['snark']] + [('lemma', 'cyclo_lemmas', c) for c in CURVES]
        js += hl_jobs('c24_fixed', [v for v in hv if not CURVES[v[0]]['snark']], 1)
        P['jobs'] = js + inv_jobs(dep, hv)
        P['assumptions'] += PAIR_ASSUME
        P['configurations'] = ['%s mode=%d mulx=%d' % v for v in hv]
    elif prop == 'C50':
        vs = all_v + [('fp254', -1, 1), ('snark1', -1, 1), ('snark2', -1, 1)]
        images(G, vs); P['jobs'] = [('initstate', v) for v in vs] + [('lemma', 'curve_lemmas', c) for c in CURVES]
        P['configurations'] = ['%s mode=%d mulx=%d' % v for v in vs]
        P['assumptions'] = ['the inputs of Param::init are the supported curves and the code path choice: finitely many, every one of them evaluated']
    elif prop == 'C51':
        exes = build.reinits(); G['hist'] = {}; P['jobs'] = []; G['img'] = {}
        todo = {}
        for tag in ('default', 'snark'):
            hs = histories(tag == 'snark')
            sy = Image.symbols(exes['reinit_' + tag])
            res = run_histories(hs, exes['reinit_' + tag], sy, tag)
            G['hist'][tag] = (hs, res)
            P['jobs'] += [('history', tag, i, i + 80) for i in range(0, len(hs), 80)]
            fresh = {h[0]: r for h, r in zip(hs, res) if len(h) == 1}
            for h, r in zip(hs, res):
                f = fresh[h[-1]]
                if r and f and not any(same_code(fresh[c], r) for c in fresh if c[0] == h[-1][0]): todo.setdefault((h[-1][0], r[0], tuple(cut(r, lo, hi) for lo, hi in f[3] or ())), h)
        # code that is not the code of a fresh process: prove the contracts on it again
        extra = []
        rank = {}
        for h in sorted(todo.values(), key=len): rank[h] = sum(g[-1][0] == h[-1][0] for g in rank)
        for h in sorted(rank, key=lambda h: rank[h])[:4 if tier == 'quick' else 10 ** 6]:
            v = h[-1] + tuple(x for c in h[:-1] for x in c); extra.append(v)
        if extra:
            images(G, extra)
            P['jobs'] += contract_jobs('C40', extra, [], only=lambda c: not c.cxx)
            for q in ('C10', 'C13', 'C20', 'C21', 'C22', 'C24'): P['jobs'] += contract_jobs(q, extra, [], only=lambda c: not c.cxx)
            P['jobs'] += [('square_n', v) for v in extra]
        P['extra'] = dict(histories=sum(len(G['hist'][t][0]) for t in G['hist']), code_images_proved_again=len(extra))
        P['assumptions'] = ['induction over histories: the state after a history ending in a configuration is the state after that configuration alone (established for every history of up to three initialisations; '
                            'the state of the code generator object between calls is not compared)',
                            'what operations compute is determined by the constants, tables, function pointers and generated code compared here',
                            'initialisation runs while no other thread uses the library']
    elif prop == 'C52':
        images(G, all_v)
        P['jobs'] = [('frames', v) for v in all_v]
    else: raise SystemExit('no check for ' + prop)
    return P
