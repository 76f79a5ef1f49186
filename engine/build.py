"""builds the drivers against /repo's working tree and produces process snapshots"""
import os, subprocess, tempfile, shutil, atexit, sys
REPO = os.environ.get('ATE_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class Xi(tuple):
    """xi = xa + xb u, with the curve coefficient b"""
CURVES = {
    'fp254': dict(z=-((1 << 62) + (1 << 55) + 1), b=2, xi=(1, 1), snark=False),
    'snark1': dict(z=4965661367192848881, b=3, xi=(9, 1), snark=True),
    'snark2': dict(z=4965661367192848881, b=82, xi=(9, 1), snark=True),
}
for c in CURVES.values():
    z = c['z']
    c['p'] = 36 * z**4 + 36 * z**3 + 24 * z**2 + 6 * z + 1
    c['r'] = 36 * z**4 + 36 * z**3 + 18 * z**2 + 6 * z + 1
    c['xi'] = Xi(c['xi']); c['xi'].b = c['b']
    c['t'] = 6 * z**2 + 1
class BuildError(Exception): pass
_work = None
def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='ateverif_')
        pid = os.getpid()
        def clean():
            if os.getpid() == pid: shutil.rmtree(_work, ignore_errors=True)
        atexit.register(clean)
    return _work
BASE = ['-std=gnu++11', '-no-pie', '-fno-pie', '-DNDEBUG', '-DMIE_ATE_USE_GMP', '-I' + REPO + '/include', '-I' + REPO + '/src', '-fno-stack-protector', '-fcf-protection=none', '-w']
def compile_many(jobs):
    """jobs: list of (out name, driver, extra flags). returns {name: path}"""
    ps = []
    w = workdir()
    objs = {}
    def start(cmd): return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for name, drv, extra in jobs:
        out = os.path.join(w, name)
        srcs = [os.path.join(VERIF, 'drivers', drv), REPO + '/src/zm.cpp', REPO + '/src/zm2.cpp']
        os_ = []
        for i, s in enumerate(srcs):
            fl = BASE + list(extra)
            key = (s, tuple(fl))
            if key not in objs:
                o = os.path.join(w, '%s_%d.o' % (name, i))
                objs[key] = (o, start(['g++'] + fl + ['-c', s, '-o', o]))
            os_.append(objs[key][0])
        ps.append((name, out, os_))
    for key, (o, p) in objs.items():
        t = p.communicate()[0]
        if p.returncode: raise BuildError('compiling %s failed:\n%s' % (key[0], t[-3000:]))
    res = {}; ls = []
    for name, out, os_ in ps:
        ls.append((name, out, start(['g++', '-no-pie', '-o', out] + os_ + ['-lgmpxx', '-lgmp'])))
    for name, out, p in ls:
        t = p.communicate()[0]
        if p.returncode: raise BuildError('linking failed:\n' + t[-3000:])
        res[name] = out
    return res
def snapshot(exe, args, tag):
    out = os.path.join(workdir(), tag + '.bin')
    r = subprocess.run([exe, out] + [str(a) for a in args], capture_output=True, text=True, timeout=300)
    if r.returncode: raise BuildError('%s failed (%d): %s' % (tag, r.returncode, r.stderr[-2000:]))
    return out, r.stdout
OPT1 = ['-O1', '-fno-inline', '-fno-ipa-ra', '-fno-ipa-sra', '-fno-ipa-cp', '-fno-ipa-icf', '-fno-optimize-sibling-calls']
def dumps():
    return compile_many([('dump_default', 'dump.cpp', OPT1), ('dump_snark', 'dump.cpp', OPT1 + ['-DBN_SUPPORT_SNARK'])])
def hl_dumps():
    """the high-level entry points, with every inline function of the headers kept as a function"""
    HL = OPT1 + ['-DHL', '-DMIE_FORCE_INLINE=inline']
    return compile_many([('dump_hldefault', 'dump.cpp', HL), ('dump_hlsnark', 'dump.cpp', HL + ['-DBN_SUPPORT_SNARK'])])
def variants(curves=('fp254', 'snark1', 'snark2'), modes=(0, 1), mulx=(0, 1)):
    return [(c, m, x) for c in curves for m in modes for x in mulx]
def reinits():
    return compile_many([('reinit_default', 'reinit.cpp', ['-O1']), ('reinit_snark', 'reinit.cpp', ['-O1', '-DBN_SUPPORT_SNARK'])])
