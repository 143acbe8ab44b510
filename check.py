#!/usr/bin/env python3
"""Run the check of one property:  check.py <property> [quick|thorough] [--replay FILE]

Configures /repo's working tree with cmake in /verif/build (git-ignored), compiles the property's generators and oracles
against it, runs them, replays every failure three times, and writes /verif/evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run."""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from spec import SPEC  # noqa: E402

def log(*a):
    print(*a, flush=True)

def configure(bdir):
    """Generates the configured headers (and the build files for the library / python targets)."""
    os.makedirs(bdir, exist_ok=True)
    cmd = ['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCARIBOU_BUILD_TESTS=OFF',
           '-DCARIBOU_WITH_VTK=ON', '-DCARIBOU_WITH_PYTHON_3=ON', '-DCARIBOU_WITH_SOFA=OFF', '-DCARIBOU_WITH_MKL=OFF', '-DPython_EXECUTABLE=/usr/bin/python3']
    env = dict(os.environ, CC='gcc', CXX='g++')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        log(r.stdout[-3000:]); log('check error: cmake configuration failed'); sys.exit(2)

def ninja(bdir, targets):
    r = subprocess.run(['ninja', '-C', bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-3000:]); log('check error: building', targets, 'failed'); sys.exit(2)

BASE = ['-std=c++17', '-g0', '-DNDEBUG', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-w', '-fmax-errors=5']

def compile_cpp(spec, bdir, odir):
    san = spec.get('sanitize', ['-fsanitize=address'])
    opt = spec.get('opt', '-O1')
    flags = BASE + [opt] + san + ['-I' + os.path.join(bdir, 'include'), '-I' + os.path.join(REPO, 'src'), '-I/usr/include/eigen3', '-I' + H] + spec.get('flags', [])
    if spec.get('sofa'):  # the plugin's sources are compiled against the miniature SOFA of harness/sofa_stub
        sys.path.insert(0, os.path.join(VERIF, 'tools'))
        import sofa_headers
        shutil.rmtree(os.path.join(odir, 'sofa'), ignore_errors=True)
        sofa_headers.generate(REPO, os.path.join(odir, 'sofa'))
        flags += ['-I' + os.path.join(odir, 'sofa'), '-I' + os.path.join(H, 'sofa_stub'), '-DCARIBOU_BUILD_SOFACARIBOU', '-DSOFACARIBOU_VERSION=0']
    units = [(os.path.join(H, 'vp_main.cpp'), None, True)]
    for src, groups in spec['sources']:
        for g in groups:
            units.append((os.path.join(H, src), g, False))
    for src in spec.get('repo_sources', []):
        units.append((os.path.join(REPO, src), None, True))
    def one(u):
        src, g, essential = u
        obj = os.path.join(odir, '%s_%s.o' % (''.join(c if c.isalnum() else '_' for c in (os.path.relpath(src, REPO) if src.startswith(REPO + os.sep) else os.path.basename(src))), g))
        cmd = ['g++'] + flags + ([] if g is None else ['-DVP_GROUP=%d' % g]) + ['-c', src, '-o', obj]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return obj, r.returncode, r.stdout, src, essential
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    objs = []
    bad = [r for r in res if r[1] != 0]
    for r in bad:
        log('could not compile', r[3], ':', r[2][:3000])
    if bad:
        log('check error: the harness does not compile against this tree'); sys.exit(2)
    objs = [r[0] for r in res]
    exe = os.path.join(odir, 'check')
    r = subprocess.run(['g++'] + san + ['-o', exe] + objs + spec.get('link', []) + [l.replace('@B@', bdir) for l in spec.get('link_build', [])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-3000:]); log('check error: link failed'); sys.exit(2)
    return exe

def known_keys(prop):
    """keys of the findings listed for this property in known_findings.txt"""
    keys = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                keys[key.replace('key=', '')] = what
    return keys

def main():
    t0 = time.time()
    if '--setup' in sys.argv:  # nothing to prepare: every check builds what it needs; fail early when a tool is missing
        sys.exit(0 if all(shutil.which(x) for x in ('cmake', 'ninja', 'g++')) else 2)
    prop = sys.argv[1]
    tier = next((a for a in sys.argv[2:] if a in ('quick', 'thorough')), os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = SPEC[prop]
    bdir = os.path.join(VERIF, 'build', 'cfg')
    odir = os.path.join(VERIF, 'build', prop)
    for d in (odir, os.path.join(VERIF, 'evidence'), os.path.join(VERIF, 'replays')):
        os.makedirs(d, exist_ok=True)
    configure(bdir)
    if spec.get('targets'):
        ninja(bdir, spec['targets'])
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=0:detect_stack_use_after_return=1' + spec.get('asan', '')
    env['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=0'
    scratch = os.path.join(odir, 'scratch'); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    env['VP_SCRATCH'] = scratch
    rdir = os.path.join(VERIF, 'replays', prop); os.makedirs(rdir, exist_ok=True)
    if spec.get('python'):
        env['PYTHONPATH'] = os.path.join(bdir, 'lib', 'python3', 'site-packages') + ':' + H
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        exe = ['/usr/bin/python3', os.path.join(H, spec['python'])]
    else:
        exe = [compile_cpp(spec, bdir, odir)]
    tbuild = time.time() - t0
    if '--replay' in sys.argv:
        sys.exit(subprocess.run(exe + ['--replay', sys.argv[sys.argv.index('--replay') + 1]], env=env).returncode)
    out = os.path.join(odir, 'result.json')
    if os.path.exists(out): os.remove(out)
    cases = spec['quick' if tier == 'quick' else 'thorough']
    maxtime = 420 if tier == 'quick' else 3600
    r = subprocess.run(exe + ['--seed', str(seed), '--cases', str(cases), '--maxtime', str(maxtime), '--jobs', '8', '--shards', '8' if tier == 'quick' else '32', '--out', out, '--replay-dir', rdir],
                       env=env, stdout=open(os.path.join(odir, 'log.txt'), 'w'), stderr=subprocess.STDOUT)
    if not os.path.exists(out):
        log(open(os.path.join(odir, 'log.txt'), errors='replace').read()[-3000:]); log('check error: no result'); sys.exit(2)
    res = json.load(open(out))
    listed = known_keys(prop)
    violations = []
    for v in res['violations']:
        # an alarm is raised only for a failure that its replay file reproduces three times out of three
        ok = all(subprocess.run(exe + ['--replay', v['replay']], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
        if ok: violations.append(v)
        else: log('unconfirmed (not reported):', v['test'], v['msg'][:300])
    unlisted = {}
    seen_known = {}
    for t in res['tests']:
        for k, w in t['known'].items():
            (seen_known if k in listed else unlisted)[k] = (t['test'], w)
    for k, (t, w) in unlisted.items():
        path = os.path.join(rdir, 'finding_' + ''.join(c if c.isalnum() else '_' for c in k) + '.txt')
        open(path, 'w').write('sub-property %s\nfinding %s: %s\nrerun: VERIF_SEED=%d python3 %s/check.py %s %s\n' % (t, k, w, seed, VERIF, prop, tier))
        violations.append({'test': t, 'replay': path, 'msg': k + ': ' + w})
    for k, (t, w) in sorted(seen_known.items()):
        log('KNOWN-FINDING: property=%s %s %s' % (prop, k, listed[k]))
    samples, ev, dn, disc = [], 0, 0, 0
    per = {}
    for t in res['tests']:
        ev += t['cases']; dn += t['distinct_nontrivial']; disc += t['discarded']
        per[t['test']] = {'cases': t['cases'], 'distinct_nontrivial': t['distinct_nontrivial'], 'labels': t['labels']}
        if t['samples'] and len(samples) < 12: samples.append('%s: %s' % (t['test'], t['samples'][0]))
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
                'coverage': {'evaluations': ev, 'distinct_nontrivial': dn, 'discarded': disc, 'rule': spec['rule'], 'samples': samples, 'sub_properties': per},
                'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(evidence, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s %s: %d cases, %d distinct non-trivial, %d sub-properties, build %.1f s, total %.1f s' % (prop, tier, ev, dn, len(res['tests']), tbuild, time.time() - t0))
    shutil.rmtree(scratch, ignore_errors=True)
    for v in violations:
        log('  %s: %s' % (v['test'], v['msg'][:600]))
        log('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    sys.exit(1 if violations else 0)

if __name__ == '__main__':
    main()
