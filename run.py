#!/usr/bin/env python3
"""Build the exploration harness against /repo's current sources and decide one property.

  run.py C05            decide property C05 (tier from VERIF_TIER)
  run.py --setup        check that the tools needed are there
  run.py --replay FILE  re-evaluate a recorded violation
  run.py --survey C05   list every failing case without replaying it
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JOBS = 8

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

VARIANTS = {
    'fast': dict(cxx=['-O2'], ld=[]),
    # memory errors, undefined behaviour and invalid container use are fatal
    'asan': dict(cxx=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                      '-D_GLIBCXX_DEBUG', '-fno-omit-frame-pointer'],
                 ld=['-fsanitize=address,undefined']),
    # the library calls the check at every basic block
    'step': dict(cxx=['-O1'], ld=[], lib=['-fsanitize-coverage=trace-pc']),
}


class CheckError(Exception):
    pass


def has_main(path):
    with open(path, encoding='utf-8', errors='replace') as f:
        return re.search(r'^\s*(int\s+)?main\s*\(', f.read(), re.M) is not None


def compiler_of(path):
    return 'gcc' if path.endswith('.c') else 'g++'


def repo_sources():
    """Library sources, program sources, dictionary compiler sources, headers, data."""
    lib, prog, comp, other = [], [], [], []
    for d, subdirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        subdirs[:] = sorted(s for s in subdirs
                            if s not in ('tests', 'test', '_build', '.git', 'autom4te.cache'))
        for f in sorted(files):
            p = os.path.join(d, f)
            top = rel.split(os.sep)[0]
            if f.endswith(('.cxx', '.cpp', '.cc')):
                (prog if top == 'thpronun' else comp if top == 'dict' and has_main(p) else lib).append(p)
            elif f.endswith('.c'):
                (comp if top == 'dict' else prog if top == 'thpronun' else lib).append(p)
            elif f.endswith(('.h', '.inl', '.hpp', '.tsv')):
                other.append(p)
    return lib, prog, comp, other


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-4000:]))


def build(variant, units):
    """Compile; returns a directory with mc, thpronun, gen-lookup-dict and except.dic."""
    lib, prog, comp, other = repo_sources()
    mine = [os.path.join(VERIF, 'mc', u + '.cxx') for u in ['common', 'ref', 'real', 'spaces'] + units]
    heads = sorted(glob.glob(os.path.join(VERIF, 'mc', '*.h')))
    v = VARIANTS[variant]
    h = hashlib.sha256(repr((variant, v, units, 4)).encode())
    for p in lib + prog + comp + other + mine + heads:
        h.update(os.path.relpath(p, '/').encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    key = '%s-%s' % (variant, h.hexdigest()[:24])
    out = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(out, 'complete')):
        os.utime(out)
        return out
    os.makedirs(CACHE, exist_ok=True)
    old = sorted((d for d in glob.glob(os.path.join(CACHE, '*-*')) if os.path.isdir(d)),
                 key=os.path.getmtime)
    for d in old[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='build.', dir=CACHE)
    try:
        inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'dict'), '-I' + os.path.join(VERIF, 'mc')]
        base = ['-w', '-fno-strict-aliasing'] + v['cxx'] + inc
        defs = ['-DEXCEPT_DICT_DIR="%s"' % out, '-DVERSION="0.0.0"']
        jobs, objs = [], {}

        def add(group, src, extra):
            o = os.path.join(tmp, '%s_%03d.o' % (group, len(jobs)))
            jobs.append([compiler_of(src)] + base + extra + ['-c', src, '-o', o])
            objs.setdefault(group, []).append(o)
        for s in mine:
            add('mc', s, [])
        for s in prog:
            add('prog', s, defs)
        for s in lib:
            add('lib', s, [])
        for s in comp:
            add('comp', s, [])
        if 'lib' in v:
            # the library once more, for the checks only
            for s in lib:
                add('steplib', s, v['lib'])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, jobs))
        if 'comp' not in objs or 'prog' not in objs:
            raise CheckError('no sources of the program or of the dictionary compiler found')
        links = [['g++'] + v['ld'] + objs['comp'] + ['-ldatrie', '-o', os.path.join(tmp, 'gen-lookup-dict')],
                 ['g++'] + v['ld'] + objs.get('steplib', []) + objs['mc'] + ([] if 'lib' in v else objs['lib']) + ['-lthai', '-ldatrie', '-lpthread', '-o', os.path.join(tmp, 'mc')],
                 ['g++'] + v['ld'] + objs['prog'] + objs['lib'] + ['-lthai', '-ldatrie', '-o', os.path.join(tmp, 'thpronun')]]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, links))
        for g in objs.values():
            for o in g:
                os.unlink(o)
        # the shipped dictionary, as data/Makefile.am makes it
        lines = set()
        for t in glob.glob(os.path.join(REPO, 'data', 'ex-*.tsv')):
            with open(t, 'rb') as f:
                lines.update(f.read().splitlines(True))
        with open(os.path.join(tmp, 'except.tsv'), 'wb') as f:
            f.write(b''.join(sorted(lines)))
        r = subprocess.run([os.path.join(tmp, 'gen-lookup-dict'), os.path.join(tmp, 'except.tsv'),
                            os.path.join(tmp, 'except.dic')], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        with open(os.path.join(tmp, 'except.status'), 'w') as f:
            f.write('%d\n%s' % (r.returncode, r.stdout.decode('utf-8', 'replace')))
        open(os.path.join(tmp, 'complete'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, 'complete')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def known_findings(prop):
    """Specific inputs recorded as known; 'fixed:' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            f = line.rstrip('\n').split(' ', 3)
            if f[0] == 'known:' and len(f) == 4 and f[1] == 'property=' + prop and f[2].startswith('case='):
                known[f[2][5:]] = f[3]
    return known


def env():
    e = dict(os.environ)
    e.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0',
             UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1', LC_ALL='C.UTF-8')
    return e


def run_check(name, cfg, tier, bindir, extra=()):
    tmp = tempfile.mkdtemp(prefix='mc.')
    try:
        stats = os.path.join(tmp, 'stats.json')
        cmd = [os.path.join(bindir, 'mc'), 'run', name, '--tier', tier, '--tmp', tmp, '--bin', bindir,
               '--repo', REPO, '--stats', stats, '--jobs', str(cfg.get('jobs', JOBS)),
               '--hang', str(cfg.get('hang', 30))] + list(extra)
        r = subprocess.run(cmd, env=env(), stdin=subprocess.DEVNULL)
        if not os.path.exists(stats):
            raise CheckError('%s ended with status %d and no result' % (name, r.returncode))
        with open(stats, encoding='utf-8') as f:
            s = json.load(f)
        s['rc'] = r.returncode
        return s
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    known = known_findings(prop)
    results, violations, seen_known, broken = [], [], 0, 0
    for step in cfg['steps']:
        if tier not in step.get('tiers', ('quick', 'thorough')):
            continue
        bindir = build(step.get('variant', 'fast'), step['units'])
        s = run_check(step['check'], step, tier, bindir)
        results.append((step, s))
        if s['rc'] not in (0, 1):
            broken += 1
        for v in s['violations']:
            v['check'], v['variant'], v['units'] = step['check'], step.get('variant', 'fast'), step['units']
            if v['case_hex'] in known:
                seen_known += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, known[v['case_hex']]))
            else:
                violations.append(v)
        print('%s: %s %d cases, %d distinct outcomes, %.1f s' % (
            prop, step['check'], s['count'].get('cases', 0),
            max(list(s['distinct'].values()) or [0]), s['wall_s']), flush=True)
        if violations:
            break
    coverage = cfg['coverage'](results)
    coverage['exhaustive'] = not violations and not broken and not coverage.get('schedules_left_out_for_waiting')
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=coverage,
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write('\n')
    if violations:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for k, v in enumerate(violations):
            path = os.path.join(d, '%s-%d.json' % (prop, k))
            v['property'], v['tier'] = prop, tier
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(v, f, ensure_ascii=False, indent=1)
            print('  case: %s\n  %s' % (v['shown'][:300], v['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken:
        print('a failure was seen that could not be reproduced')
        return 2
    print('%s: held on everything explored (%.1f s)' % (prop, time.time() - t0))
    return 0


def replay(path):
    with open(path, encoding='utf-8') as f:
        v = json.load(f)
    bindir = build(v['variant'], v['units'])
    tmp = tempfile.mkdtemp(prefix='mc.')
    try:
        r = subprocess.run([os.path.join(bindir, 'mc'), 'replay', v['check'], '--tier', v['tier'], '--tmp', tmp,
                            '--bin', bindir, '--repo', REPO, '--case', v['case_hex']], env=env())
        if r.returncode == 0 and v['kind'] != 'single':
            print('(found after the preceding cases of the enumeration: %s)' % v['kind'])
        return r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def survey(prop):
    for step in PROPS[prop]['steps']:
        bindir = build(step.get('variant', 'fast'), step['units'])
        tmp = tempfile.mkdtemp(prefix='mc.')
        subprocess.run([os.path.join(bindir, 'mc'), 'run', step['check'], '--survey', '--tmp', tmp,
                        '--tier', os.environ.get('VERIF_TIER', 'quick'), '--bin', bindir, '--repo', REPO,
                        '--stats', os.path.join(tmp, 's')], env=env())
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def setup():
    for t in ('g++', 'gcc'):
        if not shutil.which(t):
            raise CheckError(t + ' is missing')
    if not os.path.exists('/usr/share/libthai/thbrk.tri'):
        raise CheckError('libthai word list is missing')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    return 0


def main():
    try:
        if sys.argv[1:2] == ['--setup']:
            return setup()
        if sys.argv[1:2] == ['--replay']:
            return replay(sys.argv[2])
        if sys.argv[1:2] == ['--survey']:
            return survey(sys.argv[2])
        return decide(sys.argv[1])
    except CheckError as e:
        sys.stderr.write('error: %s\n' % e)
        return 3


if __name__ == '__main__':
    sys.exit(main())
