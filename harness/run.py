#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: build the drivers of a property from /repo's working tree, run them, judge.

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run (build failure, ...)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS

ATOM = ['-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t for t in
        'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()] + ['-D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1']
BASE = ['-std=c++17', '-w', '-pthread', '-fno-strict-aliasing', '-fms-extensions', '-fms-compatibility',
        '-fms-compatibility-version=19', '-fdelayed-template-parsing', '-D__GXX_TYPEINFO_EQUALITY_INLINE=1',
        '-U__OPTIMIZE__', '-ferror-limit=3'] + ATOM
# what UBSan watches; unsigned wrap-around is legal and float-cast/zero-division are excluded where IEEE defines them
UB = '-fsanitize=address,undefined'
NOUB = '-fno-sanitize=vptr,float-divide-by-zero,function,alignment'
IGN = '-fsanitize-ignorelist=' + os.path.join(HERE, 'san.ignore')
VARIANTS = {
    'asan':    ['-g1', '-O1', '-D_DEBUG', UB, NOUB, IGN, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'asanr':   ['-g1', '-O1', '-DNDEBUG', UB, NOUB, IGN, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan':    ['-g1', '-O1', '-DNDEBUG', '-fsanitize=thread'],
    'dbg':     ['-g1', '-O1', '-D_DEBUG'],
    'rel':     ['-g1', '-O2', '-DNDEBUG'],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:max_malloc_fill_size=65536:malloc_fill_byte=203',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=78',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=79:second_deadlock_stack=1:detect_deadlocks=1:suppressions=' + os.path.join(HERE, 'tsan.supp'),
    'LSAN_OPTIONS': 'exitcode=80:suppressions=' + os.path.join(HERE, 'lsan.supp'),
    'OPENBLAS_NUM_THREADS': '1',
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def died_key(out):
    m = re.search(r'NNTL_ASSERT failed at \S*?([\w.]+\.h):\d+: (.*)', out)
    if m:
        return 'assert:%s:%s' % (m.group(1), m.group(2)[:120])
    m = re.search(r'NNTL_DEBUGBREAK at \S*?([\w.]+\.h)', out)
    if m:
        return 'debugbreak:%s' % m.group(1)
    m = re.search(r'CRT_INVALID_PARAMETER in (\w+)', out)
    if m:
        return 'crt:%s' % m.group(1)
    m = re.search(r'(?:ERROR|WARNING|SUMMARY): (\w+Sanitizer): ([\w-]+(?: [\w-]+)?)', out)
    f = ''
    for fr in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) \S*?/nntl/(\S+?):\d+', out):
        f = ':%s:%s' % (os.path.basename(fr.group(2)), re.sub(r'[<(].*', '', fr.group(1)).split('::')[-1])
        break
    u = re.search(r'(\S*?)([\w.]+):\d+:\d+: runtime error: (.*)', out)
    if u:
        return 'ubsan:%s:%s' % (u.group(2), re.sub(r'0x[0-9a-f]+|-?\d+', 'N', u.group(3))[:100])
    if m:
        return '%s:%s%s' % (m.group(1), m.group(2), f)
    return 'crash'

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, 'build'))
    try:
        return check(prop, tier, seed, P, work, t0)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)

def known():
    k = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    k.append(d)
    return k

def check(prop, tier, seed, P, work, t0):
    mir = os.path.join(work, 'm')
    r = sh([sys.executable, os.path.join(HERE, 'mirror.py'), REPO, mir])
    if r.returncode:
        print(r.stdout); print('ERROR: mirror failed'); return 2
    shutil.copytree(os.path.join(HERE, 'compat', '_extern'), os.path.join(mir, '_extern'), dirs_exist_ok=True)
    jobs = [j for j in P['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    def build(i, j):
        exe = os.path.join(work, 'd%d' % i)
        cmd = ['clang++-18'] + BASE + VARIANTS[j['variant']] + j.get('flags', []) + [
            '-I', os.path.join(HERE, 'compat', 'include'), '-include', 'nntl_compat.h', '-I', HERE, '-I', mir,
            os.path.join(HERE, 'drivers', j['src']), '-o', exe] + j.get('libs', [])
        r = sh(cmd)
        return exe, r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda a: build(*a), enumerate(jobs)))
    errors = []
    tb = time.time()
    runs = []
    for (exe, rc, out), j in zip(built, jobs):
        if rc:
            errors.append('build of %s (%s) failed:\n%s' % (j['src'], j['variant'], out[-6000:]))
            continue
        n = j.get('reps', {}).get(tier, 1)
        for k in range(n):
            runs.append((exe, j, seed if k == 0 else int(hashlib.sha256(('%d-%d' % (seed, k)).encode()).hexdigest()[:12], 16)))
    def go(a):
        exe, j, sd = a
        sc = j.get('scale', {}).get(tier, 1.0 if tier == 'quick' else 6.0)
        to = j.get('timeout', {}).get(tier, 240 if tier == 'quick' else 3000)
        env = dict(os.environ); env.update(ENV); env.update(j.get('env', {}))
        cmd = [exe, '--seed', str(sd), '--scale', str(sc), '--tier', tier]
        for attempt in (0, 1):
            tmp = tempfile.mkdtemp(dir=work)
            try:
                p = subprocess.Popen(cmd + ['--tmp', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=tmp)
                try:
                    out, _ = p.communicate(timeout=to)
                    return j, sd, cmd, p.returncode, out
                except subprocess.TimeoutExpired:
                    p.terminate()
                    try:
                        out, _ = p.communicate(timeout=10)
                    except subprocess.TimeoutExpired:
                        p.kill(); out, _ = p.communicate()
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return j, sd, cmd, 'timeout', out
    with ThreadPoolExecutor(P.get('parallel', 8)) as ex:
        results = list(ex.map(go, runs))
    evs, cases, distinct, samples, viols, per = {}, 0, 0, [], [], []
    for j, sd, cmd, rc, out in results:
        def last(tag):
            return sum(int(x) for x in re.findall(r'(?m)^@@%s (\d+)$' % tag, out))
        c, d = last('CASES'), last('DISTINCT')
        for m in re.finditer(r'(?m)^@@EV (\S+) (\d+)$', out):
            evs[m.group(1)] = evs.get(m.group(1), 0) + int(m.group(2))
        samples += re.findall(r'(?m)^@@SAMPLE (.*)$', out)[:6]
        cases += c; distinct += d
        per.append({'driver': j['src'], 'variant': j['variant'], 'seed': sd, 'cases': c, 'distinct': d, 'result': str(rc)})
        v = re.findall(r'(?m)^@@VIOL (.*?)\|(.*?)\|(.*)$', out)
        for k, cs, det in v:
            viols.append((k, cs, det, j, sd, out))
        if rc == 'timeout':
            viols.append(('hang:' + j['src'], 'timeout', 'the driver did not finish twice in a row', j, sd, out))
        elif '@@DONE' not in out or (rc not in (0, 1)):
            dm = re.search(r'(?m)^@@DIED (.*)$', out)
            if re.search(r'std::bad_alloc|cannot allocate|Cannot allocate memory|Killed', out) and not dm and rc == -9:
                errors.append('driver %s ended by the system' % j['src'])
            elif rc == -9:
                errors.append('driver %s was killed' % j['src'])
            elif not v or dm or rc not in (0, 1):
                viols.append((died_key(out), dm.group(1) if dm else '?', 'exit %s' % rc, j, sd, out))
    kn = [k for k in known() if k['property'] == prop]
    fresh, hit = [], {}
    for v in viols:
        for k in kn:
            if re.search(k['match'], v[0] + '|' + v[2]):
                hit[k['what']] = 1
                break
        else:
            fresh.append(v)
    for w in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    # a monitor that observed nothing decides nothing
    for e in P.get('need', []):
        if not evs.get(e) and not errors and not fresh:
            fresh.append(('missing:' + e, '-', 'the monitors never observed the event "%s" they observe on a correct tree' % e, jobs[0], seed, ''))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump({
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
        'coverage': {'evaluations': cases, 'distinct_nontrivial': distinct, 'rule': P['rule'],
                     'samples': samples[:24] or ['(none)'], 'events': evs, 'runs': per,
                     'build_s': round(tb - t0, 1)},
        'assumptions': P.get('assumptions', []) + [
            'the code is compiled by clang 18 on Linux from a mechanically adapted copy of /repo/nntl (harness/mirror.py: syntax only), not by MSVC',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)},
        open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        k, cs, det, j, sd, out = fresh[0]
        rp = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha256((k + cs).encode()).hexdigest()[:8]))
        json.dump({'property': prop, 'key': k, 'case': cs, 'detail': det, 'driver': j['src'], 'variant': j['variant'], 'seed': sd,
                   'tier': tier, 'replay': 'VERIF_SEED=%s VERIF_KEEP=1 python3 harness/run.py %s %s, then run build/.../d* --seed %s --only %s' % (sd, prop, tier, sd, cs),
                   'output_tail': out[-8000:]}, open(rp, 'w'), indent=1)
        for k, cs, det, j, sd, out in fresh[:10]:
            print('  %s [%s %s seed %s] case %s: %s' % (k, j['src'], j['variant'], sd, cs, det[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        for e in errors:
            print('ERROR:', e)
        return 2
    print('OK property=%s tier=%s cases=%d distinct=%d events=%d wall=%.1fs (build %.1fs)' % (prop, tier, cases, distinct, sum(evs.values()), time.time() - t0, tb - t0))
    return 0

sys.exit(main())
