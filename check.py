#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [--tier quick|thorough] [--seed N] [--jobs N]
  check.py C01 --replay replays/C01-....json
exit 0: the property held on everything observed (known findings are printed)
exit 1: a line "VIOLATION property=<id> replay=<path>" per violation
exit 2: the check itself failed, or was inconclusive
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
import concurrent.futures as cf
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import build as vfbuild
from vf.config import PROPS

REPO = vfbuild.REPO
T0 = time.time()
RUN_LIMIT = 780          # give up (inconclusive) rather than be killed
STATE = {'stop': False}


def note(*a):
    print(*a, flush=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def gcc_lib(name):
    return subprocess.check_output(['g++', '-print-file-name=' + name], text=True).strip()


def env_for(variant, libdir, part):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
    e.update(PYTHONPATH='%s:%s:%s' % (libdir, REPO, VERIF), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             OMP_NUM_THREADS='1', VF_REPO=REPO, VF_LIBDIR=libdir, OMP_WAIT_POLICY='passive')
    if variant == 'asan':
        e.update(LD_PRELOAD=gcc_lib('libasan.so') + ' ' + gcc_lib('libubsan.so'),
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:'
                              'detect_stack_use_after_return=1:handle_segv=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=97', PYTHONMALLOC='malloc')
    elif variant == 'tsan':
        e.update(LD_PRELOAD=gcc_lib('libtsan.so'),
                 TSAN_OPTIONS='exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:'
                              'ignore_noninstrumented_modules=1')
    e.update(part.get('env', {}))
    return e


def tail(path, n=6000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode('utf8', 'replace')
    except OSError:
        return ''


def lines_of(path):
    out = []
    try:
        with open(path) as f:
            for l in f:
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass
    except OSError:
        pass
    return out


def last_case(path):
    k = -1
    t = tail(path, 20000)
    for m in re.finditer(r'"t": "case", "k": (\d+)', t):
        k = int(m.group(1))
    return k


FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (\S+?)(?::\d+)*(?:\s|$)')


def sanitizer_key(err):
    """a key for the first sanitizer report in err, or None"""
    m = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z-]+)', err)
    kind = None
    if m:
        kind = 'asan:' + m.group(1)
        rest = err[m.end():]
    else:
        m = re.search(r'(\S+?):(\d+):\d+: runtime error: (.*)', err)
        if m:
            f = os.path.basename(m.group(1))
            msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(3))[:60].strip().replace(' ', '_')
            return 'ubsan:%s:%s' % (f, msg)
    if kind is None:
        return None
    for fm in FRAME.finditer(rest):
        if REPO in fm.group(2) or '/src/' in fm.group(2):
            fn = re.sub(r'\(.*', '', fm.group(1)).replace(' ', '')
            return '%s:%s:%s' % (kind, os.path.basename(fm.group(2)), fn[-60:])
    return kind


def tsan_reports(path):
    """[(key, text)] of the reports of the thread sanitizer in a log"""
    try:
        with open(path, 'rb') as f:
            log = f.read(50 << 20).decode('utf8', 'replace')
    except OSError:
        return []
    out = {}
    for block in re.split(r'={18,}', log):
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', block)
        if not m:
            continue
        fns = []
        for stack in re.split(r'\n\s*\n', block)[:2]:
            for fm in re.finditer(r'#\d+ (.+?) (\S+?):\d+', stack):
                if REPO in fm.group(2) or '/src/' in fm.group(2):
                    fns.append(os.path.basename(fm.group(2)) + ':' + re.sub(r'[\s<(].*', '', fm.group(1).split('::')[-1])[:40])
                    break
        key = 'tsan:%s:%s' % (m.group(1).strip().replace(' ', '-'), '|'.join(sorted(set(fns))))
        out.setdefault(key, block.strip()[:2500])
    return sorted(out.items())


def run_session(job):
    """one worker process; returns dict(lines, status, k, err)"""
    out, err = job['out'], job['err']
    cmd = [vfbuild.PY, '-m', 'vf.worker', '--prop', job['prop'], '--mod', job['part']['mod'], '--seed', str(job['seed']),
           '--session', job['session'], '--cases', str(job['cases']), '--out', out]
    if job.get('only') is not None:
        cmd += ['--only', str(job['only'])]
    if job.get('deep'):
        cmd += ['--deep']
    for f in (out, err):
        if os.path.exists(f):
            os.unlink(f)
    case_limit = job['part'].get('case_limit', 90)
    with open(err, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=job['env'], cwd=job['cwd'],
                             start_new_session=True)
        cur, since = None, time.time()
        status = None
        while True:
            try:
                rc = p.wait(0.05 if time.time() - since < 2 else 0.3)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                sz = os.path.getsize(out)
            except OSError:
                sz = 0
            if sz != cur:
                cur, since = sz, time.time()
            if time.time() - since > case_limit:
                status = 'hang'
            if STATE['stop'] or time.time() - T0 > RUN_LIMIT:
                status = 'stopped'
            if status:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                rc = None
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)      # stray children
    except OSError:
        pass
    L = lines_of(out)
    e = tail(err)
    if status is None:
        if L and L[-1].get('t') == 'end':
            status = 'ok'
        elif any(x.get('t') == 'harness-error' for x in L):
            status = 'harness-error'
        elif rc in (-signal.SIGKILL, -signal.SIGTERM):
            status = 'killed'
        else:
            status = 'crash'
    return dict(lines=L, status=status, rc=rc, k=last_case(out), err=e)


def do_job(job):
    r = run_session(job)
    if r['status'] in ('crash', 'hang', 'killed'):
        k = r['k']
        # once more: does the same case fail again?
        r2 = run_session(dict(job, out=job['out'] + '.again', err=job['err'] + '.again'))
        r['again'] = dict(status=r2['status'], k=r2['k'], err=r2['err'], rc=r2['rc'])
    return job, r


def crash_key(r):
    k = sanitizer_key(r['err'])
    if k:
        return k
    m = re.search(r'Error: (\S+?):\d+.*assertion', r['err'])
    if 'assertion' in r['err']:
        m = re.search(r"[Aa]ssertion [`'\"]?(.{0,60})", r['err'])
        return 'abort:assertion:' + re.sub(r'\s+', '_', m.group(1) if m else '')[:60]
    if r['rc'] is not None and r['rc'] < 0:
        return 'crash:' + signal.Signals(-r['rc']).name
    return 'exit:%s' % r['rc']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=max(2, os.cpu_count() or 2))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--part', type=int)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    global RUN_LIMIT
    prop = a.prop
    conf = PROPS[prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if tier == 'thorough':
        RUN_LIMIT = 6 * 3600
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.build'))
    try:
        rc = run(prop, conf, tier, a, work)
    finally:
        STATE['stop'] = True
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, conf, tier, a, work):
    replay = json.load(open(a.replay)) if a.replay else None
    parts = conf['parts']
    need = sorted(set(p.get('variant', 'plain') for i, p in enumerate(parts)
                      if (replay is None or replay['part'] == i) and (a.part is None or a.part == i)))
    libs = {}
    for v in need:
        try:
            libs[v] = vfbuild.build(v, os.path.join(work, 'b'))
        except vfbuild.BuildError as e:
            note('the tree does not build (%s): %s' % (v, e))
            return 2
    build_s = time.time() - T0
    jobs = []
    for i, part in enumerate(parts):
        if a.part is not None and a.part != i:
            continue
        ns, nc = part[tier] if tier in part else part['quick']
        nc = max(1, int(nc * a.scale))
        cwd = os.path.join(work, 'cwd%d' % i)
        os.makedirs(cwd, exist_ok=True)
        for s in range(ns):
            jobs.append(dict(prop=prop, part=part, pi=i, seed=a.seed, session='%s%d' % (part.get('tag', 'p%d.' % i), s),
                             cases=nc, deep=(tier == 'thorough'),
                             env=env_for(part.get('variant', 'plain'), libs.get(part.get('variant', 'plain')), part)
                             if part.get('variant', 'plain') in libs else None,
                             out=os.path.join(work, 'o%d.%d' % (i, s)), err=os.path.join(work, 'e%d.%d' % (i, s)),
                             cwd=cwd, cost=part.get('cost', 1)))
    if replay is not None:
        i = replay['part']
        part = parts[i]
        cwd = os.path.join(work, 'cwd%d' % i)
        os.makedirs(cwd, exist_ok=True)
        jobs = [dict(prop=prop, part=part, pi=i, seed=replay['seed'], session=replay['session'], cases=replay['cases'],
                     only=replay['k'] if replay['k'] >= 0 else None, deep=replay.get('deep'), env=env_for(part.get('variant', 'plain'),
                     libs[part.get('variant', 'plain')], part),
                     out=os.path.join(work, 'o'), err=os.path.join(work, 'e'), cwd=cwd, cost=1)]
    jobs.sort(key=lambda j: -j['cost'])
    nw = max(1, min(a.jobs, len(jobs)))
    viol, errors = [], []
    agg = dict(checks=0, cases=0, counts={}, distinct=set(), samples=[], sessions=0, incomplete=0)
    with cf.ThreadPoolExecutor(nw) as ex:
        futs = [ex.submit(do_job, j) for j in jobs]
        for f in cf.as_completed(futs):
            j, r = f.result()
            agg['sessions'] += 1
            for x in r['lines']:
                if x['t'] == 'viol':
                    viol.append((x['key'], x['msg'], j, x['k'], x.get('trace')))
                elif x['t'] == 'end':
                    agg['checks'] += x['checks']
                    agg['cases'] += x['cases']
                    agg['distinct'].update(x['distinct'])
                    if len(agg['samples']) < 6:
                        agg['samples'] += x['samples']
                    for n, c in x['counts'].items():
                        agg['counts'][n] = agg['counts'].get(n, 0) + c
                elif x['t'] == 'harness-error':
                    errors.append('session %s case %s: %s' % (j['session'], x['k'], x['tb']))
            # reports that do not end the process (thread sanitizer)
            if j['part'].get('variant') == 'tsan':
                n = 0
                for key, msg in tsan_reports(j['err']):
                    n += 1
                    viol.append((key, msg, j, -1, None))
                agg['counts']['thread sanitizer reports'] = agg['counts'].get('thread sanitizer reports', 0) + n
            if r['status'] in ('crash', 'hang'):
                ag = r['again']
                key = crash_key(r) if r['status'] == 'crash' else 'hang'
                evidence = sanitizer_key(r['err']) is not None
                if evidence or (ag['status'] == r['status'] and ag['k'] == r['k']):
                    viol.append((key, 'the process %s in case %d: ...%s' % (
                        'ended abnormally (%s)' % r['rc'] if r['status'] == 'crash' else 'does not answer',
                        r['k'], r['err'][-2500:]), j, r['k'], None))
                elif ag['status'] == 'crash' and r['status'] == 'crash':
                    viol.append((key, 'the process ended abnormally twice (cases %d, %d): ...%s' % (
                        r['k'], ag['k'], r['err'][-2500:]), j, r['k'], None))
                else:
                    errors.append('session %s case %d: %s, not reproduced (%s)\n%s' % (
                        j['session'], r['k'], r['status'], ag['status'], r['err'][-800:]))
                agg['incomplete'] += 1
            elif r['status'] == 'killed':
                errors.append('session %s was killed (memory?)' % j['session'])
            elif r['status'] == 'stopped':
                agg['incomplete'] += 1
                errors.append('session %s not finished within the time limit' % j['session'])
            elif r['status'] == 'harness-error':
                agg['incomplete'] += 1
    kn = known_findings(prop)
    knkeys = dict(kn)
    observed_known = {}
    real = []
    for v in viol:
        if v[0] in knkeys:
            observed_known[v[0]] = v
        else:
            real.append(v)
    for key, what in kn:
        if key in observed_known:
            note('KNOWN-FINDING: property=%s %s' % (prop, what))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    shown = {}
    for key, msg, j, k, trace in sorted(real, key=lambda v: (v[0], v[3])):
        if key in shown:
            shown[key] += 1
            continue
        shown[key] = 1
        if len(shown) > 8:
            continue
        name = '%s-%s.json' % (prop, hashlib.md5(('%s%s%s%s' % (key, j['session'], k, a.seed)).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, 'replays', name)
        json.dump(dict(property=prop, key=key, part=j['pi'], seed=j['seed'], session=j['session'], cases=j['cases'],
                       deep=j.get('deep'), k=k, msg=msg, trace=trace,
                       command='python3 /verif/check.py %s --replay %s' % (prop, path)), open(path, 'w'), indent=1)
        note('VIOLATION property=%s replay=%s' % (prop, path))
        note('  key: %s\n  %s' % (key, msg.replace('\n', '\n  ')[:3000]))
        if trace:
            note('  history: ' + ' ; '.join(trace[-12:])[:1500])
    for e in errors[:4]:
        note('CHECK-ERROR ' + e[:2500])
    wall = time.time() - T0
    if replay is None:
        ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
                  coverage=dict(evaluations=max(agg['checks'], 0), distinct_nontrivial=len(agg['distinct']),
                                rule=conf['rule'], samples=agg['samples'][:6] or ['(none)'],
                                cases=agg['cases'], sessions=agg['sessions'], incomplete_sessions=agg['incomplete'],
                                observed=dict(sorted(agg['counts'].items())), builds=need, build_s=round(build_s, 1)),
                  wall_s=round(wall, 1), assumptions=conf.get('assumptions', []),
                  violations=[dict(key=k, count=n) for k, n in shown.items()])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    note('%s %s: %d oracle comparisons in %d cases (%d distinct), %d sessions, build %.0f s, total %.0f s; '
         '%d violations, %d known findings, %d errors' % (prop, tier, agg['checks'], agg['cases'], len(agg['distinct']),
                                                          agg['sessions'], build_s, wall, len(shown),
                                                          len(observed_known), len(errors)))
    if shown:
        return 1
    if errors:
        return 2
    if agg['checks'] == 0 and replay is None:
        note('nothing was observed')
        return 2
    return 0


if __name__ == '__main__':
    main()
