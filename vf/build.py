"""Builds private, instrumented copies of the extension from /repo's working tree.

variant   flags
plain     -O1, as the release build (NDEBUG, OpenMP)
asan      AddressSanitizer + UndefinedBehaviorSanitizer (reports fatal), NDEBUG
tsan      ThreadSanitizer, with the OpenMP runtime of native/omp_rt.cc
sched     as plain, with that runtime (random delays, exact thread numbers)
Every variant adds native/probe.cc, which exports a few C entry points the
monitors call through ctypes.  Nothing is written inside /repo.
"""
import ast, concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'


class BuildError(Exception):
    pass


COMMON = ['-std=gnu++17', '-DB_64', '-DNDEBUG', '-fPIC', '-fopenmp', '-w',
          '-g1', '-fno-omit-frame-pointer']
VARIANTS = {
    'plain': ['-O1', '-fwrapv'],
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
             '-fno-sanitize-recover=undefined'],
    'tsan': ['-O1', '-fwrapv', '-fsanitize=thread'],
    'sched': ['-O1', '-fwrapv'],
}
OWN_OMP = ('tsan', 'sched')


def sources(repo):
    try:
        tree = ast.parse(open(os.path.join(repo, 'setup.py')).read())
        for node in ast.walk(tree):
            if (isinstance(node, ast.Assign) and
                    getattr(node.targets[0], 'id', '') == 'sources_list'):
                out = []
                for e in node.value.elts:
                    if isinstance(e, ast.Call):
                        out.append(os.path.join(*[ast.literal_eval(a) for a in e.args]))
                    else:
                        out.append(ast.literal_eval(e))
                if out:
                    return out
    except Exception:
        pass
    out = ['src/pygraphillion.cc']
    for d in ('src/SAPPOROBDD', 'src/graphillion'):
        for f in sorted(glob.glob(os.path.join(repo, d, '**', '*.cc'), recursive=True)):
            out.append(os.path.relpath(f, repo))
    return out


def py_include():
    return subprocess.check_output(
        [PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);'
                   'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
        text=True).split()


def build(variant, outdir, repo=None, jobs=None, extra_probe=True):
    """Returns the directory holding _graphillion*.so for `variant`."""
    repo = repo or REPO
    inc, suffix = py_include()
    flags = COMMON + VARIANTS[variant] + [
        '-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/SAPPOROBDD'), '-I' + inc]
    objdir = os.path.join(outdir, variant, 'obj')
    libdir = os.path.join(outdir, variant, 'lib')
    shutil.rmtree(os.path.join(outdir, variant), ignore_errors=True)
    os.makedirs(objdir)
    os.makedirs(libdir)
    env = dict(os.environ, CCACHE_DIR=os.path.join(VERIF, '.cache', 'ccache'), CCACHE_MAXSIZE='2G',
               CCACHE_COMPILERCHECK='content')
    cxx = (['ccache'] if shutil.which('ccache') and not os.environ.get('VF_NOCCACHE') else []) + ['g++']

    def compile_one(src, obj, add=()):
        p = subprocess.run(cxx + flags + list(add) + ['-c', src, '-o', obj],
                           capture_output=True, text=True, env=env)
        return p.returncode, p.stderr

    srcs = [(os.path.join(repo, s), os.path.join(objdir, s.replace('/', '_') + '.o')) for s in sources(repo)]
    bddc = [s for s in srcs if s[0].endswith('SAPPOROBDD/bddc.cc')]
    rest = [s for s in srcs if s not in bddc]
    # big translation units first
    rest.sort(key=lambda s: -os.path.getsize(s[0]) - (10**7 if 'graphset.cc' in s[0] else 0))
    objs = []
    with cf.ThreadPoolExecutor(jobs or max(2, os.cpu_count() or 2)) as ex:
        futs = {ex.submit(compile_one, s, o): (s, o) for s, o in rest}
        # bddc.cc is compiled through the probe, which includes it, so that its
        # tables can be audited; when the probe no longer fits the file, the
        # file is compiled as it is and the structural audit is unavailable.
        probe_obj = os.path.join(objdir, 'probe.o')
        fp = None
        if bddc and extra_probe:
            fp = ex.submit(compile_one, os.path.join(VERIF, 'native', 'probe.cc'), probe_obj,
                           ['-DVF_BDDC="%s"' % bddc[0][0], '-fpermissive'])
        own = None
        if variant in OWN_OMP:
            own = ex.submit(compile_one, os.path.join(VERIF, 'native', 'omp_rt.cc'), os.path.join(objdir, 'omp_rt.o'))
        for f in cf.as_completed(futs):
            rc, err = f.result()
            s, o = futs[f]
            if rc:
                raise BuildError('%s does not compile:\n%s' % (s, err[-3000:]))
            objs.append(o)
        if fp is not None and fp.result()[0] == 0:
            objs.append(probe_obj)
        else:
            if fp is not None:
                sys.stderr.write('note: the table probe does not fit bddc.cc; structural audit off\n'
                                 + fp.result()[1][-1500:])
            for s, o in bddc:
                rc, err = compile_one(s, o)
                if rc:
                    raise BuildError('%s does not compile:\n%s' % (s, err[-3000:]))
                objs.append(o)
        if own is not None:
            if own.result()[0]:
                raise BuildError('native/omp_rt.cc does not compile:\n' + own.result()[1][-3000:])
            objs.append(os.path.join(objdir, 'omp_rt.o'))
    lib = os.path.join(libdir, '_graphillion' + suffix)
    last = ['-fopenmp'] if variant not in OWN_OMP else ['-Wl,-Bsymbolic-functions']
    p = subprocess.run(['g++', '-shared', '-o', lib] + sorted(objs) + VARIANTS[variant] + last,
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError('link failed:\n' + p.stderr[-3000:])
    if variant in OWN_OMP:
        left = [l.split()[-1] for l in subprocess.run(['nm', '-D', '--undefined-only', lib], capture_output=True, text=True).stdout.splitlines()]
        left = [x for x in left if x.startswith(('GOMP_', 'omp_'))]
        if left:
            raise BuildError('native/omp_rt.cc lacks ' + ', '.join(left))
    shutil.rmtree(objdir, ignore_errors=True)
    return libdir


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2]), round(time.time() - t, 1), 's')
