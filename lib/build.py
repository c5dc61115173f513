"""Builds mairix from /repo's current working tree, in a scratch copy outside /repo.

A build is cached under /verif/.build/<hash of the sources>-<variant>/mairix, so
a changed source file always gives a new build and an unchanged one is reused.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')

GENERATED = {'datescan.c', 'datescan.h', 'fromcheck.c', 'fromcheck.h', 'nvpscan.c',
             'nvpscan.h', 'version.h', 'Makefile', 'config.log', 'mairix', 'docheck.c',
             'docheck'}
DFASYN_GENERATED = {'dfasyn', 'scan.c', 'parse.c', 'parse.h', 'parse.output'}

VARIANTS = {
    # what a user gets
    'plain': dict(CC='gcc', CFLAGS='-O1 -g'),
    # memory errors and undefined behaviour abort the run with a distinctive status
    'asan': dict(CC='clang', CFLAGS='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined '
                 '-fno-sanitize-recover=undefined -fno-sanitize=alignment,shift-base,pointer-overflow'),
    # reads of uninitialised memory (without the libraries that are not instrumented)
    'msan': dict(CC='clang', CFLAGS='-O1 -g -fno-omit-frame-pointer -fsanitize=memory',
                 CONF=['--disable-gzip-mbox', '--disable-bzip-mbox', '--disable-xz-mbox']),
}


FUZZ = {'fuzz-msg': 'msg.c', 'fuzz-mbox': 'mbox.c'}
FUZZ_LIBS = ['-lz', '-lbz2', '-llzma', '-lssl', '-lcrypto']
FUZZ_SAN = '-fsanitize=%s,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,shift-base,pointer-overflow'


def source_files():
    out = []
    for sub, skip in (('', GENERATED), ('dfasyn', DFASYN_GENERATED)):
        d = os.path.join(REPO, sub)
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f in skip or f.endswith(('.o', '.report', '.swp', '~')) or not os.path.isfile(p):
                continue
            out.append((os.path.join(sub, f), p))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for rel, p in files:
        with open(p, 'rb') as fh:
            data = fh.read()
        h.update(rel.encode() + b'\0' + hashlib.sha256(data).digest())
    return h.hexdigest()[:20]


HELPERS = {'fault': ['-shared', '-fPIC', '-ldl'], 'faketime': ['-shared', '-fPIC'], 'sched': ['-shared', '-fPIC', '-ldl'], 'relay': [], 'crash': ['-shared', '-fPIC', '-ldl', '-fno-builtin', '-fno-tree-loop-distribute-patterns']}


def helper(name):
    """Builds one of our own small C helpers; returns its path."""
    src = os.path.join(VERIF, 'lib', name + '.c')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'helper-%s-%s' % (name, h))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-o', tmp, src] + HELPERS[name], check=True)
        os.rename(tmp, out)
    return out


def build(variant='plain'):
    """Returns the path of a mairix binary (or fuzz target: None if it does not build) from the working tree."""
    if variant in HELPERS:
        return helper(variant)
    files = source_files()
    fuzz = variant in FUZZ
    v = dict(CC='clang', CFLAGS='-O1 -g -w ' + FUZZ_SAN % 'fuzzer-no-link') if fuzz else VARIANTS[variant]
    h = tree_hash(files)
    if fuzz:
        with open(os.path.join(VERIF, 'fuzz', FUZZ[variant]), 'rb') as f:
            h += hashlib.sha256(f.read()).hexdigest()
    key = hashlib.sha256((h + repr(v)).encode()).hexdigest()[:20] + '-' + variant
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, 'mairix')):
            return os.path.join(final, 'mairix')
        work = tempfile.mkdtemp(prefix='vpbuild-')
        try:
            os.mkdir(os.path.join(work, 'dfasyn'))
            for rel, p in files:
                shutil.copy2(p, os.path.join(work, rel))
            env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
                   'LC_ALL': 'C', 'HOME': work, 'ASAN_OPTIONS': 'detect_leaks=0', 'TZ': 'UTC'}
            cenv = dict(env)
            cenv['CC'] = v['CC']
            cenv['CFLAGS'] = v['CFLAGS']
            log = b''
            # dfasyn is a build-time generator: built plainly
            steps = [
                (['sh', './configure'] + v.get('CONF', []), cenv),
                (['make', '-C', 'dfasyn', 'CC=gcc', 'CFLAGS=-O1'], env),
                (['make', 'datescan.c', 'datescan.h', 'fromcheck.c', 'fromcheck.h', 'nvpscan.c',
                  'nvpscan.h', 'version.h'], env),
                (['make', '-j8', 'all'], env),
            ]
            if fuzz:
                # objects only: the program itself cannot be linked without its main()
                r = [subprocess.run(c, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                     for c, e in steps[:3] + [(['make', '-k', '-j8', 'all', 'CPPFLAGS=-Dmain=mairix_main'], env)]]
                objs = [o for o in sorted(os.listdir(work)) if o.endswith('.o')]
                cmd = ['clang', '-O1', '-g', '-w', '-I.', '-DHAS_STDINT_H', '-DHAS_INTTYPES_H'] + (FUZZ_SAN % 'fuzzer').split() + \
                    [os.path.join(VERIF, 'fuzz', FUZZ[variant])] + objs + ['-o', 'mairix'] + FUZZ_LIBS
                r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                if r.returncode:
                    return None
                steps = []
            for cmd, e in steps:
                r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                log += r.stdout
                if r.returncode != 0:
                    sys.stderr.write(log.decode('latin-1')[-4000:])
                    raise SystemExit('build of %s failed: %s' % (REPO, ' '.join(cmd)))
            tmp = final + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            shutil.copy2(os.path.join(work, 'mairix'), os.path.join(tmp, 'mairix'))
            # keep the cache small
            olds = sorted((d for d in os.listdir(CACHE) if d.endswith('-' + variant)
                           and not d.startswith('lock')),
                          key=lambda d: os.stat(os.path.join(CACHE, d)).st_mtime)
            for d in olds[:-4]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
            shutil.rmtree(final, ignore_errors=True)
            os.rename(tmp, final)
            return os.path.join(final, 'mairix')
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    for v in (sys.argv[1:] or list(VARIANTS) + list(HELPERS) + list(FUZZ)):
        print(build(v))
