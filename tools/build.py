#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

Objects are cached by content hash under /verif/build (git-ignored); build() returns {'d': path, 'r': path}.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
B = os.path.join(VERIF, 'build')
OBJ = os.path.join(B, 'obj')

LIBFLAGS = ('-std=gnu11 -D_GNU_SOURCE -pthread -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD -fsanitize=thread --param tsan-distinguish-volatile=1 '
            '-fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fstack-protector-strong -fno-omit-frame-pointer -fno-pie -g -O1 -w').split()
CXXFLAGS = '-std=gnu++17 -D_GNU_SOURCE -O1 -g -fno-pie -w -fno-omit-frame-pointer'.split()
VARIANTS = {'d': [], 'r': ['-DNDEBUG']}
SPECIAL = {'sleep': 'sim_sleep_s', 'stdout': 'sim_stdout_f', 'stderr': 'sim_stderr_f', '__assert_fail': 'sim_assert_fail',
           '__stack_chk_fail': 'sim_stack_chk_fail'}
DANGEROUS = re.compile(r'^(pthread_(?!attr_|mutexattr_|condattr_|rwlockattr_)|sem_|epoll|poll$|ppoll|select$|pselect|timer_|timerfd|eventfd|signal$|sigaction|fork$|vfork|exec|system$|popen|mmap|munmap|mq_|aio_|cnd_|mtx_|thrd_|call_once|kill$|socket|recv|connect|bind|listen|accept|sched_(?!get_priority)|(sym)?link(at)?$|truncate$|f?chown|openat$|renameat|unlinkat|mkdirat|mkdtemp|tmpfile|scandir|glob$|n?ftw$|freopen|preadv?(64)?$|pwritev?(64)?$|readv$|sendmmsg|sendfile|splice|dup|chdir|chroot|mount)')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def lib_sources():
    c = os.path.join(REPO, 'src/c')
    txt = read(os.path.join(c, 'CMakeLists.txt')).decode()
    names = []
    for m in re.finditer(r'set \(C_FILES ([^)]*)\)', txt):
        names += [n for n in m.group(1).split() if n.endswith('.c')]
    names = list(dict.fromkeys(names))
    files = [os.path.join(c, n) for n in names if os.path.exists(os.path.join(c, n))]
    if len(files) < 10:
        files = [f for f in sorted(glob.glob(c + '/*.c')) if not f.endswith('/os.c')]
    return files


def write_if_changed(path, data):
    if os.path.exists(path) and read(path) == data.encode():
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(data)
    os.replace(tmp, path)


def nm(objs, flag):
    out = sh(['nm', flag] + objs)
    return {l.split()[-1] for l in out.splitlines() if l.strip() and not l.endswith(':')}


def cached(key, ext, make):
    path = os.path.join(OBJ, key + ext)
    if not os.path.exists(path):
        tmp = '%s.%d.tmp%s' % (path, os.getpid(), ext)
        make(tmp)
        os.replace(tmp, path)
    return path


def build(verbose=False, only=None):
    t0 = time.time()
    os.makedirs(OBJ, exist_ok=True)
    ver = read(os.path.join(REPO, 'VERSION')).decode().strip()
    gen = os.path.join(B, 'gen')
    defs = re.sub(r'\$\{IOT_VERSION\}', '.'.join(ver.split('.')[:3]), read(os.path.join(REPO, 'src/c/defs.h.in')).decode())
    defs = re.sub(r'#cmakedefine (\w+)', r'#define \1', defs)
    write_if_changed(os.path.join(gen, 'iot/defs.h'), defs)
    inc = ['-I' + gen, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src/c')]
    rh = [f for f in sorted(glob.glob(REPO + '/include/iot/**/*.h', recursive=True) + glob.glob(REPO + '/src/c/*.h')) if not f.endswith('/iot/defs.h')]
    libhdr = digest(defs, *[x for f in rh for x in (os.path.relpath(f, REPO), read(f))])
    srcs = lib_sources()
    simsrc = sorted(glob.glob(VERIF + '/sim/*.cpp'))
    scensrc = sorted(glob.glob(VERIF + '/scen/*.cpp'))
    simhdr = digest(*[read(f) for f in sorted(glob.glob(VERIF + '/sim/*.h') + glob.glob(VERIF + '/scen/*.h'))])
    pool = ThreadPoolExecutor(max_workers=8)

    def cxx(src, with_lib):
        key = digest('cxx', ' '.join(CXXFLAGS), simhdr, libhdr if with_lib else '', read(src), os.path.basename(src))
        extra = inc if with_lib else []
        return cached(key, '.o', lambda o: sh(['g++'] + CXXFLAGS + ['-I' + VERIF + '/sim', '-I' + VERIF + '/scen'] + extra + ['-c', src, '-o', o]))

    def lib(src, v):
        key = digest('lib', v, ' '.join(LIBFLAGS + VARIANTS[v]), libhdr, read(src), os.path.basename(src))
        return cached(key, '.o', lambda o: sh(['gcc'] + LIBFLAGS + VARIANTS[v] + inc + ['-c', src, '-o', o]))

    fl = {v: [pool.submit(lib, s, v) for s in srcs] for v in VARIANTS}
    fs = [pool.submit(cxx, s, False) for s in simsrc]
    fc = [pool.submit(cxx, s, True) for s in scensrc]
    simobj = [f.result() for f in fs]
    scenobj = [f.result() for f in fc]
    defined = nm(simobj, '--defined-only')
    redef = {n[4:]: n for n in defined if n.startswith('sim_') and re.match(r'^sim_[a-z]\w*$', n)}
    redef = {k: v for k, v in redef.items() if v not in SPECIAL.values()}
    redef.update(SPECIAL)
    maptxt = ''.join('%s %s\n' % kv for kv in sorted(redef.items()))
    out = {}
    for v in VARIANTS:
        raw = [f.result() for f in fl[v]]
        libdef = nm(raw, '--defined-only')
        redef_v = ''.join('%s %s\n' % kv for kv in sorted(redef.items()) if kv[0] not in libdef)
        mapfile = os.path.join(OBJ, digest('map', redef_v) + '.map')
        write_if_changed(mapfile, redef_v)

        def conv(o):
            key = digest('redef2', os.path.basename(o), redef_v)
            return cached(key, '.o', lambda t: sh(['objcopy', '--redefine-syms=' + mapfile, '--rename-section', '.text=libtext', '--rename-section', '.text.unlikely=libtext', '--rename-section', '.text.startup=libtext', o, t]))
        objs = list(pool.map(conv, raw))
        und = nm(objs, '-u') - nm(objs, '--defined-only') - defined
        bad = sorted(u for u in und if DANGEROUS.match(u.split('@')[0]))
        if bad:
            raise BuildError('the library uses operating system functions the simulator does not model: ' + ' '.join(bad))
        exe = cached(digest('exe', v, *map(os.path.basename, objs + simobj + scenobj)), '.simrun-' + v,
                     lambda t: sh(['g++', '-no-pie', '-o', t] + objs + simobj + scenobj + ['-lyaml', '-ldl', '-lm', '-lpthread']))
        out[v] = exe
    prune()
    if verbose:
        print('built in %.1f s' % (time.time() - t0))
    return out


def prune(limit=600 << 20):
    fs = sorted(glob.glob(OBJ + '/*'), key=os.path.getmtime, reverse=True)
    tot = 0
    now = time.time()
    for f in fs:
        try:
            tot += os.path.getsize(f)
            if tot > limit and now - os.path.getmtime(f) > 1800:
                os.unlink(f)
        except OSError:
            pass


if __name__ == '__main__':
    try:
        for v, p in build(True).items():
            link = os.path.join(B, 'simrun-' + v)
            if os.path.islink(link):
                os.unlink(link)
            os.symlink(p, link)
            print(v, p)
    except BuildError as e:
        sys.stderr.write('BUILD ERROR: %s\n' % e)
        sys.exit(2)
