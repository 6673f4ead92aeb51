#!/usr/bin/env python3
"""Build the simulator from /repo's working tree: the Pothos library (instrumented) + simulation runtime + one world.

Objects are cached under /verif/build by the content of everything that went into them (source, included headers, flags).
usage: build.py WORLD [WORLD...]   prints the path of each executable
"""
import hashlib, os, re, subprocess, sys, concurrent.futures, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
CXX = '/usr/bin/g++'
DEFS = ['-DNDEBUG', '-DHAVE_LIBNUMA', '-DPOCO_ENABLE_CPP11', '-DPOCO_ENABLE_CPP14', '-DPOCO_HAVE_FD_EPOLL',
        '-DPOCO_OS_FAMILY_UNIX', '-DPOCO_UNBUNDLED', '-DPOTHOS_DLL_EXPORTS', '-DPOTHOS_LIBRARY_NAME="libPothos.so.0.8.0"',
        '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE64_SOURCE', '-D_REENTRANT', '-D_THREAD_SAFE', '-D_XOPEN_SOURCE=500']
INCS = ['-I%s/lib' % REPO, '-I%s/include' % REPO, '-I/usr/include/muparserx', '-I/usr/include/nlohmann']
COMMON = ['-std=gnu++14', '-O1', '-g1', '-fPIE', '-w', '-fno-builtin-memcpy', '-fno-builtin-memmove']
LIBFLAGS = COMMON + ['-fsanitize=thread', '-include', VERIF + '/sim/simd-weak.hpp'] + DEFS + INCS
WORLDFLAGS = COMMON + ['-fsanitize=thread', '-I' + VERIF + '/sim', '-I' + REPO, '-include', VERIF + '/sim/simd-weak.hpp'] + DEFS + INCS
RTFLAGS = ['-std=gnu++17', '-O2', '-g1', '-fPIE', '-w', '-fno-builtin-malloc', '-I' + VERIF + '/sim']
LIBS = ['-lPocoFoundation', '-lPocoNet', '-lPocoUtil', '-lPocoXML', '-lPocoJSON', '-lmuparserx', '-lnuma', '-lrt', '-latomic', '-ldl', '-lpthread']
RUNTIME = ['simrt', 'main', 'kern']
WRAP = ['memcpy', 'memmove', 'memset']
# Parts with no concurrency, time or I/O that any simulated property depends on (documentation, JIT, evaluators, ...).
SKIP = ('Util/Builtin/BlockEval', 'Util/Builtin/D', 'Testing/', 'SIMD', 'Windows',
        'OSX', 'Other')
SUBST = {'MODULE_EXT': 'so', 'POTHOS_ROOT_ENV': 'POTHOS_ROOT', 'POTHOS_ROOT': '/nonexistent/pothos', 'CMAKE_INSTALL_DATADIR': 'share',
         'APPDATA_ENV': 'XDG_DATA_HOME', 'CMAKE_INSTALL_BINDIR': 'bin', 'CMAKE_INSTALL_LIBDIR': 'lib',
         'CMAKE_INSTALL_INCLUDEDIR': 'include', 'POTHOS_VERSION': '0.8.0-sim',
         'CMAKE_CXX_COMPILER': '/simfs/root/bin/cc'}

_hash = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash[p] = h
    return h


def lib_sources():
    with open(REPO + '/lib/CMakeLists.txt') as f:
        text = re.sub(r'#.*', '', f.read())
    out = []
    for tok in re.findall(r'[A-Za-z0-9_./]+\.cpp', text):
        if '/Test' in tok or tok.startswith('Test') or any(s in tok for s in SKIP):
            continue
        p = '%s/lib/%s' % (REPO, tok)
        if os.path.exists(p) and not tok.endswith('.in.cpp') and p not in out:
            out.append(p)
    for tok in ('System/Paths', 'System/Version', 'Plugin/Loader', 'Util/Builtin/GccClangCompilerSupport'):
        with open('%s/lib/%s.in.cpp' % (REPO, tok)) as f:
            t = re.sub(r'@([A-Z_]+)@', lambda m: SUBST.get(m.group(1), m.group(0)), f.read())
        g = '%s/gen/%s.cpp' % (BUILD, tok)
        os.makedirs(os.path.dirname(g), exist_ok=True)
        try:
            old = open(g).read()
        except OSError:
            old = None
        if old != t:
            with open(g, 'w') as f:
                f.write(t)
        out.append(g)
    out.append(VERIF + '/sim/stubs.cpp')
    return out


def compile_one(src, flags):
    """Return the object path for src, compiling only when no cached object has the same inputs."""
    key = hashlib.sha1(('\0'.join([src, CXX] + flags)).encode()).hexdigest()[:16]
    base = '%s/obj/%s-%s' % (BUILD, os.path.basename(src), key)
    os.makedirs(os.path.dirname(base), exist_ok=True)

    def obj_for(deps):
        h = hashlib.sha1()
        for d in deps:
            h.update(d.encode()); h.update(fhash(d).encode())
        return '%s-%s.o' % (base, h.hexdigest()[:16])

    try:
        with open(base + '.deps') as f:
            deps = f.read().split('\n')
        o = obj_for(deps)
        if os.path.exists(o):
            return o
    except OSError:
        pass
    tmp = '%s.%d.%d' % (base, os.getpid(), threading.get_ident())
    r = subprocess.run([CXX] + flags + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-6000:]))
    with open(tmp + '.d') as f:
        d = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
    deps = sorted(set(os.path.normpath(x) for x in d))
    with open(tmp + '.deps', 'w') as f:
        f.write('\n'.join(deps))
    o = obj_for(deps)
    os.replace(tmp + '.o', o)
    os.replace(tmp + '.deps', base + '.deps')
    os.unlink(tmp + '.d')
    return o


def world_sources(world):
    """A world is sim/worlds/<world>.cpp; files it names in a '// uses: a.cpp b.cpp' line are linked in as well (runtime flags)."""
    p = '%s/sim/worlds/%s.cpp' % (VERIF, world)
    extra = []
    with open(p) as f:
        for line in f:
            m = re.match(r'//\s*uses:\s*(.*)', line)
            if m:
                extra += ['%s/sim/%s' % (VERIF, x) for x in m.group(1).split()]
    return p, extra


def build(worlds, jobs=8):
    jobs_l = []
    for w in worlds:
        p, _ = world_sources(w)
        jobs_l.append((p, WORLDFLAGS))
    for s in lib_sources():
        jobs_l.append((s, LIBFLAGS))
    rt = ['%s/sim/%s.cpp' % (VERIF, x) for x in RUNTIME]
    for w in worlds:
        for e in world_sources(w)[1]:
            if e not in rt:
                rt.append(e)
    for s in rt:
        jobs_l.append((s, RTFLAGS))
    slow = ['ConvertContainers', 'worlds/', 'Framework/', 'ConvertInteg', 'ConvertFloat']
    jobs_l.sort(key=lambda j: min([i for i, s in enumerate(slow) if s in j[0]] or [99]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        objs = dict(zip([j[0] for j in jobs_l], ex.map(lambda j: compile_one(*j), jobs_l)))
    libobjs = [objs[s] for s in lib_sources()]
    out = []
    os.makedirs(BUILD + '/bin', exist_ok=True)
    for w in worlds:
        p, extra = world_sources(w)
        o = [objs[x] for x in ['%s/sim/%s.cpp' % (VERIF, x) for x in RUNTIME] + extra] + [objs[p]] + libobjs
        h = hashlib.sha1('\n'.join(o).encode()).hexdigest()[:16]
        exe = '%s/bin/%s-%s' % (BUILD, w, h)
        if not os.path.exists(exe):
            for f in os.listdir(BUILD + '/bin'):
                if f.startswith(w + '-') and '.tmp' not in f:
                    os.unlink(BUILD + '/bin/' + f)
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            cmd = [CXX, '-pie', '-rdynamic', '-o', tmp] + ['-Wl,--wrap=' + x for x in WRAP] + o + LIBS
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:  # something now refers to a part that is left out (see SKIP): it stays unresolved
                r = subprocess.run(cmd + ['-Wl,--unresolved-symbols=ignore-all'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('linking %s failed:\n%s' % (w, r.stdout[-6000:]))
            os.replace(tmp, exe)
        out.append(exe)
    return out


if __name__ == '__main__':
    try:
        for e in build(sys.argv[1:]):
            print(e)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
