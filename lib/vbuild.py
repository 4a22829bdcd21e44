"""Builds harness executables from /repo's current working tree.

Sources are found by following #include lines: a header x.h pulls in the x.cpp of the same
path, and a translation unit is taken when every include in its closure can be resolved
(in /repo, the system, or /verif/shim).  Objects go into an archive, so only what the
harness really references gets linked.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
INC = re.compile(r'^\s*#\s*include\s+([<"])([^>"]+)[>"]', re.M)
PKG = None

def pkg():
    global PKG
    if PKG is None:
        def run(*a):
            r = subprocess.run(['pkg-config', *a], capture_output=True, text=True)
            return r.stdout.split() if r.returncode == 0 else []
        PKG = (run('--cflags', 'grpc++', 'protobuf', 'libglog'),
               run('--libs', 'grpc++', 'protobuf', 'libglog'))
    return PKG

SYS = None
def sysdirs():
    global SYS
    if SYS is None:
        r = subprocess.run(['g++', '-E', '-Wp,-v', '-xc++', '/dev/null'], capture_output=True, text=True)
        SYS = [os.path.normpath(l.strip()) for l in r.stderr.splitlines() if l.startswith(' ')]
    return SYS

def shimdirs(shim):
    """stand-ins for the absent libraries: True for the value types, 'full' also for the
    descriptor, expression and storage interfaces, 'engine' also for plans and the task scheduler"""
    return {'full': [os.path.join(VERIF, 'shim2')],
            'engine': [os.path.join(VERIF, 'shim3'), os.path.join(VERIF, 'shim2')]}.get(shim, []) + ([os.path.join(VERIF, 'shim')] if shim else [])

class Tree:
    def __init__(self, shim):
        self.shim = shimdirs(shim)
        self.roots = self.shim + [os.path.join(REPO, 'include'), os.path.join(REPO, 'src'),
                      os.path.join(VERIF, 'harness')]
        self.cache = {}
        self.closure_cache = {}
        self.protos = [os.path.relpath(p, REPO + '/src') for p in
                       glob.glob(REPO + '/src/**/*.proto', recursive=True)]
        self.pbh = {p[:-6] + '.pb.h' for p in self.protos}

    def includes(self, path):
        """[(resolved path | 'proto:x' | None for missing, name)]; system headers are dropped."""
        if path in self.cache:
            return self.cache[path]
        out = []
        text = open(path, errors='replace').read()
        for kind, name in INC.findall(text):
            hit = None
            if kind == '"':
                q = os.path.normpath(os.path.join(os.path.dirname(path), name))
                if os.path.isfile(q):
                    hit = q
            if hit is None:
                for r in self.roots:
                    q = os.path.join(r, name)
                    if os.path.isfile(q):
                        hit = os.path.normpath(q)
                        break
            if hit is None and name in self.pbh:
                hit = 'proto:' + name[:-5]
            if hit is None:
                if name.startswith('performance-tools/') or name == 'likwid-marker.h':   # only used under a define nobody sets
                    continue
                if any(os.path.isfile(os.path.join(d, name)) for d in sysdirs()) or '__has_include(<%s>)' % name in text:
                    continue
                out.append((None, name))
            else:
                out.append((hit, name))
        self.cache[path] = out
        return out

    def closure(self, path):
        """(set of files, set of protos, set of missing)"""
        if path in self.closure_cache:
            return self.closure_cache[path]
        seen, protos, missing, st = set(), set(), set(), [path]
        while st:
            p = st.pop()
            if p in seen:
                continue
            seen.add(p)
            for hit, name in self.includes(p):
                if hit is None:
                    missing.add(name)
                elif hit.startswith('proto:'):
                    protos.add(hit[6:])
                else:
                    st.append(hit)
        self.closure_cache[path] = (seen, protos, missing)
        return seen, protos, missing

    def sources(self, mains, extra=(), exclude=()):
        todo = list(mains) + [os.path.join(REPO, e) for e in extra
                              if os.path.isfile(os.path.join(REPO, e))]
        srcs, protos, skipped = [], set(), {}
        done = set()
        while todo:
            s = todo.pop(0)
            if s in done:
                continue
            done.add(s)
            files, pr, missing = self.closure(s)
            if missing:
                skipped[s] = sorted(missing)
                if s in mains:
                    raise SystemExit('harness %s misses %s' % (s, sorted(missing)))
                continue
            srcs.append(s)
            protos |= pr
            for f in sorted(files):
                for r in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src')):
                    if f.startswith(r + '/') and f.endswith('.h'):
                        c = os.path.join(REPO, 'src', os.path.relpath(f, r))[:-2] + '.cpp'
                        rel = os.path.relpath(c, REPO)
                        if os.path.isfile(c) and rel not in exclude and \
                                not any(e.endswith('/') and rel.startswith(e) for e in exclude):
                            todo.append(c)
        # imported protos
        pst = list(protos)
        while pst:
            p = pst.pop()
            t = open(os.path.join(REPO, 'src', p + '.proto')).read()
            for i in re.findall(r'^\s*import\s+"([^"]+)\.proto"', t, re.M):
                if i + '.proto' in self.protos and i not in protos:
                    protos.add(i)
                    pst.append(i)
        return srcs, sorted(protos), skipped

COMMON = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-fdiagnostics-color=never',
          '-DBOOST_THREAD_VERSION=4', '-D_GLIBCXX_ASSERTIONS', '-w', '-pthread', '-ffunction-sections']
MODES = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr,nonnull-attribute', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
}
EXTRALIBS = ['-lnuma', '-lboost_thread', '-lboost_filesystem', '-lboost_system', '-ltbb', '-lgmpxx', '-lgmp', '-ldl']
WRAPS = ["pthread_cond_clockwait", "pthread_cond_timedwait", 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock',
         '_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv',
         '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE']

def esc(s):
    return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')

class BuildError(RuntimeError):
    def __init__(self, msg, units=()):
        super().__init__(msg)
        self.units = units

def build(targets):
    """leaving sources out and compiling several in one unit only save time: when that does not work, it is undone"""
    split = set()
    while True:
        try:
            return build_with(targets, split)
        except BuildError as e:
            new = set(e.units) - split
            if os.environ.get('VERIF_DEBUG'):
                sys.stderr.write('retry: %s\n%s\n' % (sorted(new), e))
            if new:
                split |= new
            elif any(t.get('lean') for t in targets):
                targets = [dict(t, lean=()) for t in targets]
            else:
                raise

# sources whose file-local names clash with those of their neighbours
ALONE = {'src/jogasaki/executor/process/impl/ops/find.cpp', 'src/jogasaki/utils/decimal.cpp', 'src/jogasaki/executor/function/builtin_scalar_functions.cpp',
         'src/jogasaki/executor/process/impl/ops/operator_builder.cpp'}
GROUP = 10

def units(srcs, mains, split, where):
    """[(file to compile, sources in it)]"""
    out, group = [], []
    def flush():
        if len(group) == 1:
            out.append((group[0], list(group)))
        elif group:
            text = ''.join('#include "%s"\n' % g for g in group)
            f = '%s/unit/%s.cpp' % (where, hashlib.md5(text.encode()).hexdigest()[:12])
            if not os.path.isfile(f):
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, 'w').write(text)
            out.append((f, list(group)))
        group.clear()
    last = None
    for s in sorted(srcs):
        if s in mains or s in split or not s.startswith(REPO + '/src/') or os.path.relpath(s, REPO) in ALONE:
            out.append((s, [s]))
            continue
        group.append(s)
        if len(group) == GROUP:
            flush()
    flush()
    return out

def build_with(targets, split=()):
    """targets: list of dict(name, main, mode, extra, exclude, shim, wrap, libs, flags).
    Returns {name: exe}; raises BuildError with the log when something does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    cflags, libs = pkg()
    trees = {}
    out = ['ninja_required_version = 1.5', 'builddir = ' + BUILD,
           'rule cxx', '  command = g++ $flags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
           'rule ar', '  command = rm -f $out && ar rcs $out $in',
           'rule link', '  command = g++ $flags $objs -o $out $libs',
           'rule protoc', '  command = protoc -I' + REPO + '/src --cpp_out=' + BUILD + '/protos $in']
    emitted = set()
    unit_of = {}
    exes = {}
    allprotos = set()
    plans = []
    for t in targets:
        shim = t.get('shim', False)
        tree = trees.setdefault(shim, Tree(shim))
        mains = [os.path.join(VERIF, 'harness', m) for m in ([t['main']] if isinstance(t['main'], str) else t['main'])]
        srcs, protos, skipped = tree.sources(mains, t.get('extra', ()), tuple(t.get('exclude', ())) + tuple(t.get('lean', ())))
        allprotos |= set(protos)
        plans.append((t, mains, srcs, protos, skipped))
    os.makedirs(BUILD + '/protos', exist_ok=True)
    for p in sorted(allprotos):
        o = BUILD + '/protos/' + p
        out.append('build %s.pb.cc %s.pb.h: protoc %s' % (o, o, REPO + '/src/' + p + '.proto'))
    pbhs = ' '.join(BUILD + '/protos/' + p + '.pb.h' for p in sorted(allprotos))
    for t, mains, srcs, protos, skipped in plans:
        mode = t.get('mode', 'asan')
        shim = t.get('shim', False)
        inc = ['-I' + d for d in shimdirs(shim)] + \
            ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + BUILD + '/protos', '-I' + VERIF + '/harness']
        base = COMMON + MODES[mode] + inc + cflags + t.get('flags', [])
        tag = mode + ({True: '-shim', 'full': '-full', 'engine': '-engine'}[shim] if shim else '') + ('-' + hashlib.md5(' '.join(t.get('flags', [])).encode()).hexdigest()[:6] if t.get('flags') else '')
        objs, mainobjs = [], []
        allsrc = [(s, [s]) for s in srcs]
        if shim == 'engine':
            allsrc = units(srcs, mains, split, BUILD)
        allsrc += [(BUILD + '/protos/' + p + '.pb.cc', []) for p in protos]
        for s, members in allsrc:
            rel = os.path.relpath(s, '/')
            o = '%s/%s/%s.o' % (BUILD, tag, rel)
            if len(members) > 1:
                unit_of[o] = members
            if o not in emitted:
                emitted.add(o)
                out.append('build %s: cxx %s || %s' % (o, s, pbhs))
                out.append('  flags = ' + ' '.join(base))
            (mainobjs if s in mains else objs).append(o)
        arch = '%s/%s/lib%s.a' % (BUILD, tag, t['name'])
        exe = '%s/%s/%s' % (BUILD, tag, t['name'])
        if objs:
            out.append('build %s: ar %s' % (arch, ' '.join(objs)))
        out.append('build %s: link %s %s' % (exe, ' '.join(mainobjs), arch if objs else ''))
        wrap = ['-Wl,--wrap=' + w for w in WRAPS] if t.get('wrap') else []
        wrap += ['-Wl,--wrap=' + w for w in t.get('wrapsym', [])]
        out.append('  flags = ' + ' '.join(COMMON + MODES[mode] + wrap + ['-Wl,--gc-sections']))
        out.append('  objs = ' + ' '.join(mainobjs + ([arch] if objs else [])))
        out.append('  libs = ' + ' '.join(['-Wl,--as-needed'] + libs + EXTRALIBS + t.get('libs', [])))
        exes[t['name']] = exe
        if os.environ.get('VERIF_VERBOSE'):
            print(t['name'], 'sources:', [os.path.relpath(s, REPO) for s in srcs if s.startswith(REPO)])
            print('  skipped:', {os.path.relpath(k, REPO): v for k, v in skipped.items()})
    nf = '%s/%s.ninja' % (BUILD, '-'.join(sorted({t['name'].split('.')[0] for t in targets}))[:60])
    open(nf, 'w').write('\n'.join(out) + '\n')
    r = subprocess.run(['ninja', '-f', nf, '-C', BUILD, '-k0' if unit_of else '-k1', '-j%d' % (os.cpu_count() or 4)] + sorted(exes.values()),
                       capture_output=True, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode != 0:
        keep = [l for l in r.stdout.splitlines() if not re.match(r'(\[\d+/\d+\] |g\+\+ )', l)]
        bad = [m for l in keep if l.startswith('FAILED: ') for o in l[8:].split() for m in unit_of.get(o, ())]
        raise BuildError('\n'.join(keep)[:6000] + r.stderr[-2000:], bad)
    return exes
