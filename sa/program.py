"""Loads the resolved AST of /repo/src (dumped by extractor/extract.cpp) into one program."""
import concurrent.futures, contextlib, fcntl, glob, hashlib, json, os, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis could not be carried out (reported as an error, never as a verdict)."""


@contextlib.contextmanager
def locked():
    """Checks may run side by side: one of them builds, the others wait for it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise AnalysisError('extractor does not build:\n' + p.stdout[-2000:])
    os.replace(tmp, out)
    return out


def sources(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith('.cpp') or f.endswith('.h') or f.endswith('.hpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(repo):
    h = hashlib.sha256()
    for f in sources(repo):
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def extract(repo):
    with locked():
        return extract_locked(repo)


def extract_locked(repo):
    """One JSON dump per translation unit that the build compiles, from the current working tree."""
    exe = build_extractor()
    key = tree_hash(repo) + '-' + os.path.basename(exe)
    cache = os.path.join(BUILD, 'ast', hashlib.sha256((repo + key).encode()).hexdigest()[:24])
    done = os.path.join(cache, 'DONE')
    nolong = not os.path.exists(os.path.join(repo, 'third_party/bigint/src/bigint.cpp'))
    tus = [f for f in sources(repo) if f.endswith('.cpp') and not (nolong and os.path.basename(f) == 'FingerprintLONG.cpp')]
    if not os.path.exists(done):
        par = os.path.join(BUILD, 'ast')
        os.makedirs(par, exist_ok=True)
        # keep the cache small
        old = sorted(glob.glob(par + '/*'), key=os.path.getmtime)
        for o in old[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=par, prefix='tmp')
        flags = ['-std=c++20', '-I' + repo + '/src/include', '-I' + repo + '/src/fingerprint/include',
                 '-I' + repo + '/src/util/include', '-I' + repo + '/third_party/bigint/include', '-fsyntax-only',
                 '-Wno-everything', '-resource-dir', LLVM + '/lib/clang/18']

        def one(f):
            word = 'FingerprintLONG' if nolong and os.path.basename(f) == 'FingerprintStrategy.cpp' else ''
            o = os.path.join(tmp, os.path.relpath(f, repo).replace('/', '__') + '.json')
            with open(o, 'w') as fo:
                p = subprocess.run([exe, repo + '/src', f, word, '--'] + flags, stdout=fo, stderr=subprocess.PIPE, text=True, cwd=repo)
            if p.returncode or os.path.getsize(o) < 10:
                return '%s: %s' % (f, p.stderr[-800:])
            return None
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, tus) if e]
        if errs:
            shutil.rmtree(tmp, ignore_errors=True)
            raise AnalysisError('cannot parse: ' + '; '.join(errs[:3]))
        open(os.path.join(tmp, 'DONE'), 'w').close()
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return cache, tus


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        cache, self.tus = extract(self.repo)
        self.types, self.fns, self.defs, self.records, self.enums, self.globals = {}, {}, {}, {}, {}, {}
        for f in sorted(glob.glob(cache + '/*.json')):
            tu = os.path.basename(f)[:-5]
            d = json.load(open(f))
            self.types.update(d['types'])
            for u, fn in d['fns'].items():
                o = self.fns.get(u)
                if o is None:
                    self.fns[u] = fn
                else:
                    for k in fn:
                        o.setdefault(k, fn[k])
            for u, df in d['defs'].items():
                if u not in self.defs:
                    df['tu'] = tu
                    df['usr'] = u
                    self.defs[u] = df
            for q, r in d['records'].items():
                self.records.setdefault(q, r)
            self.enums.update(d['enums'])
            for q, g in d['globals'].items():
                g['tu'] = tu
                if q not in self.globals or ('init' in g and 'init' not in self.globals[q]):
                    self.globals[q] = g
        # an atomic scalar is its value: every access to it is a single indivisible step
        for k, t in list(self.types.items()):
            if t.get('q', '').startswith('std::atomic<') and t.get('ta'):
                v = dict(self.types.get(t['ta'][0], {'k': '?'}))
                v['atomic'] = 1
                if t.get('const'):
                    v['const'] = 1
                self.types[k] = v
        self.by_q = {}
        for u, fn in self.fns.items():
            self.by_q.setdefault(fn['q'], []).append(u)
        self.derived = {}
        for q, r in self.records.items():
            for b in r['bases']:
                self.derived.setdefault(b, set()).add(q)
        self.overriders = {}
        for u, fn in self.fns.items():
            for o in fn.get('ov', []):
                self.overriders.setdefault(o, set()).add(u)
        for u, d in self.defs.items():
            d['q'] = self.fns[u]['q']
            d['rel'] = os.path.relpath(d['file'], self.repo)

    # --- queries
    def T(self, t):
        return self.types.get(t, {'k': '?'})

    def q(self, usr):
        return self.fns[usr]['q'] if usr in self.fns else '?'

    def defs_q(self, q):
        """definitions with this qualified name"""
        return [self.defs[u] for u in self.by_q.get(q, []) if u in self.defs]

    def def1(self, q, must=True):
        ds = self.defs_q(q)
        if len(ds) == 1:
            return ds[0]
        if must:
            raise AnalysisError('anchor %s: %d definitions found' % (q, len(ds)))
        return None

    def bases_of(self, q):
        out, todo = [], [q]
        while todo:
            c = todo.pop(0)
            out.append(c)
            todo += self.records.get(c, {}).get('bases', [])
        return out

    def subclasses(self, q):
        out, todo = set(), [q]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, ()):
                if d not in out:
                    out.add(d)
                    todo.append(d)
        return out

    def all_overriders(self, usr):
        out, todo = set(), [usr]
        while todo:
            u = todo.pop()
            if u in out:
                continue
            out.add(u)
            todo += self.overriders.get(u, ())
        return out

    def final_overrider(self, cls, usr):
        """the function a virtual call of usr reaches on an object whose dynamic class is cls"""
        cand = self.all_overriders(usr)
        for c in self.bases_of(cls):
            for u in cand:
                if self.fns[u].get('cls') == c:
                    return u
        return usr

    def const_global(self, q):
        g = self.globals.get(q)
        if g and 'init' in g:
            i = g['init']
            if 'cv' in i:
                return int(i['cv'])
            if i['k'] == 'Int':
                return int(i['v'])
        return None


def walk(n):
    """all AST nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
