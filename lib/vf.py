"""Framework of the model-based checks: builds the code under test, runs TLC,
turns TLC's state graph into scripts, runs them on the real code and has TLC
validate the recorded traces against the specification.

Every check is: spec (TLA+) --TLC--> exhaustive verdict on the model + its
transitions; transitions + seeded random histories --harness--> traces of the
real code; traces --TLC (Trace_<spec>)--> accepted or rejected.
"""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPARTA = os.path.join(REPO, 'sparta')
BUILD = os.path.join(VERIF, 'build')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
EXCLUDED_SRC = {'CherryPickFastCheckpointer.cpp', 'ReportStatsCollector.cpp', 'MemoryProfiler.cpp'}
BASE_FLAGS = ['-DRAPIDJSON_NOMEMBERITERATORCLASS', '-DSIMDB_ENABLED=0', '-DSPARTA_VERSION="1a694a8"',
              '-I' + SPARTA + '/.']
LIB_FLAGS = BASE_FLAGS + ['-O3', '-DNDEBUG', '-std=gnu++17', '-Werror', '-fPIC', '-Wdeprecated', '-pedantic',
             '-Wextra', '-Wall', '-Winline', '-Winit-self', '-Wno-unused-function', '-Wuninitialized',
             '-Wno-sequence-point', '-Wno-inline', '-Wno-unknown-pragmas', '-Woverloaded-virtual',
             '-Wno-unused-parameter', '-Wno-missing-field-initializers']
HARNESS_FLAGS = BASE_FLAGS + ['-O1', '-DNDEBUG', '-std=gnu++17', '-fPIC', '-w', '-I' + os.path.join(VERIF, 'harness')]
LIBS = ['-lyaml-cpp', '-lz', '-lboost_date_time', '-lboost_iostreams', '-lboost_serialization', '-lboost_timer',
        '-lboost_program_options', '-lrt', '-lpthread', '-ldl']


class CheckError(Exception):
    """The machinery itself failed (exit 2): says nothing about the property."""


class BuildError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def _ccache_env():
    env = dict(os.environ)
    d = os.path.join(BUILD, 'ccache')
    if not os.path.isdir(d):
        os.makedirs(BUILD, exist_ok=True)
        tmp = d + '.tmp%d' % os.getpid()
        if os.path.isdir('/opt/vp/ccache'):
            subprocess.run(['cp', '-a', '/opt/vp/ccache', tmp], check=False)
        else:
            os.makedirs(tmp)
        os.rename(tmp, d)
    env['CCACHE_DIR'] = d
    env['CCACHE_MAXSIZE'] = '2G'
    for k in ('CCACHE_READONLY', 'LC_CTYPE', 'LC_ALL', 'LC_MESSAGES', 'LANG', 'LANGUAGE', 'CCACHE_DISABLE'):
        env.pop(k, None)      # locale variables are part of ccache's key
    return env


def _cc(args, env):
    cmd = (['ccache'] if shutil.which('ccache') else []) + ['g++'] + args
    p = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=os.path.join(BUILD, 'obj'))
    if p.returncode != 0:
        raise BuildError('compilation failed: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _sources():
    return sorted(f for f in os.listdir(os.path.join(SPARTA, 'src')) if f.endswith('.cpp') and f not in EXCLUDED_SRC)


def _compile(srcs, harnesses, extra_flags, env):
    jobs = []
    for h in harnesses:
        src = os.path.join(VERIF, 'harness', h + '.cpp')
        jobs.append((HARNESS_FLAGS + (extra_flags or []) + ['-c', src, '-o', 'h_' + h + '.o'],))
    for s in srcs:
        o = s + '.o'
        jobs.append((LIB_FLAGS + ['-MD', '-MT', o, '-MF', o + '.d', '-o', o, '-c', os.path.join(SPARTA, 'src', s)],))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for r in [ex.submit(_cc, j[0], env) for j in jobs]:
            r.result()


def _link(h, srcs, xargs=()):
    obj = os.path.join(BUILD, 'obj')
    lib = os.path.join(BUILD, 'libsparta.a')
    if os.path.exists(lib):
        os.remove(lib)
    subprocess.run(['ar', 'qc', lib] + [s + '.o' for s in srcs], check=True, cwd=obj)
    subprocess.run(['ranlib', lib], check=True)
    exe = os.path.join(BUILD, h)
    p = subprocess.run(['g++', 'h_' + h + '.o', lib, '-o', exe, *xargs] + LIBS, cwd=obj, capture_output=True, text=True)
    return exe, p


def build(harnesses, extra_flags=None):
    """Compile the library from /repo's working tree and the named harnesses; returns {name: exe}.
    Only the library sources a harness links (lib/need.json) are compiled, unless the link fails."""
    with _Lock():
        env = _ccache_env()
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        need = {}
        if os.path.exists(os.path.join(VERIF, 'lib', 'need.json')):
            need = json.load(open(os.path.join(VERIF, 'lib', 'need.json')))
        every = _sources()
        srcs = every
        if all(h in need for h in harnesses):
            srcs = [s for s in every if any(s in need[h] for h in harnesses)]
        _compile(srcs, harnesses, extra_flags, env)
        exes = {}
        for h in harnesses:
            exe, p = _link(h, srcs)
            if p.returncode != 0 and srcs != every:
                srcs = every
                _compile(srcs, [], None, env)
                exe, p = _link(h, srcs)
            if p.returncode != 0:
                raise BuildError('link of %s failed\n%s' % (h, p.stderr[-3000:]))
            exes[h] = exe
        return exes


# ---------------------------------------------------------------- TLC
def _work(name):
    d = os.path.join(BUILD, 'work', '%s-%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_tlc(module, cfg_text, workdir, env=None, workers=4, timeout=600, args=(), heap='6g', modtext=None, xprops=()):
    """Run TLC on spec/<module>.tla (or modtext) with a config given as text."""
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith('.tla'):
            dst = os.path.join(workdir, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(VERIF, 'spec', f), dst)
    if modtext is not None:
        with open(os.path.join(workdir, module + '.tla'), 'w') as f:
            f.write(modtext)
    with open(os.path.join(workdir, module + '.cfg'), 'w') as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(workdir, module + '.out')
    meta = os.path.join(workdir, 'meta')
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Dtlc2.tool.queue.DiskStateQueue.BufSize=2000000', *xprops, '-cp', TLA_CP, 'tlc2.TLC', '-config',
           module + '.cfg', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', *args, module + '.tla']
    with open(out, 'w') as fo:
        try:
            rc = subprocess.run(cmd, cwd=workdir, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout, env=e).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def _stats(txt):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', txt)
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def model_check(name, module, cfg_text, edges=False, timeout=600, workers=None, heap='6g', modtext=None):
    """Exhaustive TLC run. Returns dict(states, transitions, edges=[(f, op, t)], inits)."""
    wd = _work('mc_' + name)
    t0 = time.time()
    cfg = cfg_text
    if edges:
        cfg += '\nACTION_CONSTRAINT EmitEdge\n'
        workers = 1
    rc, out = run_tlc(module, cfg, wd, workers=workers or 6, timeout=timeout, heap=heap, modtext=modtext)
    E, inits, rest = [], [], []
    ids = {}

    def nid(s):
        return ids.setdefault(s, len(ids))
    with open(out) as f:
        for line in f:
            if line.startswith('"EDGE '):
                j = json.loads(json.loads(line.strip())[5:])
                E.append((nid(json.dumps(j['f'], sort_keys=True)), json.dumps(j['o'], sort_keys=True),
                          nid(json.dumps(j['t'], sort_keys=True)), j.get('i', 0)))
            else:
                rest.append(line)
    txt = ''.join(rest)
    gen, dist = _stats(txt)
    if rc != 0 or 'Model checking completed. No error has been found' not in txt:
        raise CheckError('TLC on model %s failed (rc %s): the specification itself violates a property or is broken\n%s'
                         % (name, rc, txt[-3000:]))
    shutil.rmtree(wd, ignore_errors=True)
    log('  model %-28s %8d distinct states %9d transitions  %5.1fs' % (name, dist, gen, time.time() - t0))
    return dict(name=name, states=dist, transitions=gen, edges=E, ids=ids)


def cover(mc, maxlen=60, rng=None, limit=None):
    """Walks from initial states covering every emitted transition. Returns list of op lists."""
    adj = {}
    roots = []
    for (f, o, t, level) in mc['edges']:
        adj.setdefault(f, {})[(o, t)] = None      # an operation may have several outcomes
        if level == 1 and (not roots or roots[-1] != f) and f not in roots:
            roots.append(f)
    # BFS tree
    par = {r: None for r in roots}
    q = list(roots)
    for u in q:
        for o, v in adj.get(u, {}):
            if v not in par:
                par[v] = (u, o)
                q.append(v)
    un = {u: list(d) for u, d in adj.items()}
    if rng:
        for u in un:
            rng.shuffle(un[u])
    walks = []
    order = list(q)
    total = 0
    for u in order:
        while un.get(u):
            path = []
            x = u
            while par[x] is not None:
                path.append(par[x][1])
                x = par[x][0]
            root = x
            path.reverse()
            cur = u
            while len(path) < maxlen:
                if un.get(cur):
                    o, v = un[cur].pop()
                    path.append(o)
                    cur = v
                else:
                    # short hop to a neighbour with uncovered edges
                    hop = None
                    for o, v in adj.get(cur, {}):
                        if un.get(v):
                            hop = (o, v)
                            break
                    if not hop:
                        break
                    path.append(hop[0])
                    cur = hop[1]
            walks.append((root, [json.loads(p) for p in path]))
            total += len(path)
            if limit and total > limit:
                mc['covered'] = total
                return walks
    left = sum(1 for u in un if un[u])
    if left:
        raise CheckError('%d states of the graph of %s not covered' % (left, mc['name']))
    return walks


SIM_TMPL = """---- MODULE SIM_%(spec)s ----
EXTENDS %(spec)s
VARIABLE hist
SInit == Init /\\ hist = <<>>
%(groups)s
SNext == %(snext)s
SSpec == SInit /\\ [][SNext]_<<vars, hist>>
CfgsDef == {%(cfgs)s}
MOpsDef == {%(mops)s}
Report == (Len(hist) = %(depth)d) => PrintT("WALK " \\o ToJson([a |-> a0, h |-> hist]))
====
"""


def simulate(name, spec, cfgs, mops, consts, num, depth, seed, timeout=600, weights=None):
    """Random behaviours of the specification (TLC -simulate), as cases for the harness."""
    wd = _work('sim_' + name)
    t0 = time.time()
    tl = lambda x: '<<%s>>' % ','.join(map(str, x))
    W = min(6, num)
    groups = {}
    for m in mops:
        groups.setdefault(m[0], []).append('<<"%s", %s>>' % (m[0], tl(m[1:])))
    # one action per kind of operation, so that each kind is equally likely; the domains mention a
    # variable lest TLC split the actions further
    gtext = '\n'.join('G_%s == {%s}\nA_%s(z) == \\E m \\in {x \\in G_%s : Len(hist) >= 0} : Do(m[1], m[2]) /\\ hist\' = Append(hist, <<m[1]>> \\o m[2])' % (g, ','.join(sorted(set(v))), g, g) for g, v in groups.items())
    snext = ' \\/ '.join('A_%s(%d)' % (g, z) for g in groups for z in range((weights or {}).get(g, 1)))
    cfg = 'CONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\nSPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n' + consts

    def one(k):
        w = os.path.join(wd, str(k))
        os.makedirs(w)
        n = num // W + (1 if k < num % W else 0)
        text = SIM_TMPL % dict(spec=spec, cfgs=','.join(tl(x) for x in (cfgs[k::W] or [cfgs[k % len(cfgs)]])), depth=depth, groups=gtext, snext=snext,
                               mops=','.join('<<"%s", %s>>' % (m[0], tl(m[1:])) for m in mops))
        rc, out = run_tlc('SIM_' + spec, cfg, w, workers=1, timeout=timeout, modtext=text, heap='2g',
                          args=('-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(seed * 1000 + k)))
        cases = []
        with open(out, errors='replace') as f:
            txt = f.read()
        seen = set()         # TLC looks at all successors of the last but one state: one line each
        for line in txt.splitlines():
            if line.startswith('"WALK '):
                j = json.loads(json.loads(line)[5:])
                key = json.dumps([j['a'], j['h'][:-1]])
                if key in seen:
                    continue
                seen.add(key)
                cases.append((j['a'], [op(x[0], *x[1:]) for x in j['h']]))
        if len(cases) < n or 'Error:' in txt:
            raise CheckError('simulation of %s failed (rc %s, %d of %d walks)\n%s' % (name, rc, len(cases), n, txt[-2500:]))
        return cases[:n]
    with ThreadPoolExecutor(W) as ex:
        res = [c for r in ex.map(one, range(W)) for c in r]
    shutil.rmtree(wd, ignore_errors=True)
    log('  walks %-28s %8d behaviours of %d steps        %5.1fs' % (name, len(res), depth, time.time() - t0))
    return res


TRACE_TMPL = '''---- MODULE Trace_%(mod)s ----
EXTENDS %(mod)s, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
IsEnd(i) == IF i > Len(Trace) THEN TRUE ELSE Trace[i].o = "case"
TInit == \\E i \\in {j \\in 1..Len(Trace) : Trace[j].o = "case"} : l = i + 1 /\\ TraceInit(Trace[i])
TNext == \\/ /\\ ~IsEnd(l)
            /\\ TraceStep(Trace[l])
            /\\ l' = l + 1
         \\/ IsEnd(l) /\\ UNCHANGED tvars
TSpec == TInit /\\ [][TNext]_tvars
====
'''


def validate(name, module, trace_path, constants='', invariants=(), timeout=600, workers=4, heap='8g'):
    """Have TLC check every case of a recorded trace against the specification.
    Returns (ok, info) where info = dict(line=failing 1-based line, why=...)"""
    wd = _work('tr_' + name)
    cfg = 'SPECIFICATION TSpec\nCHECK_DEADLOCK TRUE\n' + constants + '\n'
    for i in invariants:
        cfg += 'INVARIANT %s\n' % i
    rc, out = run_tlc('Trace_' + module, cfg, wd, env={'TRACE': trace_path}, workers=workers, timeout=timeout,
                      heap=heap, modtext=TRACE_TMPL % dict(mod=module))
    txt = open(out, errors='replace').read()
    gen, dist = _stats(txt)
    if rc == 0 and 'No error has been found' in txt:
        shutil.rmtree(wd, ignore_errors=True)
        return True, dict(states=dist, transitions=gen)
    if 'Deadlock reached' in txt or re.search(r'Invariant \w+ is violated', txt):
        ls = re.findall(r'^/\\ l = (\d+)', txt, re.M) or re.findall(r'^l = (\d+)', txt, re.M)
        st = txt[txt.rfind('\nState '):][:2500] if '\nState ' in txt else ''
        inv = re.search(r'Invariant (\w+) is violated', txt)
        shutil.rmtree(wd, ignore_errors=True)
        return False, dict(line=int(ls[-1]) if ls else 1, why='invariant ' + inv.group(1) if inv else 'no specified step matches',
                           state=st)
    raise CheckError('TLC trace validation %s failed (rc %s)\n%s' % (name, rc, txt[-3500:]))


# ---------------------------------------------------------------- scripts
def op(o, *a):
    return dict(o=o, a=[int(x) for x in a])


def write_script(path, cases):
    """cases: list of (params list, ops list)."""
    with open(path, 'w') as f:
        for i, (params, ops) in enumerate(cases):
            f.write('case ' + ' '.join(str(int(x)) for x in params) + '\n')
            for x in ops:
                f.write(x['o'] + ''.join(' %d' % int(v) for v in x['a']) + '\n')


STALL = 30


def run_harness(exe, script, trace, timeout=300, args=()):
    """Runs a harness; it is ended when it takes too long or records nothing for STALL seconds."""
    with open(script) as fi, open(trace, 'w') as fo, open(trace + '.err', 'w') as fe:
        # freed and fresh memory is filled with junk, so that code using either shows
        p = subprocess.Popen([exe, *args], stdin=fi, stdout=fo, stderr=fe, cwd=os.path.dirname(trace),
                             env=dict(os.environ, MALLOC_PERTURB_='165', GLIBC_TUNABLES='glibc.malloc.tcache_count=0'))
        t0 = last = time.time()
        size = 0
        while True:
            try:
                return p.wait(0.02 if time.time() - t0 < 1 else 0.25)
            except subprocess.TimeoutExpired:
                now = time.time()
                n = os.stat(trace).st_size
                if n != size:
                    size, last = n, now
                if now - last > STALL or now - t0 > timeout or n > 3 << 30:
                    p.kill()
                    p.wait()
                    return 'timeout'


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.ops = 0
        self.detail = []
        self.samples = []
        self.violations = []
        self.exes = {}
        self.known = []
        self.assumptions = []
        self.actions = {}
        self.racy = False         # histories of free-running threads: a rejected trace need not repeat
        self.dir = os.path.join(BUILD, 'run', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        log('== %s (tier %s, seed %d)' % (pid, TIER, SEED))

    def rng(self, salt=''):
        return random.Random('%s/%s/%d' % (self.pid, salt, SEED))

    def build(self, *harnesses):
        t = time.time()
        self.exes.update(build(list(harnesses)))
        log('  built %s in %.1fs' % (', '.join(harnesses), time.time() - t))

    def model(self, name, module, cfg, edges=False, **kw):
        mc = model_check(name, module, cfg, edges=edges, **kw)
        self.states += mc['states']
        self.transitions += mc['transitions']
        self.detail.append(dict(model=name, states=mc['states'], transitions=mc['transitions'],
                                edges=len(mc['edges'])))
        return mc

    def _count(self, trace):
        n = 0
        with open(trace) as f:
            for line in f:
                try:
                    o = json.loads(line)['o']
                except Exception:
                    continue
                self.actions[o] = self.actions.get(o, 0) + 1
                n += 1
        return n

    def conform(self, name, harness, module, cases, constants='', invariants=(), timeout=300, tlc_timeout=600,
                workers=6, chunk=60000, min_actions=None):
        """Run cases on the real code and validate the traces."""
        if self.violations:
            return False
        # split into chunks of bounded size so one TLC run stays small
        groups, cur, n = [], [], 0
        for c in cases:
            cur.append(c)
            n += len(c[1]) + 1
            if n >= chunk:
                groups.append(cur)
                cur, n = [], 0
        if cur:
            groups.append(cur)
        t = time.time()
        total = 0
        for gi, g in enumerate(groups):
            ok, info, tr = self._run_cases('%s_%d' % (name, gi), harness, module, g, constants, invariants, timeout,
                                           tlc_timeout, workers)
            if not ok:
                self._confirm(name, harness, module, g, info, constants, invariants, timeout, tlc_timeout)
                return False
            total += self._count(tr)
            self.traces += len(g)
            if not self.samples or (len(self.samples) < 4 and gi == 0):
                with open(tr) as f:
                    self.samples.append(dict(conformance=name, trace=[x.strip()[:300] for x in f.readlines()[:14]]))
            os.remove(tr)
        self.ops += total
        self.detail.append(dict(conformance=name, cases=len(cases), events=total))
        log('  trace %-28s %8d cases %15d events  %5.1fs' % (name, len(cases), total, time.time() - t))
        return True

    def _run_cases(self, name, harness, module, cases, constants, invariants, timeout, tlc_timeout, workers=6):
        script = os.path.join(self.dir, name + '.script')
        trace = os.path.join(self.dir, name + '.ndjson')
        write_script(script, cases)
        rc = run_harness(self.exes[harness], script, trace, timeout)
        if rc != 0:
            # the code under test crashed, aborted or hung
            ncase = 0
            good = []
            with open(trace, errors='replace') as f:
                for line in f:
                    try:
                        j = json.loads(line)
                    except Exception:
                        break
                    if j['o'] == 'case':
                        ncase += 1
                    good.append(line)
            err = open(trace + '.err', errors='replace').read()[-1500:]
            if rc == 3:
                raise CheckError('harness %s rejected its script: %s' % (harness, err))
            return False, dict(case=max(ncase - 1, 0), line=len(good) + 1, why='harness ended with %s' % rc, err=err), trace
        n_in = len(cases)
        with open(trace, 'rb') as f:
            n_out = sum(1 for x in f if x.startswith(b'{"o":"case"'))
        if n_in != n_out:
            raise CheckError('harness %s: %d cases in, %d out' % (harness, n_in, n_out))
        ok, info = validate('%s_%s' % (self.pid, name), module, trace, constants, invariants, tlc_timeout, workers)
        if ok:
            self.states += info['states']
            self.transitions += info['transitions']
            os.remove(script)
            return True, info, trace
        c = 0
        lines = open(trace).read().split('\n')
        for i, line in enumerate(lines[:max(info['line'] - 1, 1)]):
            if line.startswith('{"o":"case"'):
                c += 1
        info['case'] = c - 1
        info['event'] = lines[info['line'] - 1] if info['line'] - 1 < len(lines) else '<end>'
        return False, info, trace

    def _confirm(self, name, harness, module, group, info, constants, invariants, timeout, tlc_timeout):
        ci = min(info['case'], len(group) - 1)
        log('  rejected: case %d of %s: %s' % (ci, name, info['why']))
        single = [group[ci]]
        first = None
        if self.racy:
            first = os.path.join(self.dir, name + '_first.ndjson')
            src = [x for x in os.listdir(self.dir) if x.startswith(name + '_') and x.endswith('.ndjson')]
            shutil.copy(max((os.path.join(self.dir, x) for x in src), key=os.path.getmtime), first)
        ok, i2, tr = self._run_cases(name + '_confirm', harness, module, single, constants, invariants, timeout,
                                     tlc_timeout)
        cases = single
        if ok:
            ok, i2, tr = self._run_cases(name + '_confirm_all', harness, module, group, constants, invariants, timeout,
                                         tlc_timeout)
            cases = group
            if ok and not first:
                raise CheckError('rejection of %s did not repeat' % name)
            if ok:                # the recorded history itself is the evidence
                i2, tr = info, first
        h = hashlib.sha1(json.dumps(cases).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
        rp = os.path.join(BUILD, 'replay', '%s-%s-%s.txt' % (self.pid, name, h))
        with open(rp, 'w') as f:
            f.write('# property %s, conformance %s; harness %s, spec Trace_%s\n' % (self.pid, name, harness, module))
            f.write('# %s\n# first event the specification does not allow: %s\n' % (i2['why'], i2.get('event', i2.get('err', ''))))
            f.write('# specification state before it:\n')
            for x in i2.get('state', '').split('\n'):
                f.write('#   ' + x + '\n')
            f.write('# script (feed to build/%s on stdin):\n' % harness)
        tmp = rp + '.s'
        write_script(tmp, cases)
        with open(rp, 'a') as f:
            f.write(open(tmp).read())
            f.write('# trace recorded from the code:\n')
            for x in open(tr, errors='replace').read().split('\n')[:400]:
                f.write('# ' + x[:600] + '\n')
        os.remove(tmp)
        self.violations.append(rp)
        log('  first event not allowed: %s' % (i2.get('event') or i2.get('err', ''))[:600])

    def finding(self, key, harness, module, case, is_it, constants=''):
        """A history on which the code is known to break the property. is_it recognises, from the first event that
        is not allowed, that it is the recorded finding; anything else is a violation. Silent once repaired."""
        if self.violations:
            return
        ok, info, tr = self._run_cases('finding_' + key, harness, module, [case], constants, (), 300, 600)
        self.traces += 1
        if ok:
            return
        listed = [x for x in open(os.path.join(VERIF, 'known_findings.txt')) if x.startswith('finding: property=%s key=%s ' % (self.pid, key))]
        try:
            same = is_it(json.loads(info['event']))
        except Exception:
            same = False
        if listed and same:
            self.known.append(listed[0].split(' ', 3)[3].strip())
        else:
            self._confirm('finding_' + key, harness, module, [case], dict(info, case=0), constants, (), 300, 600)

    def fail(self, name, text):
        """A violation found outside trace validation."""
        os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
        rp = os.path.join(BUILD, 'replay', '%s-%s.txt' % (self.pid, name))
        with open(rp, 'w') as f:
            f.write(text)
        self.violations.append(rp)

    def require_actions(self, *names):
        """Vacuity guard: every listed action must have occurred in validated traces."""
        if self.violations:
            return
        miss = [n for n in names if not self.actions.get(n)]
        if miss:
            raise CheckError('vacuous run: actions never exercised: %s' % miss)

    def finish(self):
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, trace_events=self.ops,
                                events_by_action=self.actions, runs=self.detail,
                                samples=self.samples or [dict(note='no trace accepted before the violation')]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violations:
            for v in self.violations:
                log('VIOLATION property=%s replay=%s' % (self.pid, v))
            return 1
        shutil.rmtree(self.dir, ignore_errors=True)
        log('OK %s: %d states, %d traces, %d events, %.1fs' % (self.pid, self.states, self.traces, self.ops,
                                                               time.time() - self.t0))
        return 0


def main(registry):
    pid = sys.argv[1]
    try:
        c = Check(pid)
        registry[pid](c)
        return c.finish()
    except BuildError as e:
        log('BUILD ERROR', e)
        return 2
    except CheckError as e:
        log('CHECK ERROR', e)
        return 2
