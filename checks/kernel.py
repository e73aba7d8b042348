from vf import *

ALL_OPS = ['sched', 'schedt', 'pay', 'prep', 'hsched', 'hdrop', 'hcopy', 'hmove', 'hcancel', 'cancel', 'cancelat',
           'cancelif', 'issch', 'isschat', 'nout', 'getif', 'confirm', 'stop']


def gen_cfg(rng, kinds, nmax=6, phases=range(7), pers=(1, 1, 1, 2, 3), gops=True, edges=True, slots=3, cont=None):
    n = rng.randint(1, nmax)
    ph = [rng.choice(list(phases)) for _ in range(n)]
    if rng.random() < 0.4:
        ph = [ph[0]] * n
    evs = [(rng.choice(kinds), ph[i], (rng.random() < 0.75 if cont is None else cont), rng.choice(pers)) for i in range(n)]
    g = rng.choice([0, 0, 1, 2]) if gops else 0
    # a random linear order consistent with the phases; ordering points get a phase of their own
    nodes = [(ph[i], rng.random(), i + 1) for i in range(n)] + [(rng.choice(ph), rng.random(), n + 1 + j) for j in range(g)]
    nodes.sort()
    ed = []
    dens = rng.choice([0, 0.15, 0.3, 0.6, 0.9]) if edges else 0
    for i in range(len(nodes)):
        for j in range(i + 1, len(nodes)):
            if rng.random() < dens:
                ed.append((nodes[i][2], nodes[j][2]))
    rng.shuffle(ed)
    if ed and rng.random() < 0.3:
        ed.append(rng.choice(ed))
    p = [n]
    for e in evs:
        p += [e[0], e[1], int(e[2]), e[3]]
    p += [g, len(ed)]
    for a, b in ed:
        p += [a, b]
    p += [slots]
    return p, evs


def gen_op(rng, evs, weights, dmax, slots, ctx):
    n = len(evs)
    for _ in range(30):
        o = rng.choices(list(weights), list(weights.values()))[0]
        e = rng.randint(1, n)
        k = evs[e - 1][0]
        d = rng.choice([0, 0, 1, 1, 2, rng.randint(0, dmax)])
        v = rng.randint(1, 4)
        s = rng.randrange(slots)
        if o == 'sched' and k != 4:
            if k == 3 and d > 1 and rng.random() < 0.9:
                d = rng.randint(0, 1)
            return op(o, e, d)
        if o == 'schedt' and k in (1, 2):
            return op(o, e, d)
        if o == 'pay' and k == 4:
            return op(o, e, rng.randint(1, 60) if rng.random() < 0.5 else v, d)
        if o == 'prep' and k == 4:
            return op(o, e, v, s)
        if o in ('hdrop', 'hcancel'):
            return op(o, s)
        if o == 'hsched':
            return op(o, s, d)
        if o in ('hcopy', 'hmove'):
            t = rng.randrange(slots)
            if o == 'hmove' and s == t:
                continue
            return op(o, s, t)
        if o in ('cancel', 'issch'):
            return op(o, e)
        if o in ('cancelat', 'isschat') and k != 3:
            return op(o, e, d)
        if o in ('cancelif', 'getif', 'confirm') and k == 4:
            return op(o, e, v)
        if o == 'nout' and k == 4:
            return op(o, e)
        if o == 'stop':
            return op(o)
    return op('issch', 1)


def gen_sched(rng, ncases, rounds, kinds, weights, dmax=6, per_round=5, per_block=3, nblocks=8, ctl=True, restart=True,
              **cfgkw):
    cases = []
    for _ in range(ncases):
        p, evs = gen_cfg(rng, kinds, **cfgkw)
        slots = p[-1]
        ops = []
        w_out = dict(weights)
        w_out.pop('stop', None)
        restarted = False
        for r in range(rounds):
            for _ in range(rng.randint(0, per_round)):
                ops.append(gen_op(rng, evs, w_out, dmax, slots, 'top'))
            for _ in range(rng.randint(0, nblocks)):
                ops.append(op('h'))
                for _ in range(rng.randint(0, per_block)):
                    ops.append(gen_op(rng, evs, weights, dmax, slots, 'hand'))
                ops.append(op('hend'))
            x = rng.random()
            if ctl and x < 0.05:
                ops.append(op('clear'))
            elif ctl and restart and x < 0.10:
                ops.append(op('restart', rng.choice([0, 0, rng.randint(0, 20)])))
            elif ctl and x < 0.13:
                ops.append(op('stop'))
            y = rng.random()
            if y < 0.12:
                ops.append(op('run', -1, 0))
            else:
                ops.append(op('run', rng.choice([0, 1, 1, 1, 2, 3, 5, rng.randint(1, 30)]), int(rng.random() < 0.5)))
        ops.append(op('run', 40, 1))
        ops.append(op('run', -1, 0))
        cases.append((p, ops))
    return cases


def split_blocks(walk):
    """A path through the model -> top-level operations with handler blocks in front of the run they belong to."""
    out, i = [], 0
    blocks, runop, block = [], None, None
    for o in walk:
        n = o['o']
        if n == 'run':
            runop, blocks = o, []
        elif n == 'fire':
            block = []
        elif n == 'hend':
            blocks.append(block)
            block = None
        elif n == 'runend':
            for b in blocks:
                out.append(op('h'))
                out += b
                out.append(op('hend'))
            out.append(runop)
            runop = None
        elif block is not None:
            block.append(o)
        else:
            out.append(o)
    if runop is not None:                      # path ended inside a run
        if block is not None:
            blocks.append(block)
        for b in blocks:
            out.append(op('h'))
            out += b
            out.append(op('hend'))
        out.append(runop)
    out.append(op('run', -1, 0))
    return out


CONST_SCHED = 'CONSTANTS Cfgs = {} MOps = {} MRuns = {} MaxT = 0 MaxP = 0 MaxI = 0\n'
SCHED_INV = ('VIEW View\nSPECIFICATION Spec\nCHECK_DEADLOCK TRUE\nCONSTRAINT Bound\n'
             'INVARIANT NotLate OrderSafe UniqueOnce PayloadOnce ItemsHeld\n'
             'PROPERTY NoLoss FireOne CancelOnly TimeForward LimitKept EarlyOnly\n')


def tseq(xs):
    return '<<%s>>' % ','.join(str(x) for x in xs)


def sched_model(c, name, cfgs, mops, mruns, maxt, maxp, maxi, edges=False, timeout=900):
    """mops: list of (name, args)"""
    sub = ('CONSTANTS MaxT = %d MaxP = %d MaxI = %d\nCONSTANT Cfgs <- CfgsDef MOps <- MOpsDef MRuns <- MRunsDef\n'
           % (maxt, maxp, maxi))
    mod = ('---- MODULE MC_Sched ----\nEXTENDS Sched\nCfgsDef == {%s}\nMOpsDef == {%s}\nMRunsDef == {%s}\n====\n' % (
        ','.join(tseq(x) for x in cfgs),
        ','.join('<<"%s", %s>>' % (o, tseq(a)) for o, a in mops),
        ','.join('<<"%s", %s>>' % (o, tseq(a)) for o, a in mruns)))
    return c.model(name, 'MC_Sched', sub + SCHED_INV, edges=edges, modtext=mod, timeout=timeout)


def sched_walks(c, mc, cfgs, limit=None, maxlen=60):
    walks = cover(mc, maxlen, c.rng('walk'), limit)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    return [(roots[r], split_blocks(w)) for r, w in walks]


def kconf(c, name, cases):
    return c.conform(name, 'h_sched', 'Sched', cases, CONST_SCHED, SCHED_TINV)


SCHED_TINV = ['NotLate', 'OrderSafe', 'UniqueOnce', 'PayloadOnce', 'ItemsHeld']


def ecfg(*evs, gops=0, edges=(), slots=0):
    p = [len(evs)]
    for e in evs:
        p += list(e)
    p += [gops, len(edges)]
    for a, b in edges:
        p += [a, b]
    return p + [slots]


def kmodel(c, name, cfgs, mops, mruns, maxt, maxp, maxi=0, limit=None):
    """Exhaustive model, all its transitions walked on the code."""
    mc = sched_model(c, name, cfgs, mops, mruns, maxt, maxp, maxi, edges=True)
    kconf(c, name, sched_walks(c, mc, cfgs, limit))


def N(q, t):
    return t if THOROUGH else q


def every_tick(c):
    c.build('h_sched')
    A, B, CC = (1, 2, 1, 1), (1, 5, 1, 2), (1, 2, 0, 1)
    mops = [('sched', (1, 0)), ('sched', (1, 2)), ('sched', (2, 1)), ('schedt', (2, 1)), ('sched', (2, 0)), ('sched', (1, 1))]
    runs = [('run', (1, 1)), ('run', (3, 1)), ('run', (-1, 0))]
    if THOROUGH:
        sched_model(c, 'big', [ecfg(A, B, CC)], mops + [('sched', (3, 1))], runs, 4, 4, 0, timeout=800)
    kmodel(c, 'edges', [ecfg(A, B)], mops, runs, 3, 3)
    W = dict(sched=10, schedt=5, pay=5, issch=0.5, isschat=0.5)
    kconf(c, 'mixed', gen_sched(c.rng('a'), N(250, 4000), 12, [1, 1, 1, 2, 4], W))
    kconf(c, 'dense', gen_sched(c.rng('b'), N(60, 1000), 14, [1], W, dmax=12, per_round=12, per_block=5, nblocks=14, restart=False))
    kconf(c, 'far', gen_sched(c.rng('c'), N(60, 1000), 14, [1, 4], W, dmax=60, per_round=10, per_block=4, nblocks=12, restart=False, pers=(1, 2, 3, 5, 7)))
    c.require_actions('sched', 'schedt', 'fire', 'runend', 'pay')


def ordering(c):
    c.build('h_sched')
    E1 = [(1, 3, 1, 1)] * 3
    mops = [('sched', (1, 0)), ('sched', (2, 0)), ('sched', (3, 0))]
    cfgs = [ecfg(*E1), ecfg(*E1, edges=[(1, 2)]), ecfg(*E1, edges=[(1, 3), (2, 3)]), ecfg(*E1, edges=[(3, 1), (2, 3)]),
            ecfg((1, 5, 1, 1), (1, 0, 1, 1), (1, 5, 1, 1), edges=[(3, 1)]),
            ecfg(*E1, gops=1, edges=[(2, 4), (4, 1)]), ecfg((1, 6, 1, 1), (1, 1, 1, 1), (1, 2, 1, 1))]
    runs = [('run', (1, 1))]
    kmodel(c, 'edges', cfgs, mops, runs, N(0, 1), N(3, 4))
    W = dict(sched=10, pay=3, schedt=1)
    kw = dict(dmax=2, per_round=8, per_block=3, nblocks=10, restart=False)
    R = [(gen_sched(c.rng('a'), N(220, 3000), 8, [1, 1, 2, 4], W, nmax=8, pers=(1,), **kw)),
         (gen_sched(c.rng('b'), N(120, 1500), 8, [1], W, nmax=12, phases=range(2, 6), pers=(1,), **kw)),
         (gen_sched(c.rng('c'), N(100, 1500), 8, [1, 3, 4], W, nmax=6, phases=[5], pers=(1, 2), **kw))]
    for i, r in enumerate(R):
        kconf(c, 'random%d' % i, r)
    if not c.violations:
        repeatable(c, 'h_sched', [x for r in R for x in r])
    c.require_actions('sched', 'fire', 'runend')


def repeatable(c, harness, cases):
    """The same program gives the same history, whatever the memory layout of the process."""
    script = os.path.join(c.dir, 'rep.script')
    write_script(script, cases)
    ref = None
    for i, env in enumerate([{}, {'MALLOC_PERTURB_': '165', 'MALLOC_MMAP_THRESHOLD_': '64'},
                             {'MALLOC_TOP_PAD_': '1000000', 'MALLOC_ARENA_MAX': '1', 'VH_PAD': 'x' * 5000}]):
        old = dict(os.environ)
        os.environ.update(env)
        tr = os.path.join(c.dir, 'rep%d.ndjson' % i)
        rc = run_harness(c.exes[harness], script, tr, 300)
        os.environ.clear()
        os.environ.update(old)
        if rc != 0:
            raise CheckError('harness %s ended with %s' % (harness, rc))
        txt = open(tr).read()
        if ref is None:
            ref = txt
        elif txt != ref:
            a, b = ref.split('\n'), txt.split('\n')
            i = next(k for k in range(min(len(a), len(b))) if a[k] != b[k])
            c.fail('repeat', '# two runs of one program differ at event %d\n# run 1: %s\n# run 2: %s\n# script:\n%s'
                   % (i, a[i], b[i], open(script).read()))
            return
    c.detail.append(dict(repeatability='3 runs with different heap layouts', cases=len(cases)))


def running(c):
    c.build('h_sched')
    A, B = (1, 2, 1, 1), (1, 3, 0, 1)
    mops = [('sched', (1, 0)), ('sched', (1, 2)), ('sched', (2, 0)), ('sched', (2, 2)), ('stop', ())]
    runs = [('run', (1, 0)), ('run', (1, 1)), ('run', (2, 0)), ('run', (2, 1)), ('run', (-1, 0))]
    ctl = [('clear', ()), ('restart', (0,)), ('restart', (2,))]
    kmodel(c, 'edges', [ecfg(A, B)], mops, runs, 3, N(2, 3), limit=N(60000, None))
    kmodel(c, 'ctl', [ecfg(A, B)], [('sched', (1, 1)), ('sched', (2, 1)), ('cancel', (1,))], runs + ctl, 3, 2, limit=N(40000, None))
    W = dict(sched=10, schedt=3, pay=2, cancel=1, cancelat=0.6, stop=1.2)
    kconf(c, 'random', gen_sched(c.rng('a'), N(350, 5000), 16, [1, 1, 2, 4], W, dmax=8, per_round=3, per_block=2, nblocks=5))
    kconf(c, 'noncont', gen_sched(c.rng('b'), N(150, 2500), 16, [1], W, dmax=12, per_round=3, per_block=1, nblocks=4, cont=0))
    c.require_actions('run', 'runend', 'stop', 'clear', 'restart')


def cancelling(c):
    c.build('h_sched')
    A, B, P = (1, 2, 1, 1), (1, 2, 1, 1), (4, 2, 1, 1)
    cn = [('cancel', (1,)), ('cancelat', (1, 0)), ('cancelat', (1, 1)), ('isschat', (1, 1)), ('issch', (1,)), ('isschat', (1, 0))]
    kmodel(c, 'plain', [ecfg(A, B)], [('sched', (1, 0)), ('sched', (1, 1)), ('sched', (2, 0)), ('sched', (2, 1))] + cn,
           [('run', (1, 1)), ('run', (2, 1))], 2, 3, limit=N(90000, None))
    kmodel(c, 'payload', [ecfg(P, slots=1)], [('pay', (1, 1, 0)), ('pay', (1, 2, 1)), ('cancelif', (1, 1)), ('cancelif', (1, 2)), ('nout', (1,)), ('confirm', (1, 1)), ('getif', (1, 2))] + cn,
           [('run', (1, 1)), ('run', (2, 1))], 2, 3, 3, limit=N(60000, None))
    W = dict(sched=10, schedt=2, pay=7, cancel=2, cancelat=3, cancelif=2, issch=2, isschat=4, nout=0.5, getif=0.5, confirm=0.5, prep=1, hsched=1, hcancel=1, hdrop=0.3)
    kconf(c, 'random', gen_sched(c.rng('a'), N(260, 4000), 12, [1, 2, 3, 4], W))
    kconf(c, 'dense', gen_sched(c.rng('b'), N(150, 2500), 12, [1, 4], W, dmax=4, per_round=10, per_block=5, nblocks=8, nmax=3))
    c.require_actions('cancel', 'cancelat', 'cancelif', 'hcancel', 'issch', 'isschat')


def unique(c):
    c.build('h_sched')
    for k in (2, 3):
        A, B = (k, 2, 1, 1), (1, 2, 1, 1)
        mops = [('sched', (1, 0)), ('sched', (1, 1)), ('sched', (2, 0)), ('cancel', (1,)), ('sched', (2, 1))]
        if k == 2:
            mops += [('sched', (1, 2)), ('cancelat', (1, 1))]
        kmodel(c, 'kind%d' % k, [ecfg(A, B), ecfg(A, B, edges=[(2, 1)]), ecfg((k, 2, 1, 2), B)], mops, [('run', (1, 1)), ('run', (2, 1))],
               2, N(2, 3), limit=N(60000, None))
        kmodel(c, 'restart%d' % k, [ecfg(A, B)], mops[:4], [('run', (1, 1)), ('restart', (0,)), ('restart', (1,)), ('clear', ())],
               2, 2, limit=N(50000, None))
    W = dict(sched=10, schedt=2, cancel=1.5, cancelat=0.7, issch=1, isschat=1)
    for k in (2, 3):
        kconf(c, 'random%d' % k, gen_sched(c.rng('a%d' % k), N(200, 3000), 14, [k, k, k, 1], W, dmax=4, nmax=4))
    c.require_actions('sched', 'cancel', 'fire', 'restart')


def payloads(c):
    c.build('h_sched')
    P, Q = (4, 2, 1, 1), (4, 2, 1, 1)
    base = [('pay', (1, 1, 0)), ('pay', (1, 2, 1))]
    h = [('prep', (1, 1, 0)), ('hsched', (0, 0)), ('hsched', (0, 1)), ('hdrop', (0,)), ('hcancel', (0,)), ('hsched', (1, 0)), ('hdrop', (1,)),
         ('hcopy', (1, 0)), ('hmove', (1, 0)), ('hcopy', (0, 0))]
    runs = [('run', (1, 1)), ('run', (2, 1))]
    kmodel(c, 'handles', [ecfg(P, slots=2)], h + [('nout', (1,))], runs, 2, 2, 2, limit=N(90000, None))
    kmodel(c, 'cancels', [ecfg(P, slots=1)], base + h[:5] + [('cancel', (1,)), ('cancelif', (1, 1)), ('cancelat', (1, 1)), ('nout', (1,))], runs, 1, N(2, 3), N(2, 3),
           limit=N(60000, None))
    W = dict(pay=8, prep=4, hsched=5, hdrop=2, hcopy=1.5, hmove=1, hcancel=0.7, cancel=0.5, cancelat=0.7, cancelif=0.7, nout=2, getif=1, confirm=1, sched=1, stop=0.1)
    kconf(c, 'random', gen_sched(c.rng('a'), N(300, 4000), 12, [4, 4, 4, 1], W, nmax=3, slots=4))
    kconf(c, 'many', gen_sched(c.rng('b'), N(60, 800), 12, [4], W, nmax=2, slots=6, per_round=25, per_block=6, nblocks=30, dmax=9))
    c.require_actions('pay', 'prep', 'hsched', 'hcancel', 'cancel', 'cancelif', 'nout', 'hmove', 'hcopy')


# ---------------------------------------------------------------- C03
CONST_DAG = 'CONSTANTS Cfgs = {} Methods = {0}\n'


def gen_dag(rng, n):
    cases = []
    for _ in range(n):
        ne = rng.randint(2, 9)
        g = rng.choice([0, 0, 1, 2, 3])
        early = int(rng.random() < 0.25)
        typed = rng.random() < 0.5
        ev = []
        for _ in range(ne):
            if typed or rng.random() < 0.3:
                ev.append((rng.randint(1, 4), 5))
            else:
                ev.append((5, rng.choice([5, 5, 4, rng.randint(0, 6)])))
        nodes = list(range(1, ne + g + 1))
        rank = {x: (ev[x - 1][1] if x <= ne else rng.choice([5, 5, rng.randint(0, 6)]), rng.random()) for x in nodes}
        bad = rng.choice([0, 0, 0, 0.02, 0.1, 0.5])
        ops = []
        m = rng.choice([ne, 2 * ne, 4 * ne, ne * ne])
        typedn = [i + 1 for i in range(ne) if ev[i][0] <= 4]
        grpn = [i + 1 for i in range(ne) if ev[i][0] in (1, 2, 4)]
        singn = [i + 1 for i in range(ne) if ev[i][0] in (1, 2)]
        done = []
        for _ in range(m):
            a, b = rng.choice(nodes), rng.choice(nodes)
            if rng.random() >= bad and rank[a] > rank[b]:
                a, b = b, a
            if a == b and rng.random() < 0.8:
                continue
            x = rng.random()
            if x < 0.08 and done:
                ops.append(op('link', *rng.choice(done), 0))
            elif x < 0.2 and len(grpn) >= 2 and not early:
                s = [rng.choice(grpn) for _ in range(4)]
                if rng.random() >= bad:
                    s.sort(key=lambda k: rank[k])
                mode = rng.randint(0, 2)
                if mode == 1:
                    s[2] = s[3] = rng.choice(singn) if singn else 0
                if mode == 2:
                    s[0] = s[1] = rng.choice(singn) if singn else 0
                if mode and not singn:
                    continue
                if rng.random() >= bad and max(rank[s[0]], rank[s[1]]) > min(rank[s[2]], rank[s[3]]):
                    continue
                ops.append(op('glink', mode, *s))
            elif x < 0.26 and a <= ne and b <= ne and a != b:
                p = rng.choice(done) if done and rng.random() < 0.7 else (a, b)
                if p[0] <= ne and p[1] <= ne and p[0] != p[1]:
                    ops.append(op('unlink', *p))
            elif x < 0.29:
                ops.append(op('fin'))
                if rng.random() < 0.3:
                    break
            else:
                done.append((a, b))
                ops.append(op('link', a, b, rng.choice([0, 0, 1, 1, 2, 3, 4]) if a != b else 0))
        k = [i for i, x in enumerate(ops) if x['o'] == 'fin']
        # nothing but declarations may follow an accepted finalisation: keep unlink out of that
        if k:
            ops = ops[:k[0] + 1] + [x for x in ops[k[0] + 1:] if x['o'] == 'link']
        ops.append(op('fin')) if not k else None
        for _ in range(4):
            s = list(range(1, ne + 1))
            rng.shuffle(s)
            ops.append(op('tick', *s[:rng.randint(1, ne)]))
        ops.append(op('tick', *range(1, ne + 1)))
        p = [ne, g, early]
        for e in ev:
            p += e
        cases.append((p, ops))
    return cases


def precedence_graph(c):
    c.build('h_dag')
    cfgs = [[3, 0, 0, 1, 5, 2, 5, 4, 5], [3, 0, 0, 5, 2, 5, 3, 5, 3], [2, 1, 0, 5, 4, 5, 4], [3, 0, 0, 3, 5, 3, 5, 1, 5], [3, 0, 1, 4, 5, 4, 5, 1, 5]]
    if THOROUGH:
        cfgs += [[3, 1, 0, 1, 5, 2, 5, 4, 5], [3, 1, 0, 3, 5, 5, 5, 5, 6], [4, 0, 0, 1, 5, 2, 5, 3, 5, 4, 5]]
    mod = '---- MODULE MC_DAG ----\nEXTENDS DAG\nCfgsDef == {%s}\n====\n' % ','.join(tseq(x) for x in cfgs)
    mc = c.model('edges', 'MC_DAG', 'CONSTANT Cfgs <- CfgsDef\nCONSTANT Methods = {0}\nSPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
                 'INVARIANT TypeOK HasOrder\nPROPERTY Refused\n', edges=True, modtext=mod)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    rng = c.rng('m')
    cases = []
    for r, w in cover(mc, 40, c.rng('walk'), N(60000, None)):
        for x in w:
            if x['o'] == 'link' and max(x['a'][:2]) <= roots[r][0] and roots[r][3] <= 4:
                x['a'][2] = rng.choice([0, 1, 2, 3, 4])
        cases.append((roots[r], w + ([op('fin')] if w[-1]['o'] != 'fin' else []) + [op('tick', *rng.sample(range(1, roots[r][0] + 1), roots[r][0])) for _ in range(2)]))
    c.conform('edges', 'h_dag', 'DAG', cases, CONST_DAG)
    c.conform('random', 'h_dag', 'DAG', gen_dag(c.rng('a'), N(2500, 40000)), CONST_DAG)
    c.require_actions('link', 'glink', 'unlink', 'fin', 'tick')


# ---------------------------------------------------------------- C08
CONST_ASYNC = 'CONSTANTS Cfgs = {} MOps = {} MaxT = 0 MaxP = 0\n'


def async_cases(rng, n, storms=0):
    cases = []
    for _ in range(n):
        ne = rng.randint(1, 6)
        one_phase = rng.random() < 0.3
        p0 = rng.randrange(7)
        ev = [(p0 if one_phase else rng.randrange(7), rng.choice([0, 1, 1, 2, 3]), rng.choice([-1, 0, 0, 1, 2])) for _ in range(ne)]
        # some streams of one thread and one delay over several events
        if rng.random() < 0.6:
            t, d = rng.randint(1, 3), rng.randint(0, 2)
            ev = [(e[0], t, d) if rng.random() < 0.7 else e for e in ev]

        def post():
            e = rng.randint(1, ne)
            ph, th, d = ev[e - 1]
            return op('post', th or rng.randint(0, 3), e, d if d >= 0 else rng.randint(0, 5))

        def ctl():
            return op('cancel', rng.randint(1, ne)) if not storms and rng.random() < 0.1 else post()
        ops = []
        for _ in range(rng.randint(3, 8)):
            if storms:
                ops.append(op('storm', rng.choice([1, 3, 10]), rng.randint(3, 12), rng.randint(1, 10**6), rng.randint(10, storms)))
                ops.append(op('run', 10))
                if rng.random() < 0.5:
                    continue
            for _ in range(rng.randint(0, 5)):
                ops.append(ctl())
            for _ in range(rng.randint(0, 8)):
                ops.append(op('h'))
                for _ in range(rng.randint(0, 4)):
                    ops.append(ctl())
                ops.append(op('hend'))
            ops.append(op('run', rng.randint(1, 6)))
        ops.append(op('run', 10))
        p = [ne]
        for e in ev:
            p += list(e)
        cases.append((p + [rng.choice([0, 3, 5, 6])], ops))
    return cases


def async_blocks(walk):
    """model path -> script: what happens inside a run goes into handler blocks"""
    out, blocks, runop, block = [], [], None, None
    for o in walk + [op('runend', 0)]:
        n = o['o']
        if n == 'run':
            runop, blocks, block = o, [], None
        elif n in ('fire', 'beat'):
            block = []
            blocks.append(block)
        elif n == 'runend':
            if runop is None:
                continue
            for b in blocks:
                out.append(op('h'))
                out += b
                out.append(op('hend'))
            out.append(runop)
            runop = None
        elif runop is not None:
            if block is not None:
                block.append(o)
        else:
            out.append(o)
    return out + [op('run', 10)]


def asynchronous(c):
    c.build('h_async')
    cfgs = [[2, 1, 1, 0, 5, 1, 0, 3], [2, 2, 1, 1, 2, 1, 1, 0], [2, 6, 0, -1, 0, 2, 0, 6]]
    mops = [('post', (1, 1, 0)), ('post', (1, 2, 0)), ('post', (2, 2, 0)), ('post', (2, 1, 1)), ('post', (1, 1, 1)),
            ('post', (1, 2, 1)), ('cancel', (1,)), ('run', (1,)), ('run', (2,))]
    mod = ('---- MODULE MC_Async ----\nEXTENDS Async\nCfgsDef == {%s}\nMOpsDef == {%s}\n====\n' % (
        ','.join(tseq(x) for x in cfgs), ','.join('<<"%s", %s>>' % (o, tseq(a)) for o, a in mops)))
    mc = c.model('edges', 'MC_Async', 'CONSTANTS MaxT = %d MaxP = %d\nCONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\nVIEW View\n'
                 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANT NotLost\nPROPERTY OnlyOnce NotPast\n' % (N(1, 2), N(2, 3)),
                 edges=True, modtext=mod)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    walks = cover(mc, 30, c.rng('walk'), N(30000, 200000))
    seen, cases = set(), []
    for r, w in walks:
        x = (roots[r], async_blocks(w))
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            cases.append(x)
    c.conform('edges', 'h_async', 'Async', cases, CONST_ASYNC, ['NotLost'])
    c.conform('random', 'h_async', 'Async', async_cases(c.rng('a'), N(250, 3000)), CONST_ASYNC, ['NotLost'])
    c.racy = True
    c.conform('storm', 'h_async', 'Async', async_cases(c.rng('b'), N(20, 300), storms=25), CONST_ASYNC, ['NotLost'])
    c.require_actions('post', 'fire', 'cancel', 'storm', 'joined', 'beat')
