from vf import *


def gen_queue(rng, n, length):
    cases = []
    for _ in range(n):
        cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33])
        nh = rng.choice([1, 2, 4])
        ops = []
        size = 0
        hs = [-1] * nh           # -1 detached, 0 end, else element id
        q, nid = [], 1
        bias = rng.random()
        for k in range(length):
            if rng.random() < 0.03:
                bias = rng.random()
            r = rng.random()
            if r < 0.3 * (0.5 + bias):
                s = rng.randrange(nh)
                ops.append(op('push', rng.randrange(1000), s))
                if len(q) < cap:
                    q.append(nid); hs[s] = nid; nid += 1
            elif r < 0.5:
                ops.append(op('pop'))
                q and q.pop(0)
            elif r < 0.6:
                ops.append(op('popback'))
                q and q.pop()
            elif r < 0.605:
                ops.append(op('clear')); q = []
            elif r < 0.63:
                ops.append(op(rng.choice(['front', 'back'])))
            elif r < 0.66:
                ops.append(op('read', rng.randrange(cap + 2)))
            elif r < 0.70:
                ops.append(op('write', rng.randrange(cap + 2), rng.randrange(1000)))
            else:
                s = rng.randrange(nh)
                c = rng.choice(['hbegin', 'hend', 'hinc', 'hinc', 'hdec', 'hdec', 'hget', 'hcopy'])
                live = hs[s] in q
                if c == 'hbegin':
                    hs[s] = q[0] if q else 0
                elif c == 'hend':
                    hs[s] = 0
                elif c == 'hcopy':
                    t = rng.randrange(nh); hs[s] = hs[t]
                    ops.append(op(c, s, t)); continue
                elif c == 'hinc':
                    if not (hs[s] == 0 or live):
                        continue
                    if live:
                        i = q.index(hs[s]); hs[s] = q[i + 1] if i + 1 < len(q) else 0
                elif c == 'hdec':
                    if not live and not (hs[s] == 0 and q):
                        continue
                    if hs[s] == 0:
                        hs[s] = q[-1]
                    elif q.index(hs[s]) > 0:
                        hs[s] = q[q.index(hs[s]) - 1]
                ops.append(op(c, s))
        cases.append(([cap, nh], ops))
    return cases


def queue(c):
    c.build('h_queue')
    inv = 'INVARIANT TypeOK\nPROPERTY OrderKept FifoOut ExcPure\nVIEW View\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
    k = 'CONSTANTS Caps = {%s} Vals = {%s} Handles = {%s}\n'
    if THOROUGH:
        c.model('Queue_big', 'Queue', inv + k % ('1,2,3,4', '1,2', '0,1'), timeout=1500)
    mc = c.model('Queue', 'Queue', inv + k % ('2,3', '1', '0,1'), edges=True)
    walks = cover(mc, 80, c.rng('walk'))
    # the root state carries the capacity
    roots = {v: json.loads(s) for s, v in mc['ids'].items()}
    c.conform('edges', 'h_queue', 'Queue', [([roots[r][0], 2], ops) for r, ops in walks], CONST_QUEUE)
    c.conform('random', 'h_queue', 'Queue', gen_queue(c.rng('rand'), 40 if not THOROUGH else 1500, 1500), CONST_QUEUE, ['TypeOK'])
    c.require_actions('push', 'pop', 'popback', 'clear', 'front', 'back', 'read', 'write', 'hinc', 'hdec', 'hget')


CONST_QUEUE = 'CONSTANTS Caps = {1} Vals = {1} Handles = {0}\n'


# ---------------------------------------------------------------- generic pieces
def mc_module(spec, cfgs, mops):
    tl = lambda x: '<<%s>>' % ','.join(map(str, x))
    return '---- MODULE MC_%s ----\nEXTENDS %s\nCfgsDef == {%s}\nMOpsDef == {%s}\n====\n' % (
        spec, spec, ','.join(tl(x) for x in cfgs), ','.join('<<"%s", %s>>' % (m[0], tl(m[1:])) for m in mops))


def model_and_walk(c, name, spec, harness, cfgs, mops, props, consts='', limit=None, maxlen=80, trace_consts='CONSTANTS Cfgs = {} MOps = {}\n', trace_inv=(),
                   roots_of=None, timeout=600):
    """Exhaust the model, then run every transition of its graph on the real code."""
    mc = c.model(name, 'MC_' + spec, 'CONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\nVIEW View\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                 + props + consts, edges=True, modtext=mc_module(spec, cfgs, mops), timeout=timeout)
    walks = cover(mc, maxlen, c.rng('walk' + name), limit)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    c.conform(name, harness, spec, [(roots[r], w) for r, w in walks], trace_consts, trace_inv)


def walks_of_model(c, name, spec, harness, cfgs, mops, consts='', num=24, depth=300, trace_consts='CONSTANTS Cfgs = {} MOps = {}\n', trace_inv=(), weights=None):
    """Random behaviours of the model (larger than what is exhausted), run on the real code."""
    if THOROUGH:
        num *= 20
    cases = simulate(name, spec, cfgs, mops, consts, num, depth, SEED, weights=weights)
    c.conform(name, harness, spec, cases, trace_consts, trace_inv)


# ---------------------------------------------------------------- buffer
def gen_buffer(rng, n, length):
    cases = []
    for _ in range(n):
        cap = rng.choice([1, 2, 3, 4, 5, 8, 16])
        grow = rng.choice([0, 0, 0, 1, 2, 5])
        nh = rng.choice([1, 2, 4])
        cap0, grow0 = cap, grow
        ops, q, hs, nid = [], [], [-1] * nh, 1
        bias = rng.random()
        for k in range(length):
            if rng.random() < 0.03:
                bias = rng.random()
            s, t, v = rng.randrange(nh), rng.randrange(nh), rng.randrange(1000)
            live = hs[s] in q
            at = len(q) if hs[s] == 0 else q.index(hs[s]) if live else None
            r = rng.random()

            def ins(p):
                nonlocal nid, cap
                if len(q) == cap and not grow:
                    return
                if len(q) == cap:
                    cap += grow
                if p is None or p > len(q):
                    return
                q.insert(p, nid); hs[t] = nid; nid += 1
            if r < 0.35 * (0.4 + bias):
                w = rng.random()
                if len(q) > 40 and grow:
                    continue
                if w < 0.4:
                    ops.append(op('push', v, t)); ins(len(q))
                elif w < 0.7:
                    p = rng.randrange(len(q) + 2)
                    if p > len(q) and grow:
                        continue
                    ops.append(op('insi', p, v, t)); ins(p)
                else:
                    if hs[s] == -1 or (grow and at is None):
                        continue
                    ops.append(op('insh', s, v, t)); ins(at)
            elif r < 0.5:
                w = rng.random()
                if w < 0.4:
                    p = rng.randrange(len(q) + 1)
                    ops.append(op('erasei', p))
                    if p < len(q):
                        q.pop(p)
                elif w < 0.75:
                    if hs[s] == -1:
                        continue
                    ops.append(op('eraseh', s, t))
                    if live:
                        i = q.index(hs[s]); q.pop(i); hs[t] = q[i] if i < len(q) else 0
                else:
                    if at is None or hs[s] == -1:
                        continue
                    ops.append(op('eraser', s, t))
                    if at > 0:
                        q.pop(at - 1); hs[t] = q[at - 1] if at - 1 < len(q) else 0
            elif r < 0.505:
                ops.append(op('clear')); q = []
            elif r < 0.51:
                ops.append(op('move')); hs = [-1] * nh
            elif r < 0.512:
                grow = rng.choice([1, 3]); ops.append(op('grow', grow))
            elif r < 0.54:
                ops.append(op('read', rng.randrange(len(q) + 2)))
            elif r < 0.58:
                ops.append(op('write', rng.randrange(len(q) + 2), v))
            elif r < 0.6:
                ops.append(op('back', v))
            else:
                w = rng.choice(['hbegin', 'hend', 'hinc', 'hinc', 'hdec', 'hdec', 'hget', 'hread', 'hset', 'hcopy', 'hcmp'])
                if w == 'hbegin':
                    hs[s] = q[0] if q else 0
                elif w == 'hend':
                    hs[s] = 0
                elif w == 'hcopy':
                    hs[s] = hs[t]
                elif w == 'hinc':
                    if live:
                        i = q.index(hs[s]); hs[s] = q[i + 1] if i + 1 < len(q) else 0
                elif w == 'hdec':
                    if at is None or not q or hs[s] == -1:
                        continue
                    if at > 0:
                        hs[s] = q[at - 1]
                elif w in ('hread', 'hset'):
                    if hs[s] == -1:
                        continue
                elif w == 'hcmp':
                    if not ((live or hs[s] == 0) and (hs[t] == 0 or hs[t] in q)):
                        continue
                ops.append(op(w, s, *([t] if w in ('hcopy', 'hcmp') else [v] if w == 'hset' else [])))
        cases.append(([cap0, nh, grow0], ops))
    return cases


CONST_BUF = 'CONSTANTS Cfgs = {} MOps = {} MaxL = 0\n'


def buffer(c):
    c.build('h_buffer')
    H = [0, 1]
    mops = ([('push', v, s) for v in (1, 2) for s in H[:1]] + [('insi', i, 3, 1) for i in range(3)] + [('insh', s, v, 1 - s) for s in H for v in (4, 6)]
            + [('erasei', i) for i in range(3)] + [('eraseh', s, s) for s in H] + [('eraser', s, s) for s in H]
            + [('clear',), ('read', 1), ('write', 0, 5), ('back', 7), ('move',)]
            + [(n, s) for n in ('hbegin', 'hend', 'hinc', 'hdec', 'hget', 'hread') for s in H] + [('hset', 0, 2), ('hcmp', 0, 1), ('hcopy', 0, 1)])
    small = [m for m in mops if not (m[0] in ('push', 'insh', 'insi', 'hset', 'write', 'back') and len(m) > 2 and m[1 if m[0] == 'push' else 2] in (2, 6))]
    small = [m for m in small if m[0] not in ('write', 'back', 'hset')]
    one = [tuple(1 if (m[0] == 'push' and k == 1) or (m[0] in ('insi', 'insh') and k == 2) else x for k, x in enumerate(m)) for m in small]
    props = 'INVARIANT TypeOK\nPROPERTY OrderKept OneAtATime ExcPure BoundKept\nCONSTRAINT Bound\n'
    model_and_walk(c, 'fixed', 'Buffer', 'h_buffer', [[2, 2, 0]] if not THOROUGH else [[1, 2, 0], [3, 2, 0]], one, props, 'CONSTANT MaxL = 3\n', trace_consts=CONST_BUF)
    model_and_walk(c, 'growing', 'Buffer', 'h_buffer', [[1, 2, 1]], [m for m in one if m[0] != 'move'], props, 'CONSTANT MaxL = %d\n' % (3 if not THOROUGH else 4), trace_consts=CONST_BUF,
                   limit=None if THOROUGH else 30000)
    c.conform('random', 'h_buffer', 'Buffer', gen_buffer(c.rng("rand"), 32 if not THOROUGH else 2000, 900), CONST_BUF, ['TypeOK'])
    c.require_actions('push', 'insi', 'insh', 'erasei', 'eraseh', 'eraser', 'clear', 'move', 'grow', 'hinc', 'hdec', 'hget', 'hread', 'hset', 'hcmp')


# ---------------------------------------------------------------- circular buffer
def gen_circ(rng, n, length):
    cases = []
    for _ in range(n):
        cap, nh = rng.choice([1, 2, 3, 4, 5, 8, 16]), rng.choice([1, 2, 4])
        ops, q, hs, nid = [], [], [-1] * nh, 1
        pe = rng.choice([0.02, 0.1, 0.2])
        for k in range(length):
            s, t, v = rng.randrange(nh), rng.randrange(nh), rng.randrange(1000)
            live = hs[s] in q
            at = len(q) if hs[s] == 0 else q.index(hs[s]) if live else None
            r = rng.random()
            if r < 0.2:
                ops.append(op('push', v))
                q.append(nid); nid += 1
                if len(q) > cap:
                    q.pop(0)
                hs = [-1 if x == 0 else x for x in hs]
            elif r < 0.2 + pe:
                ops.append(op('insh', s, v, t))
                if not q:
                    q = [nid]; hs = [-1 if x == 0 else x for x in hs]; hs[t] = nid; nid += 1
                elif live:
                    i = q.index(hs[s])
                    if len(q) == cap:
                        q.pop(0); i = max(0, i - 1)
                    q.insert(i, nid); hs = [-1] * nh; hs[t] = nid; nid += 1
            elif r < 0.2 + 2 * pe:
                if rng.random() < 0.5:
                    ops.append(op('eraseh', s))
                    if live:
                        q.remove(hs[s]); hs = [-1] * nh
                elif hs[s] != -1:
                    ops.append(op('eraser', s))
                    if at:
                        q.pop(at - 1); hs = [-1] * nh
            elif r < 0.2 + 2 * pe + 0.005:
                ops.append(op('clear')); q = []; hs = [-1] * nh
            else:
                w = rng.choice(['read', 'hbegin', 'hbegin', 'hend', 'hinc', 'hinc', 'hdec', 'hdec', 'hget', 'hset', 'hcopy', 'hcmp', 'rget'])
                x = []
                if w == 'read':
                    ops.append(op('read', rng.randrange(len(q) + 1))); continue
                if w == 'hbegin':
                    hs[s] = q[0] if q else 0
                elif w == 'hend':
                    hs[s] = 0
                elif w == 'hcopy':
                    hs[s] = hs[t]; x = [t]
                elif w == 'hinc':
                    if live:
                        i = q.index(hs[s]); hs[s] = q[i + 1] if i + 1 < len(q) else 0
                elif w == 'hdec':
                    if hs[s] == -1:
                        continue
                    if at:
                        hs[s] = q[at - 1]
                elif w == 'hset':
                    x = [v]
                elif w == 'rget':
                    if at is None:
                        continue
                elif w == 'hcmp':
                    if at is None or not (hs[t] == 0 or hs[t] in q):
                        continue
                    x = [t]
                ops.append(op(w, s, *x))
        cases.append(([cap, nh], ops))
    return cases


CONST_CIRC = 'CONSTANTS Cfgs = {} MOps = {}\n'


def circular_buffer(c):
    c.build('h_circ')
    H = [0, 1]
    mops = ([('push', 1)] + [('insh', s, v, 1 - s) for s in H for v in (2, 3)][:3] + [(n, s) for n in ('eraseh', 'hbegin', 'hend', 'hinc', 'hdec', 'hget', 'rget') for s in H]
            + [('eraser', 0), ('clear',), ('read', 1), ('hcopy', 0, 1), ('hcmp', 0, 1)])
    props = 'INVARIANT TypeOK\nPROPERTY OrderKept LosesOldest ExcPure\n'
    model_and_walk(c, 'small', 'CircularBuffer', 'h_circ', [[1, 2], [2, 2]], mops, props, trace_consts=CONST_CIRC)
    if THOROUGH:
        model_and_walk(c, 'larger', 'CircularBuffer', 'h_circ', [[3, 2]], mops, props, trace_consts=CONST_CIRC)
    c.conform('random', 'h_circ', 'CircularBuffer', gen_circ(c.rng('rand'), 40 if not THOROUGH else 2000, 800), CONST_CIRC, ['TypeOK'])
    c.require_actions('push', 'insh', 'eraseh', 'eraser', 'clear', 'hinc', 'hdec', 'hget', 'hset', 'hcmp', 'rget')


# ---------------------------------------------------------------- array
def array(c):
    c.build('h_array')
    H = [0, 1]
    props = 'INVARIANT TypeOK\nPROPERTY LastWriteYoungest OrderKept OneEntry FirstFree ExcPure\n'

    def mops(n, vals, hs):
        I = range(n + 1)
        return ([('write', i, v) for i in I for v in vals] + [('wself', i, j) for i in range(n) for j in range(n)][::2]
                + [(o, i) for o in ('erase', 'read', 'age', 'next', 'rvalid', 'oldest', 'youngest') for i in I]
                + [('eraold',), ('clear',), ('access', 0, 7)] + [(o, v) for o in ('wfront', 'wback') for v in (vals if n > 3 else vals[:1])]
                + [('cmp', i, j) for i in range(n) for j in range(n)]
                + [(o, s) for o in ('hbegin', 'habegin', 'hinc', 'hget', 'herase') for s in hs] + [('hcirc', s, n - 1) for s in hs]
                + [('hset', hs[0], 8), ('hwrite', hs[-1], 9)] + [(o, hs[0], hs[-1]) for o in ('heq', 'hcmp')])
    model_and_walk(c, 'aged', 'Array', 'h_array', [[3, 1, 0]], [m for m in mops(3, [1], [0]) if not m[0].startswith('h')], props, trace_consts=CONST_CIRC)
    model_and_walk(c, 'handles', 'Array', 'h_array', [[2, 1, 2], [2, 0, 2], [1, 1, 2]], [m for m in mops(2, [1], H) if m[0] not in ('hset', 'access') and m != ('hcirc', 0, 1)
                   and m != ('habegin', 1)], props, trace_consts=CONST_CIRC, limit=None if THOROUGH else 40000)
    walks_of_model(c, 'random', 'Array', 'h_array', [[n, g, 2] for n in (4, 5, 8) for g in (0, 1, 1)], mops(8, [1, 2, 3, 4], H), trace_consts=CONST_CIRC, trace_inv=["TypeOK"], depth=300)
    c.require_actions('write', 'erase', 'eraold', 'clear', 'wfront', 'wback', 'rvalid', 'cmp', 'next', 'age', 'oldest', 'youngest', 'hinc', 'hget', 'herase')


# ---------------------------------------------------------------- pipe
def pipe(c):
    c.build('h_pipe')
    props = 'INVARIANT TypeOK NeverStuck\nPROPERTY OneChange Lockstep EveryCycle ExcPure\n'

    def mops(n, vals):
        I = range(n + 1)
        return ([('append', v) for v in vals] + [('write', i, v) for i in I for v in vals[:1]] + [(o, i) for o in ('inval', 'flush', 'read') for i in I]
                + [(o,) for o in ('invlast', 'flapp', 'flall', 'clear', 'shift', 'rlast', 'rapp', 'update', 'own')]
                + [(o, v) for o in ('flif', 'flfn') for v in vals] + [('access', 0, 9), ('resize', 0)] + [('step', m) for m in (0, 1, 2)])
    model_and_walk(c, 'two', 'Pipe', 'h_pipe', [[2], [1]], [m for m in mops(2, [1, 2]) if m[0] != 'access'], props, trace_consts=CONST_CIRC)
    model_and_walk(c, 'three', 'Pipe', 'h_pipe', [[3]], [m for m in mops(3, [1, 2]) if m[0] not in ('access', 'read', 'rlast', 'rapp', 'flfn', 'clear')], props, trace_consts=CONST_CIRC,
                   limit=None if THOROUGH else 20000)
    big = [m for m in mops(6, [1, 2, 3, 4, 5]) if m[0] not in ('flall', 'clear', 'own', 'update')]
    both = big + [('resize', 3), ('resize', 8)]
    walks_of_model(c, 'random', 'Pipe', 'h_pipe', [[n] for n in (3, 4, 5, 7, 8)], both + [('own',), ('flall',), ('clear',), ('update',)] + [('step', 3), ('step', 4)], trace_consts=CONST_CIRC,
                   trace_inv=['TypeOK', 'NeverStuck'], num=30)
    c.require_actions('append', 'write', 'inval', 'flush', 'flapp', 'flall', 'clear', 'flif', 'flfn', 'shift', 'update', 'own', 'step', 'resize')


# ---------------------------------------------------------------- pipeline
def pipeline(c):
    c.build('h_pipeline')
    props = 'INVARIANT TypeOK NeverStuck\nPROPERTY NoLoss OneStage StallHolds Marches HandlersExact ExcPure\n'

    def mops(n, vals, ks, acts):
        return ([('append', v) for v in vals] + [('write', i, vals[0]) for i in range(n)] + [(o, i) for o in ('inval', 'flush') for i in range(n)]
                + [('stall', i, k, cr, mu) for i in range(n) for k in ks for cr in (0, 1) for mu in (0, 1) if n > 3 or cr + mu != 2 or i]
                + [('activ', i, b) for i in acts for b in (0, 1)]
                + [(o,) for o in ('flall', 'flapp', 'unstall', 'update', 'own')] + [('step', 0), ('step', 1), ('ran', 0), ('ran', 1)])
    small = [m for m in mops(3, [1], [1, 2], []) if m[0] not in ('flall', 'flapp', 'read', 'write') and m != ('ran', 1) and not (m[0] == 'stall' and (m[2] == 1) != (m[1] == 2))]
    model_and_walk(c, 'own', 'Pipeline', 'h_pipeline', [[0, 1, 1, 1, 1]], [m for m in small if m[0] != 'update'], props, trace_consts=CONST_CIRC, limit=None if THOROUGH else 30000)
    model_and_walk(c, 'manual', 'Pipeline', 'h_pipeline', [[1, 2, 1, 4, 2]], [m for m in small if m[0] not in ('own', 'ran') and m[0:2] != ('step', 1)] + [('ran', 0)], props, trace_consts=CONST_CIRC,
                   limit=None if THOROUGH else 20000)
    for nm, drop in (('walks own', ('update',)), ('walks manual', ('own',))):
        n = 5
        ops = [m for m in mops(n, [1, 2, 3, 4, 5, 6, 7], [1, 2, 3], range(n)) if m[0] not in drop] + [('step', 2), ('ran', 2), ('read', 0), ('read', 4)]
        ops = [m for m in ops if not (m[0] == 'stall' and (m[1] + m[2] + m[3]) % 2)]
        cf = [[0, 1, 1, 1, 1, 1, 1], [1, 2, 2, 0, 4, 1, 3], [0, 0, 1, 0, 2, 3, 4], [1, 1, 1, 3, 1, 0, 1], [0, 2, 1, 3, 0, 3, 1], [1, 0, 4, 4, 4, 0, 2]]
        walks_of_model(c, nm.replace(' ', '_'), 'Pipeline', 'h_pipeline', cf, ops, trace_consts=CONST_CIRC, trace_inv=['TypeOK', 'NeverStuck'], num=24, depth=300)
    # well filled pipelines
    flow = [('append', v) for v in range(1, 30)] + [('step', 0), ('ran', 0)] * 1 + [('update',), ('own',), ('stall', 4, 1, 1, 0), ('stall', 2, 2, 1, 1), ('unstall',), ('flush', 2), ('inval', 3)]
    walks_of_model(c, 'flow', 'Pipeline', 'h_pipeline', cf, flow, trace_consts=CONST_CIRC, trace_inv=['TypeOK', 'NeverStuck'], num=30, depth=300)
    c.require_actions('append', 'write', 'inval', 'flush', 'flall', 'flapp', 'stall', 'unstall', 'activ', 'update', 'own', 'step', 'ran')


# ---------------------------------------------------------------- priority queue
def priority_queue(c):
    c.build('h_prio')
    props = 'INVARIANT TypeOK Ordered\nPROPERTY Stable Ties OnlyNamed ExcPure\nCONSTRAINT Small\nCONSTANT MaxL = %d\n' % (4 if THOROUGH else 3)
    tc = 'CONSTANTS Cfgs = {} MOps = {} MaxL = 0\n'

    def mops(vals, n, hs):
        return ([(o, v) for o in ('insert', 'force', 'remove') for v in vals] + [(o,) for o in ('pop', 'top', 'back', 'clear')] + [(o, i) for o in ('erase', 'remat') for i in range(n)]
                + [('hset', s, i) for s in hs for i in range(n)] + [(o, s) for o in ('hget', 'herase', 'hinc') for s in hs])
    model_and_walk(c, 'order', 'PriorityQueue', 'h_prio', [[0, 1, 0], [2, 1, 0], [3, -1, 0]], [m for m in mops([10, 11, 20, 30], 3, []) if m not in (('force', 11), ('force', 20), ('remove', 30))],
                   props, trace_consts=tc, limit=None if THOROUGH else 40000)
    model_and_walk(c, 'handles', 'PriorityQueue', 'h_prio', [[0, 1, 2], [2, 1, 2]], [m for m in mops([10, 20], 3, [0, 1]) if m[0] not in ('top', 'back') and m != ('hset', 1, 2)], props,
                   trace_consts=tc, limit=None if THOROUGH else 40000)
    walks_of_model(c, 'random', 'PriorityQueue', 'h_prio', [[n, d, 2] for n in (0, 2, 3, 8) for d in (1, -1)], mops([10, 11, 12, 20, 21, 30, 40, 41], 6, [0, 1]),
                   consts='CONSTANT MaxL = 0\n', trace_consts=tc, trace_inv=['TypeOK', 'Ordered'], weights=dict(insert=5, clear=1, force=2))
    c.require_actions('insert', 'force', 'remove', 'remat', 'pop', 'top', 'back', 'clear', 'erase', 'hset', 'hget', 'herase', 'hinc')


# ---------------------------------------------------------------- shared data
def shared_data(c):
    c.build('h_shared')
    props = 'INVARIANT TypeOK NeverStuck\nPROPERTY Shows LastWins NotEarly ExcPure\n'

    def mops(vals, man, two):
        I = [0, 1] if two else [0]
        return ([(o, i, v) for o in ('write', 'wps', 'acps', 'acns') for i in I for v in vals] + [(o, i) for o in ('clps', 'clns', 'clear', 'rdps', 'rdns') for i in I]
                + ([('update', i) for i in I] if man else []) + ([(o, i) for o in ('copy', 'move', 'asgc', 'asgm') for i in I] if two else [])
                + [('step', p, i, o, v) for p in range(5) for i in I for o in (1, 2, 3, 4, 5) for v in (vals if o in (1, 2) else [1])] + [('step', 0, 0, 6, 1)])
    model_and_walk(c, 'auto', 'SharedData', 'h_shared', [[0, 1], [0, 3]], mops([1, 2], False, False), props, trace_consts=CONST_CIRC)
    model_and_walk(c, 'manual', 'SharedData', 'h_shared', [[1, 1]], mops([1], True, False), props, trace_consts=CONST_CIRC)
    few = [m for m in mops([1, 2], False, True) if m[0] in ('copy', 'move', 'asgc', 'asgm') or m in (('write', 0, 1), ('write', 1, 2), ('clps', 0), ('clns', 1), ('step', 0, 0, 6, 1)) or m[0] == 'step' and m[1] == 3 and m[3] == 1 and m[4] == 2]
    model_and_walk(c, 'copies', 'SharedData', 'h_shared', [[0, 1], [0, 2]], few, props, trace_consts=CONST_CIRC)
    walks_of_model(c, 'random', 'SharedData', 'h_shared', [[0, n] for n in (1, 1, 2, 3, 7)], mops([1, 2, 3, 4], False, True), trace_consts=CONST_CIRC, trace_inv=['TypeOK', 'NeverStuck'],
                   weights=dict(step=6))
    c.require_actions('write', 'wps', 'step', 'copy', 'move', 'asgc', 'asgm', 'update', 'clear', 'rdns', 'rdps')


# ---------------------------------------------------------------- shared pointers
def shared_pointers(c):
    c.build('h_sptr')
    props = 'INVARIANT Sound PoolBound\nPROPERTY ExcPure Unchanged Recycle\nCONSTANT MaxO = %d\n' % (3 if THOROUGH else 2)
    tc = 'CONSTANTS Cfgs = {} MOps = {} MaxO = 20\n'

    def mops(ns, nb, nw, vals):
        S, B, W = range(ns), range(nb), range(nw)
        return ([(o, s, v) for o in ('new', 'newr', 'pool', 'poolx', 'nest', 'setv') for s in S for v in vals] + [(o, s, s) for o in ('selfc', 'selfm') for s in S]
                + [(o, s, t) for o in ('copy', 'copyc', 'move', 'movec', 'linkm', 'eq') for s in S for t in S if s != t] + [(o, s, t) for o in ('next', 'nextm', 'link') for s in S for t in S]
                + [(o, s) for o in ('null', 'assn', 'unlink') for s in S] + [('base', b, s) for b in B for s in S] + [('bnull', b) for b in B]
                + [(o, w, s) for o in ('weak', 'weakc') for w in W for s in S] + [('lock', s, w) for s in S for w in W] + [('wcopy', w, x) for w in W for x in W]
                + [('wmove', w, x) for w in W for x in W if w != x] + [('wnull', w) for w in W])
    model_and_walk(c, 'links', 'SharedPtr', 'h_sptr', [[1, 2, 0, 1], [2, 2, 0, 1]] if THOROUGH else [[2, 2, 0, 1]], [m for m in mops(2, 0, 1, [1]) if m[0] not in ('setv', 'newr', 'copyc', 'movec', 'eq', 'assn', 'weakc', 'wcopy') and not (m[0] in ('new', 'poolx', 'nest', 'selfm', 'selfc') and m[1] == 1)], props, trace_consts=tc,
                   limit=None if THOROUGH else 25000)
    def few(b, w):
        return [m for m in mops(2, b, w, [1]) if m[0] in ('pool', 'copy', 'move', 'null', 'base', 'bnull', 'weak', 'wcopy', 'wmove', 'wnull', 'lock') or m[0] == 'new' and m[1] == 1]
    model_and_walk(c, 'based', 'SharedPtr', 'h_sptr', [[1, 2, 1, 1]], few(1, 1), props, trace_consts=tc)
    model_and_walk(c, 'weak', 'SharedPtr', 'h_sptr', [[2, 2, 0, 2]], few(0, 2), props, trace_consts=tc, limit=None if THOROUGH else 25000)
    if THOROUGH:
        model_and_walk(c, 'both', 'SharedPtr', 'h_sptr', [[2, 2, 1, 2]], few(1, 2), props, trace_consts=tc)
    walks_of_model(c, 'random', 'SharedPtr', 'h_sptr', [[n, 4, 1, 3] for n in (1, 2, 3, 5, 8, 8)], mops(4, 1, 3, [1, 2, 3]), consts='CONSTANT MaxO = 20\n', trace_consts=tc, trace_inv=['Sound', 'PoolBound'])
    c.require_actions('new', 'newr', 'pool', 'poolx', 'nest', 'copy', 'copyc', 'move', 'movec', 'null', 'next', 'nextm', 'link', 'linkm', 'unlink', 'base', 'weak', 'wcopy', 'wmove', 'lock', 'selfc')
