from vf import *

CONST_PORTS = 'CONSTANTS Cfgs = {} MOps = {} MaxT = 0 MaxP = 0 MaxS = 0\n'


def tl(x):
    return '<<%s>>' % ','.join(map(str, x))


def port_cfg(ins, outs, drvs, binds, prods=(), cons=()):
    p = [len(ins), len(outs), len(drvs), len(binds), len(prods), len(cons)]
    for x in ins:
        p += list(x)
    for x in outs:
        p += list(x)
    p += list(drvs)
    for l in (binds, prods, cons):
        for x in l:
            p += list(x)
    return p


def handler_blocks(walk, begins=('begin',), ends=('end',), skip=('sendend',), runs=('run',), runend='runend', tail=()):
    """A path through a model with nested handlers -> top-level operations and handler blocks in order of their beginning."""
    out, blocks, stack, runop, pre = [], [], [], None, []

    def flush():
        for b in blocks:
            out.append(op('h'))
            out.extend(b)
            out.append(op('hend'))
        blocks.clear()
    seg = []      # top-level operations whose handlers come afterwards
    for o in list(walk) + [op(runend)]:
        n = o['o']
        if n in begins:
            b = []
            blocks.append(b)
            stack.append(b)
        elif n in ends:
            if stack:
                stack.pop()
        elif n in skip:
            pass
        elif n == runend:
            flush()
            out.extend(seg)
            seg.clear()
            if runop:
                out.append(runop)
            runop = None
            stack = []
        elif n in runs:
            runop = o
        elif stack:
            stack[-1].append(o)
        elif runop is None:
            seg.append(o)
    return out + list(tail)


def port_cases(rng, ncases, rounds=10):
    cases = []
    for _ in range(ncases):
        ni, nd = rng.randint(1, 4), rng.randint(1, 4)
        phs = rng.choice([[2, 5], [5], [1, 2, 5], list(range(7)), [0, 6]])
        ins, kinds = [], []
        for i in range(ni):
            d = rng.choice([0, 0, 1, 1, 2, 3])
            ph = (5 if d == 0 else 2) if rng.random() < 0.4 else rng.choice(phs)
            ins.append((int(rng.random() < 0.3), ph, d, rng.choice([1, 1, 2, 3])))
        no = rng.randint(1, 3)
        outs = [(int(rng.random() < 0.3), int(rng.random() < 0.8)) for _ in range(no)]
        binds = [(o + 1, i + 1) for o in range(no) for i in range(ni) if outs[o][0] == ins[i][0] and rng.random() < 0.7]
        rng.shuffle(binds)
        drvs = [rng.choice(phs + [5]) for _ in range(nd)]
        half = nd // 2
        prods, cons = [], []
        for o in range(no):
            if half and rng.random() < 0.5:
                prods.append((o + 1, rng.randint(1, half)))
        for i in range(ni):
            if rng.random() < 0.5:
                cons.append((i + 1, rng.randint(half + 1, nd)))
        nv = rng.choice([2, 4, 40])

        def ctl(inh):
            r = rng.random()
            o, i = rng.randint(1, no), rng.randint(1, ni)
            v = rng.randint(1, nv)
            dataout, datain = not outs[o - 1][0], not ins[i - 1][0]
            if r < 0.5:
                return op('send', o, 1 if outs[o - 1][0] else v, rng.choice([0, 0, 0, 1, 1, 2, rng.randint(0, 6)]))
            if r < 0.65:
                return op('drv', rng.randint(1, nd), rng.randint(1, 4) if inh else rng.randint(0, 4))
            if r < 0.68 and dataout:
                return op('ocancel', o)
            if r < 0.71 and dataout:
                return op('ocancelif', o, v)
            if r < 0.73 and datain:
                return op('icancel', i)
            if r < 0.76 and datain:
                return op('icancelif', i, v)
            if r < 0.82 and dataout:
                return op('odriven', o, rng.randint(-1, 4))
            if r < 0.88 and datain:
                return op('idriven', i, rng.randint(-1, 4))
            if r < 0.95:
                return op('dq', i)
            return op('pull' if rng.random() < 0.7 else 'clr', i)
        ops = []
        for _ in range(rounds):
            for _ in range(rng.randint(0, 9)):
                ops.append(op('h'))
                for _ in range(rng.choice([0, 1, 2, 3])):
                    ops.append(ctl(True))
                ops.append(op('hend'))
            for _ in range(rng.randint(0, 5)):
                ops.append(ctl(False))
            ops.append(op('run', rng.choice([1, 1, 2, 5, 12])))
        ops.append(op('run', 60))
        cases.append((port_cfg(ins, outs, drvs, binds, prods, cons), ops))
    return cases


PORT_INV = ('VIEW View\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANT NotLate Signals\nPROPERTY Once\n')


def port_model(c, name, cfgs, mops, maxt, maxp, maxs, limit=None):
    mod = ('---- MODULE MC_Ports ----\nEXTENDS Ports\nCfgsDef == {%s}\nMOpsDef == {%s}\n====\n' % (
        ','.join(tl(x) for x in cfgs), ','.join('<<"%s", %s>>' % (o, tl(a)) for o, a in mops)))
    mc = c.model(name, 'MC_Ports', 'CONSTANTS MaxT = %d MaxP = %d MaxS = %d\nCONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\n' % (maxt, maxp, maxs) + PORT_INV,
                 edges=True, modtext=mod)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    walks = cover(mc, 40, c.rng('walk' + name), limit)
    c.conform(name, 'h_port', 'Ports', [(roots[r], handler_blocks(w, tail=[op('run', 20)])) for r, w in walks], CONST_PORTS, ['NotLate', 'Signals'])


def ports(c):
    c.build('h_port')
    q = 1 if not THOROUGH else 2
    # fan-out to an immediate and a delayed port, driven from an event of the same phase
    A = port_cfg([(0, 5, 0, 1), (0, 2, 1, 1)], [(0, 1)], [5], [(1, 1), (1, 2)])
    port_model(c, 'fanout', [A], [('send', (1, 1, 0)), ('send', (1, 2, 1)), ('drv', (1, 1)), ('ocancel', (1,)), ('ocancelif', (1, 2)), ('idriven', (2, 1)), ('odriven', (1, -1)), ('run', (1,))],
               1, 2 if not THOROUGH else 3, 3, limit=40000 if not THOROUGH else None)
    # fan-in of signals, merging; a phase that is too early
    B = port_cfg([(1, 5, 1, 1), (1, 2, 0, 1)], [(1, 1), (1, 1)], [5], [(1, 1), (2, 1), (2, 2)])
    port_model(c, 'signals', [B], [('send', (1, 1, 0)), ('send', (1, 1, 1)), ('send', (2, 1, 0)), ('drv', (1, 0)), ('drv', (1, 1)), ('dq', (1,)), ('run', (1,))],
               q, 2 if not THOROUGH else 3, 3, limit=40000 if not THOROUGH else None)
    # producer and consumer events registered with the ports
    C = port_cfg([(0, 5, 0, 1)], [(0, 1)], [5, 5], [(1, 1)], [(1, 1)], [(1, 2)])
    port_model(c, 'precedence', [C], [('send', (1, 1, 1)), ('send', (1, 2, 0)), ('drv', (1, 1)), ('drv', (2, 1)), ('icancel', (1,)), ('pull', (1,)), ('run', (1,))],
               q, 3, 3, limit=40000 if not THOROUGH else None)
    c.conform('random', 'h_port', 'Ports', port_cases(c.rng('a'), 5000 if THOROUGH else 350), CONST_PORTS, ['NotLate', 'Signals'])
    c.require_actions('send', 'begin', 'ocancel', 'ocancelif', 'icancel', 'idriven', 'odriven', 'dq', 'pull')
