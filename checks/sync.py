from vf import *
from ports import tl

CONST_SYNC = 'CONSTANTS Cfgs = {} MOps = {} MaxT = 0 MaxP = 0\n'


def sync_cfg(links):
    return [len(links)] + [x for l in links for x in l]


def blocks(walk):
    """A path through the model -> operations per tick, before and after the deliveries."""
    out, t, late, last = [], 0, False, None
    for o in walk:
        if o['o'] == 'beat':
            t, late = t + 1, False
        elif o['o'] == 'late':
            late = True
        elif o['o'] != 'rx':
            key = ('l' if late else 'e', t)
            if last != key:
                if last:
                    out.append(op('end'))
                out.append(op(*key))
                last = key
            out.append(o)
    if last:
        out.append(op('end'))
    return out + [op('run', t + 12)]


def sync_cases(rng, n, ticks=70):
    cases = []
    for _ in range(n):
        links = []
        for _ in range(rng.randint(1, 3)):
            rv = rng.random() < 0.4
            pr = rng.choice([1, 1, 2, 3, 4, 6, 10])
            ps = pr if rv else rng.choice([1, 2, 3, 4, 5, 6, 10])
            hd = rng.choice([0, 2]) if rv else (rng.choice([0, 2, 2, 4, 6, 1, 3, 5]) if pr % 2 == 0 else rng.choice([0, 2, 4, 6]))
            links.append((ps, pr, hd, int(rv), int(not rv or rng.random() < 0.8)))
        ops = []
        dens = rng.choice([0.3, 0.7, 1.0])
        rdy = [l[4] for l in links]
        for t in range(ticks):
            setr = set()
            for ph in 'el':
                if rng.random() > dens:
                    continue
                b = []
                for _ in range(rng.randint(1, 4)):
                    i = rng.randint(1, len(links))
                    ps, pr, hd, rv, _r = links[i - 1]
                    if t % ps and rng.random() < 0.9:
                        continue
                    r = rng.random()
                    v = rng.randint(1, 999)
                    late0 = ph == 'l' and hd == 0        # an arrival in the tick whose deliveries are over
                    if r < 0.45 and not rv:
                        d = rng.choice([0, 0, 0, 1, 2, 3]) if not late0 else rng.randint(1, 3)
                        b.append(op('send', i, v, d, int(rng.random() < 0.6)))
                    elif r < 0.65 and not late0:
                        b.append(op('try', i, v))
                    elif r < 0.7:
                        b.append(op('isready', i))
                    elif r < 0.72:
                        b.append(op('readyps', i))
                    elif r < 0.85 and rv:
                        x = rng.randint(0, 1)
                        if t % pr == 0:
                            b.append(op('setready', i, x if i not in setr or rng.random() < 0.1 else rdy[i - 1]))
                            if i not in setr and t > 0:
                                rdy[i - 1] = b[-1]['a'][1]
                            setr.add(i)
                    elif r < 0.89:
                        b.append(op('next', i, rng.randint(0, 3), rng.randint(0, 4)))
                    elif r < 0.93:
                        b.append(op('idriven', i, rng.randint(-1, 4)))
                    elif r < 0.96:
                        b.append(op('odriven', i, rng.randint(-1, 4)))
                    else:
                        b.append(op(rng.choice(['dq', 'dq', 'pull']), i))
                if b:
                    ops += [op(ph, t)] + b + [op('end')]
        for i, l in enumerate(links):
            if l[3]:
                t = (ticks // l[1] + 2) * l[1]
                ops += [op('e', t), op('setready', i + 1, 1), op('end')]
        cut = rng.randint(1, ticks)
        ops += [op('run', cut), op('run', ticks + 60)]
        cases.append((sync_cfg(links), ops))
    return cases


SYNC_INV = ('VIEW View\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANT InFlight NotStuck\n'
            'PROPERTY ReadyExact NotEarly Once\n')


def sync_model(c, name, cfgs, mops, maxt, maxp, limit=None):
    mod = ('---- MODULE MC_Sync ----\nEXTENDS Sync\nCfgsDef == {%s}\nMOpsDef == {%s}\n====\n' % (
        ','.join(tl(x) for x in cfgs), ','.join('<<"%s", %s>>' % (o, tl(a)) for o, a in mops)))
    mc = c.model(name, 'MC_Sync', 'CONSTANTS MaxT = %d MaxP = %d\nCONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\n' % (maxt, maxp) + SYNC_INV,
                 edges=True, modtext=mod)
    roots = {v: json.loads(s)[0] for s, v in mc['ids'].items()}
    walks = cover(mc, 60, c.rng('walk' + name), limit)
    c.conform(name, 'h_sync', 'Sync', [(roots[r], blocks(w)) for r, w in walks], CONST_SYNC, ['InFlight', 'NotStuck'])


def sync(c):
    c.build('h_sync')
    T = THOROUGH
    # every pair of small periods and delays
    pairs = [(1, 1), (1, 2), (2, 1), (2, 3), (3, 2)] + ([(1, 3), (3, 1), (4, 6), (6, 4)] if T else [])
    cfgs = [sync_cfg([(a, b, d, 0, 1)]) for a, b in pairs for d in ((0, 1, 2) if b % 2 == 0 else (0, 2))]
    sync_model(c, 'crossing', cfgs, [('send', (1, 1, 0, 0)), ('send', (1, 2, 1, 0)), ('send', (1, 3, 0, 1)), ('isready', (1,)),
                                     ('next', (1, 0, 1))], 4 if not T else 6, 2, limit=16000 if not T else 400000)
    cfgs = [sync_cfg([(1, 1, d, 1, r)]) for d in (0, 2) for r in (0, 1)] + [sync_cfg([(2, 2, 2, 1, 1)])]
    sync_model(c, 'handshake', cfgs, [('try', (1, 1)), ('try', (1, 2)), ('setready', (1, 0)), ('setready', (1, 1)), ('isready', (1,)),
                                      ('idriven', (1, 1))], 5 if not T else 8, 2, limit=16000 if not T else 400000)
    c.conform('random', 'h_sync', 'Sync', sync_cases(c.rng('a'), 5000 if T else 220), CONST_SYNC, ['InFlight', 'NotStuck'])
    c.require_actions('send', 'try', 'rx', 'setready', 'isready', 'next', 'idriven', 'odriven', 'dq', 'pull')
