from vf import *
from fractions import Fraction
from math import lcm, gcd

CONST_CLK = 'CONSTANTS Cfgs = {} MOps = {} MaxPer = 0 MaxT = 0\n'


def periods(nodes):
    ps = [Fraction(1)]
    for p, a, b in nodes:
        ps.append(ps[p - 1] * b / a)
    m = 1
    for x in ps:
        m = lcm(m, x.denominator)
    return [int(x * m) for x in ps]


def clock_cases(rng, ncases):
    cases = []
    freqs = [f for f in range(1, 20001) if 1000000 % f == 0]
    while len(cases) < ncases:
        n = rng.randint(1, 7)
        mode = int(rng.random() < 0.2)
        nodes = []
        hi = rng.choice([2, 4, 7, 12, 40])
        for i in range(n):
            p = rng.randint(1, i + 1)
            nodes.append((p, rng.choice(freqs), 0) if mode else (p, rng.randint(1, hi), rng.randint(1, hi)))
        per = [1] + [1000000 // x[1] for x in nodes] if mode else periods(nodes)
        if max(per) > 200000:
            continue
        ops, t = [], 0

        def query():
            s, d = rng.randint(1, n + 1), rng.randint(1, n + 1)
            r = rng.random()
            if r < 0.25:
                return [op('at')]
            if r < 0.4:
                return [op('conv', s, rng.choice([0, 1, 2, rng.randint(0, 200), rng.randint(0, 2000000000 // per[s - 1])]))]
            big = max(per)
            a, b = rng.choice([0, 1, per[s - 1], rng.randint(0, 3 * big)]), rng.choice([0, per[d - 1], rng.randint(0, 3 * big)])
            if r < 0.8:
                return [op('cross', s, d, a, b)]
            x = per[d - 1] * ((a + b) // per[d - 1] + rng.randint(1, 5)) + (rng.random() < 0.15)
            return [op('rev', x, s, d, a, b)]
        for _ in range(rng.randint(2, 5)):
            for _ in range(rng.randint(0, 3)):
                ops += query()
            run = rng.choice([1, 2, 5, 20, 60])
            small = [p for p in per if p <= 60]
            for _ in range(rng.randint(1, 6)):
                tt = t + rng.randrange(run)
                if small and rng.random() < 0.7:
                    p = rng.choice(small)
                    tt = max(t, min(t + run - 1, (tt // p) * p))
                ops.append(op('h', tt))
                for _ in range(rng.randint(1, 5)):
                    ops += query()
                ops.append(op('hend'))
            ops.append(op('run', run))
            t += run
        ops.append(op('at'))
        p = [mode, n]
        for x in nodes:
            p += list(x)
        cases.append((p, ops))
    return cases


def clock_blocks(walk, prefix=()):
    out, now, body, runs, runop = [], 0, {}, [], None
    n = 0
    for o in walk + [op('runend')]:
        if o['o'] == 'norm':
            continue
        if o['o'] == 'run':
            runop, n = True, 1
        elif o['o'] == 'beat':
            n += 1
            now += 1
        elif o['o'] == 'runend':
            if runop:
                for t in sorted(body):
                    out += [op('h', t)] + body[t] + [op('hend')]
                out.append(op('run', n))
                now += 1
            runop, body = None, {}
        elif runop:
            body.setdefault(now, []).append(o)
        else:
            out.append(o)
    return out


def clocks(c):
    c.build('h_clock')
    cfgs = [[0, 2, 1, 2, 1, 1, 1, 3], [0, 2, 1, 2, 3, 2, 1, 2], [0, 2, 1, 3, 2, 2, 2, 1], [0, 2, 1, 3, 2, 1, 2, 3]]
    mops = [('at', ())] + [('conv', (i, x)) for i in (1, 2, 3) for x in (0, 3)] + \
           [('cross', (s, d, a, b)) for s in (1, 2, 3) for d in (1, 2, 3) for a, b in ((0, 0), (1, 0), (2, 3), (0, 5))] + \
           [('rev', (x, s, d, a, b)) for x in (12, 18, 19) for s in (1, 2, 3) for d in (1, 2, 3) for a, b in ((0, 0), (1, 0), (2, 3))] + [('run', (1,))]
    tl = lambda x: '<<%s>>' % ','.join(map(str, x))
    mod = ('---- MODULE MC_Clocks ----\nEXTENDS Clocks\nCfgsDef == {%s}\nMOpsDef == {%s}\n====\n' % (
        ','.join(tl(x) for x in cfgs), ','.join('<<"%s", %s>>' % (o, tl(a)) for o, a in mops)))
    mc = c.model('edges', 'MC_Clocks', 'CONSTANTS MaxPer = 12 MaxT = %d\nCONSTANT Cfgs <- CfgsDef MOps <- MOpsDef\nVIEW View\nSPECIFICATION Spec\n'
                 'CHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANT RoundTrip\nPROPERTY Arrives Inverts\n' % (40 if THOROUGH else 13), edges=True, modtext=mod)
    # the code chooses the smallest normalisation; walks over other multiples of the periods do not apply to it
    states = {v: json.loads(s) for s, v in mc['ids'].items()}
    best = {}
    for s in states.values():
        if s[1]:
            best[str(s[0])] = min(best.get(str(s[0]), s[1]), s[1])
    mc['edges'] = [e for e in mc['edges'] if (not states[e[2]][1]) or states[e[2]][1] == best[str(states[e[2]][0])]]
    walks = cover(mc, 200, c.rng('walk'))
    c.conform('edges', 'h_clock', 'Clocks', [(states[r][0], clock_blocks(w)) for r, w in walks], CONST_CLK, ['RoundTrip'])
    c.conform('random', 'h_clock', 'Clocks', clock_cases(c.rng('a'), 6000 if THOROUGH else 500), CONST_CLK, ['RoundTrip'])
    c.require_actions('norm', 'at', 'conv', 'cross', 'rev', 'beat', 'runend')
