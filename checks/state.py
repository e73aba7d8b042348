"""Checks of the simulated state: checkpoints, memory, registers."""
from vf import *
from resources import model_and_walk, walks_of_model, THOROUGH


def checkpoints(c):
    c.build('h_ckpt')
    props = 'INVARIANT TypeOK\nPROPERTY Frozen LoadExact ExcPure\n'
    tc = 'CONSTANTS Cfgs = {} MOps = {} MaxC = 100000 Loose = TRUE\n'
    def mops(vals, n, extra=(), runs=(5,), v=(1,)):
        return ([('w', i, x) for i in vals for x in v] + [('run', k) for k in runs] + [('create', 0), ('create', 1)]
                + [(o, i) for o in ('load', 'delete') for i in range(n)] + list(extra))
    def m(name, cfgs, ops, maxc, lim=20000):
        model_and_walk(c, name, 'Checkpoint', 'h_ckpt', cfgs, ops, props + 'CONSTANTS MaxC = %d Loose = FALSE\n' % maxc, trace_consts=tc, limit=None if THOROUGH else lim)
    m('branches', [[5, 1]], mops([1], 3, v=(1, 2) if THOROUGH else (1,), runs=()), 3, 6000)
    # what is kept of deleted checkpoints depends on the order of deletions: explore all orders
    for n, thresh, kinds, lim in ((4, 20, (0,), None),) + (((4, 20, (0, 1), None),) if THOROUGH else ((3, 20, (0, 1), 8000),)):
        model_and_walk(c, 'pruned%d' % len(kinds), 'Checkpoint', 'h_ckpt', [[thresh, n, 1]], [('head',)] + [('wcreate', k) for k in kinds] + [('load', i) for i in range(n + 1)] + [('delete', i) for i in range(1, n + 1)],
                       props + 'CONSTANTS MaxC = %d Loose = FALSE\n' % n, trace_consts=tc, limit=None if THOROUGH else lim)
    def walk(name, extra, **kw):
        walks_of_model(c, name, 'Checkpoint', 'h_ckpt', [[n, 8] for n in (0, 1, 2, 3, 5, 20)],
                       mops(range(1, 9), 14, [('head',)] + [('chain', i) for i in range(6)] + [('latest', t, i) for t in (0, 5, 12) for i in range(8)] + [('at', t) for t in (0, 3, 5, 8)]
                            + extra, (1, 5), (0, 1, 2, 3)),
                       consts='CONSTANTS MaxC = 60 Loose = FALSE\n', trace_consts=tc, trace_inv=['TypeOK'], **kw)
    walk('random', [])
    files = [('save',)] + [('restore', k) for k in (1, 2)]
    walk('files', files)
    walk('forget', [('forget',)])
    commit = [('squash', 0), ('squash', 1)] + [('peek', k) for k in (1, 2, 3)]
    walk('commit', commit)
    walk('all', files + commit + [('forget',)])
    c.finding('checkpointable', 'h_ckpt', 'Checkpoint', ([5, 8], [op('head'), op('w', 8, 1), op('create', 0), op('w', 8, 2), op('create', 0), op('load', 1)]),
              lambda e: e['o'] == 'load' and e['s']['v'] == [0] * 8, tc)
    c.require_actions('w', 'run', 'create', 'load', 'delete')


def memory(c):
    c.build('h_mem')
    props = 'INVARIANT Lazy\nPROPERTY OnlyNamed RefusedPure\n'
    def mops(ads, ns, xs, dads=None):
        o = [('clean',), ('observe', 0), ('observe', 1), ('nodmi',)]
        o += [(k, a, n) for k in ('read', 'tread', 'peek', 'tpeek', 'oread', 'dmi') for a in ads for n in ns]
        o += [(k, a, n, x) for k in ('write', 'twrite', 'poke', 'tpoke', 'owrite') for a in ads for n in ns for x in xs]
        for b in dads or ads:
            o += [('dread', b, a, n) for a in ads for n in ns] + [('dwrite', b, a, n, x) for a in ads for n in ns for x in xs]
        return o
    model_and_walk(c, 'edges', 'Memory', 'h_mem', [[2, 4, 1], [2, 4, 2], [1, 3, 1]], mops((-2, -1, 0, 1, 2, 3, 4), (1, 2, 3), (1,), (-2, 1, 2)), props, limit=None if THOROUGH else 30000)
    model_and_walk(c, 'patterns', 'Memory', 'h_mem', [[8, 16, 4], [4, 8, 8], [16, 16, 8], [8, 8, 2]], [(k, a, n) for k in ('read', 'peek') for a in range(17) for n in range(1, 18)] + [('owrite', 15, 1, 9), ('write', 0, 1, 9)], props, limit=None)
    for k in range(4 if THOROUGH else 1):
        r = c.rng('far%d' % k)
        ads = sorted(r.sample(range(0, 70), 13)) + [-1, -8, 96]
        walks_of_model(c, 'random%d' % k, 'Memory', 'h_mem', [[bs, t, fs] for bs, t in ((16, 64), (8, 48), (32, 96), (64, 64), (1, 20), (2, 22), (4, 32)) for fs in (1, 2, 4, 8)],
                       mops(ads, (1, 2, 4, 7, 16, 33), (90,), (0, 17, 70)), num=48)
    c.build('h_mmap')
    props = 'INVARIANT Disjoint OneDevice\nPROPERTY Kept\n'
    n = 7 if THOROUGH else 6
    # every order of adding mappings: the search tree inside depends on it
    model_and_walk(c, 'orders', 'MemMap', 'h_mmap', [[1, n, 1, n]], [('add', i, j, 1, 0) for i in range(n) for j in range(i + 1, n + 1)], props)
    acc = [(k, a, n) for k in ('tread', 'peek', 'has') for a in range(7) for n in (1, 3)] + [(k, a, n) for k in ('read', 'tpeek', 'dmi') for a in (1, 4, 5) for n in (1, 2)]
    acc += [('write', 4, 2, 1), ('write', 3, 2, 1), ('twrite', 1, 1, 1), ('poke', 0, 3, 1), ('tpoke', 1, 4, 1), ('tpoke', 5, 2, 1)]
    model_and_walk(c, 'access', 'MemMap', 'h_mmap', [[2, 6, 2, 4]], acc + [('add', 0, 2, 1, 0), ('add', 2, 6, 2, 0), ('add', 2, 4, 2, 2), ('add', 4, 6, 2, 2), ('add', 4, 6, 1, 0), ('add', 0, 3, 1, 0), ('add', 1, 2, 1, 0), ('add', 0, 2, 2, 1),
                   ('add', 0, 6, 1, 0), ('add', 2, 2, 1, 0), ('add', 4, 2, 1, 0), ('dev', 2, 3, 99)], props, limit=None if THOROUGH else 20000)
    for k in range(4 if THOROUGH else 1):
        r = c.rng('maps%d' % k)
        adds = []
        for i in range(120):
            x = r.randrange(0, 30)
            y = min(30, x + r.choice([0, 1, 1, 1, 2, 2, 3, 5]))
            adds.append(('add', 4 * x + (1 if r.random() < 0.03 else 0), 4 * y, r.randrange(1, 4), 4 * r.randrange(0, 5)))
        at = r.sample(range(120), 10) + [-1, -4, 119, 120]
        acc = [(k, a, n) for k in ('read', 'tread', 'peek', 'tpeek', 'has', 'dmi') for a in at if not (k in ('has', 'dmi') and a < 0) for n in (1, 3, 4, 9)] + [(k, a, n, 1) for k in ('write', 'twrite', 'poke', 'tpoke') for a in at for n in (1, 2, 4, 7, 12)]
        walks_of_model(c, 'maps%d' % k, 'MemMap', 'h_mmap', [[4, 120, 3, 24]], adds + acc + [('dev', d, a, 7) for d in (1, 2, 3) for a in (0, 5, 9)], num=24, depth=150)
    c.build('h_cmem')
    props = 'INVARIANT InOrder Bounded\nPROPERTY CommitUnseen Private ExcPure\n'
    def cops(ads, ns, xs, k):
        return ([(o, a, n) for o in ('read', 'peek') for a in ads for n in ns] + [('write', a, n, x) for a in ads for n in ns for x in xs] + [('poke', a, n, 60) for a in ads for n in ns]
                + [('other', a, n, 70) for a in ads for n in ns if a >= 0 and a + n <= 4 and a // 2 == (a + n - 1) // 2] + [(o, i) for o in ('commit', 'drop') for i in range(1, k + 2)] + [('find', a) for a in ads])
    small = ([('write', a, n, 10) for a, n in ((0, 1), (0, 2), (1, 1), (1, 2), (3, 1))] + [('poke', 0, 1, 60), ('poke', 3, 1, 60), ('poke', 1, 2, 60), ('other', 1, 1, 70), ('other', 2, 2, 70), ('other', 0, 2, 70)]
             + [(o, i) for o in ('commit', 'drop') for i in (1, 2, 3)] + [('find', 0), ('find', 1), ('read', 0, 2), ('read', 1, 2), ('peek', 1, 3), ('peek', 3, 2)])
    model_and_walk(c, 'cached', 'CachedMemory', 'h_cmem', [[2, 4, 2]], small, props, limit=None if THOROUGH else 20000)
    for k in range(4 if THOROUGH else 1):
        r = c.rng('cached%d' % k)
        ads = sorted(r.sample(range(0, 48), 12)) + [-1, 47, 48]
        ops = cops(ads, (1, 2, 4, 8), (10, 200), 5) + [('other', a, n, 70) for a in ads for n in (1, 2, 3, 8, 16) if a >= 0 and a // 16 == (a + n - 1) // 16 and a + n <= 48]
        walks_of_model(c, 'cached%d' % k, 'CachedMemory', 'h_cmem', [[16, 48, 4], [16, 48, 12]], ops, num=24, depth=200)
    c.require_actions('commit', 'drop', 'other', 'find')
    c.require_actions('add', 'has', 'read', 'tread', 'write', 'twrite', 'peek', 'tpeek', 'poke', 'tpoke', 'oread', 'owrite', 'dread', 'dwrite', 'dmi', 'clean')


def register_config(r, n):
    """A random register set: n registers, some of them parts of others, with fields"""
    regs = []
    for i in range(n):
        subs = [j for j in range(len(regs)) if regs[j][0] > 1]
        if subs and r.random() < 0.4:
            s = r.choice(subs)
            b = r.choice([k for k in (1, 2, 4, 8, 16) if k <= regs[s][0]])
            x = [b, s + 1, r.randrange(0, regs[s][0] - b + 1)]
        else:
            x = [r.choice([1, 2, 4, 8, 16, 32] if n < 6 else [1, 2, 4, 8]), 0, 0]
        fs = []
        for _ in range(r.choice([0, 1, 2, 3])):
            lo = r.randrange(8 * x[0])
            fs += [lo, min(8 * x[0] - 1, lo + r.choice([0, 1, 3, 7, 12, 30, 40, 63, 63])), int(r.random() < 0.4)]
        regs.append(x + [int(r.random() < 0.8), len(fs) // 3] + fs)
    return [n] + [y for x in regs for y in x]


def registers(c):
    c.build('h_regs')
    props = 'INVARIANT TypeOK\nPROPERTY Protected OnlyThere FieldOnly ReadsPure\n'
    def mops(regs, sizes, idxs, xs, raw, bits):
        o = [('resetall',)]
        for i in regs:
            o += [(k, i, n, j) for k in ('read', 'peek', 'dread') for n in sizes for j in idxs]
            o += [(k, i, n, j, x) for k in ('write', 'writeu', 'poke', 'pokeu', 'dwrite', 'rwriteu') for n in sizes for j in idxs for x in xs]
            o += [(k, i, n, f) for k in ('bread', 'bpeek') for n, f in raw] + [(k, i, n, f, x) for k in ('bwrite', 'bwriteu', 'bpoke', 'bpokeu') for n, f in raw for x in xs]
            o += [(k, i, f) for k in ('fread', 'fpeek') for f in (1, 2, 3)] + [(k, i, f, n, x) for k in ('fwrite', 'fpoke', 'fpokeu') for f in (1, 2, 3) for n in bits for x in xs]
            o += [('rcheck', i), ('mask', i), ('reset', i, 0), ('reset', i, 1), ('observe', i, 0), ('observe', i, 1), ('cb', i, 0), ('cb', i, 1)] + [('wcheck', i, n, x) for n in (4, 8) for x in xs]
        return o
    # 2 bytes with two read-only stretches; its upper byte; a stretch across the bytes; one of its own
    model_and_walk(c, 'fields', 'Registers', 'h_regs', [[3, 2, 0, 0, 1, 3, 0, 2, 0, 5, 10, 1, 9, 15, 0, 1, 1, 1, 0, 2, 0, 3, 1, 2, 7, 0, 1, 0, 0, 0, 0]],
                   [m for m in mops((1, 2, 3), (1, 2), (0, 1), (255,), ((2, 0), (1, 1)), (2, 7)) if m[0] not in ('observe', 'cb')], props, limit=None if THOROUGH else 25000)
    # every mask of a register against every field of it, in all sizes
    def field(b, lo, hi, ro=0): return [1, b, 0, 0, 1, 2, lo, hi, 0, (lo * 7 + 3) % (8 * b), min(8 * b - 1, (lo * 7 + 3) % (8 * b) + 5), 1]
    cfgs = [field(b, lo, hi) for b in ((1, 2, 4, 8, 16, 32) if THOROUGH else (1, 2, 4, 16)) for lo in range(0, 8 * b, 1 if b < 4 else 11 if THOROUGH else 23) for hi in sorted({lo, min(8 * b - 1, lo + 6), min(8 * b - 1, lo + 31), min(8 * b - 1, lo + 63)})]
    model_and_walk(c, 'widths', 'Registers', 'h_regs', cfgs + [field(8, 0, 0), field(8, 3, 3)], [('fwrite', 1, 1, 64, 0), ('fwrite', 1, 1, 1, 255), ('fpokeu', 1, 1, 6, 255), ('fpoke', 1, 2, 3, 255), ('fpokeu', 1, 1, 64, 258), ('fwrite', 1, 2, 64, 511), ('fpokeu', 1, 2, 2, 255), ('fread', 1, 1), ('mask', 1)], props, limit=None if THOROUGH else 6000)
    for k in range(4 if THOROUGH else 1):
        r = c.rng('sets%d' % k)
        ms = mops(range(1, 8), (1, 2, 4, 8), (0, 1, 2, 3), (0, 255, 90, 257, 511), ((1, 0), (2, 1), (3, 0), (4, 2), (5, 3), (8, 0), (8, 8), (12, 2), (16, 0), (32, 0), (7, 9)), (1, 3, 8, 20, 40, 64))
        walks_of_model(c, 'sets%d' % k, 'Registers', 'h_regs', [register_config(r, r.choice([2, 3, 4, 5, 6, 7])) for _ in range(24)], r.sample(ms, 1200), num=48, depth=150)
    c.require_actions('write', 'poke', 'fwrite', 'reset', 'observe')
