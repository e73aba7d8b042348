from vf import *
from resources import model_and_walk, walks_of_model, THOROUGH


def cache(c):
    c.build('h_cache')
    props = 'INVARIANT Once Policies Clean\nPROPERTY OneWay Coherent Touched\n'
    lim = None if THOROUGH else 12000
    def ops1(bs, xs): return ([(k, b) for k in ('hit', 'line', 'hitc', 'inv', 'open') for b in bs] + [('read', b, c, n) for b in bs for c, n in ((1, 1), (1, 2), (3, 1))]
                              + [('write', b, c, n, x) for b in bs for c, n in ((1, 1), (1, 2), (3, 1)) for x in xs] + [('mode', w, a) for w in (0, 1) for a in (0, 1)] + [('invall',), ('clear',)])
    def ops2(bs, xs): return ([(k, b) for k in ('hit', 'fill', 'filli', 'drop', 'mru', 'lru', 'open') for b in bs] + [('fillnt', b, n) for b in bs for n in (0, 1)] + [('rd', b, c, n) for b in bs for c, n in ((1, 2), (3, 1))]
                              + [('wr', b, c, n, x) for b in bs for c, n in ((1, 2), (3, 1)) for x in xs] + [('invall',)])
    # one set of two ways: three blocks, all modes
    model_and_walk(c, 'one', 'Cache', 'h_cache', [[1, 1, 1, 2, 512, 512]], [m for m in ops1((0, 1, 2), (40,)) if m[0] not in ('clear', 'open') and not (m[0] in ('read', 'write') and m[2] == 1 and m[3] == 1)
                                                                          and not (m[0] == 'write' and m[2] == 3)], props, limit=lim)
    # all states of the replacement policies
    model_and_walk(c, 'policy', 'Cache', 'h_cache', [[2, 1, 1, 4, 8, 8], [2, 2, 1, 4, 8, 8], [2, 1, 1, 3, 16, 16], [2, 2, 1, 1, 8, 8], [2, 2, 2, 2, 8, 64]],
                   [m for m in ops2((0, 1, 2, 3, 4), ()) if m[0] in ('fill', 'filli', 'drop', 'mru', 'lru', 'hit', 'invall')], props, limit=lim)
    model_and_walk(c, 'temporal', 'Cache', 'h_cache', [[2, 1, 1, 2, 8, 8], [2, 2, 1, 4, 8, 8]], [('fillnt', b, n) for b in (0, 1, 2, 3) for n in (0, 1)] + [('drop', 1), ('invall',)], props, limit=lim)
    for k in range(4 if THOROUGH else 1):
        bs = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 66, 129, 1024, 4097]
        walks_of_model(c, 'one%d' % k, 'Cache', 'h_cache', [[1, 1, 4, 4, 64, 64], [1, 2, 2, 8, 64, 64], [1, 1, 8, 2, 64, 256], [1, 2, 2, 2, 256, 256], [1, 1, 1, 4, 256, 256], [1, 1, 2, 16, 32, 32], [1, 2, 4, 1, 256, 1024]], ops1(bs, (40, 90)), num=48, depth=250, weights={'read': 3, 'write': 3, 'line': 1})
        walks_of_model(c, 'two%d' % k, 'Cache', 'h_cache', [[2, 1, 4, 4, 64, 64], [2, 2, 2, 8, 16, 16], [2, 1, 8, 2, 8, 8], [2, 2, 1, 32, 8, 8], [2, 1, 2, 5, 8, 8], [2, 2, 16, 2, 32, 128], [2, 2, 1, 128, 8, 8]], ops2(bs, (40, 90)), num=48, depth=250, weights={'filli': 2, 'fill': 2})
    c.require_actions('read', 'write', 'line', 'inv', 'invall', 'mode', 'fill', 'filli', 'fillnt', 'drop', 'mru', 'lru', 'rd', 'wr')


def small(c):
    c.build('h_small')
    lim = None if THOROUGH else 10000
    # the list: all lists of up to three values in pools of one to four nodes
    vs = (1, 2)
    fl = ([(k, v) for k in ('back', 'front') for v in vs + (-1,)] + [('ins', i, v) for i in range(4) for v in vs + (-1,)] + [('emp', i, 1) for i in range(4)]
          + [('del', i) for i in range(4)] + [('set', 1, 2), ('popb',), ('popf',), ('clear',)])
    model_and_walk(c, 'list', 'FastList', 'h_small', [[1, n] for n in (1, 2, 3, 4)], fl, 'INVARIANT Bounded\nPROPERTY OneAtATime NoRoom\n', limit=lim)
    fl = ([(k, v) for k in ('back', 'front') for v in (7, 8, 9, -1)] + [('ins', i, v) for i in range(12) for v in (3, -2)] + [('emp', i, 4) for i in range(12)]
          + [('del', i) for i in range(12)] + [('set', i, 5) for i in range(4)] + [('popb',), ('popf',), ('clear',)])
    walks_of_model(c, 'list', 'FastList', 'h_small', [[1, n] for n in (1, 2, 5, 8, 16)], fl, num=48, depth=300, weights={'back': 2, 'front': 2})
    # bits
    def ba(sizes, vals, shifts):
        return ([('make', i, v, n) for i in (1, 2) for v in vals for n in sizes] + [('raw', i, d, n) for i in (1, 2) for d in sizes for n in sizes] + [('fill', i, v, w) for i in (1, 2) for v, w in ((165, 1), (0, 1), (51966, 2), (255, 1))]
                + [(k, i, s * x) for k in ('sh', 'shto') for i in (1, 2) for s in shifts for x in (1, -1)]
                + [(k, i) for k in ('and', 'or', 'andto', 'orto', 'not', 'notto', 'copy', 'ctor', 'move', 'mctor', 'self', 'swap') for i in (1, 2)])
    model_and_walk(c, 'bits', 'BitArray', 'h_small', [[2]], [('make', 1, 0x81, 1), ('make', 2, 0x8001, 17), ('sh', 1, 8), ('sh', 2, -128), ('andto', 1), ('move', 1), ('mctor', 2), ('copy', 2), ('copy', 1), ('ctor', 1), ('self', 1), ('swap', 1)],
                   'INVARIANT Whole\nPROPERTY Apart Sized\n', limit=lim)
    for k in range(4 if THOROUGH else 1):
        walks_of_model(c, 'bits%d' % k, 'BitArray', 'h_small', [[2]], ba((1, 2, 3, 5, 15, 16, 17, 24), (0, 1, 0x8001, 0xffff, 0x1234), (0, 1, 3, 7, 8, 9, 16, 31, 63, 64, 120, 127, 128, 129, 136, 200, 300)), num=32, depth=200, weights={'make': 1, 'sh': 2, 'raw': 1})
    # tiered map
    prop = 'INVARIANT Once\nPROPERTY Keeps\n'
    ks = [(0, 0), (0, 1), (0, 3), (0, 4), (1, 0)]
    model_and_walk(c, 'tiers', 'TieredMap', 'h_small', [[3, 2, 64], [3, 4, 32]], [('set', h, l, v) for h, l in ks[:4] for v in (1,)] + [('set', 0, 1, 2)] + [('get', h, l) for h, l in ks] + [(k, h, l) for k in ('find', 'try') for h, l in ks] + [('ctry', 0, 4), ('cfind', 0, 1), ('clear',)],
                   prop, limit=lim)
    his = {64: (0, 1, 255, 2 ** 23, 2 ** 24 - 1), 32: (0, 1, 255, 2 ** 23, 2 ** 24 - 1)}
    los = {64: (0, 1, 2, 3, 7, 8, 511, 512, 2 ** 20, 2 ** 31 - 1), 32: (0, 1, 2, 3, 7, 8, 255)}
    for bits in (64, 32):
        ops = ([('set', h, l, v) for h in his[bits] for l in los[bits] for v in (5, 6)] + [(k, h, l) for k in ('get', 'find', 'cfind', 'try', 'ctry') for h in his[bits] for l in los[bits]] + [('clear',)])
        walks_of_model(c, 'tiers%d' % bits, 'TieredMap', 'h_small', [[3, n, bits] for n in (2, 4, 16, 32, 512, 4096)], ops, num=24, depth=200, weights={'clear': 1, 'set': 4})
    c.require_actions('back', 'front', 'ins', 'emp', 'del', 'popb', 'popf', 'clear', 'make', 'raw', 'fill', 'sh', 'shto', 'and', 'or', 'not', 'copy', 'move', 'mctor', 'set', 'get', 'find', 'try')
