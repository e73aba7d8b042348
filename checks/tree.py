from vf import *
from resources import model_and_walk, walks_of_model, THOROUGH


def tree(c):
    c.build('h_tree')
    props = 'INVARIANT Agree Unique Found OnePhase\nPROPERTY Forward Locked NeverLost LookPure\n'
    phases = [('conf',), ('fin',), ('down',), ('bind',)]
    adds = lambda n: [('add', p, k) for p in range(1, n + 1) for k in range(1, n + 1)]
    # every way of building trees of four nodes, two of which have the same name
    model_and_walk(c, 'build', 'Tree', 'h_tree', [[4, 1, 0, 0, 1, 0, 0, 2, 0, 0]], adds(4) + phases + [('get', 1, 1, 2), ('get', 3, 0, 1), ('find', 1, 5)], props, limit=None if THOROUGH else 15000)
    # names, aliases and members of groups
    model_and_walk(c, 'names', 'Tree', 'h_tree', [[4, 1, 2, 0, 0, 2, 1, 23, 0, 0]],
                   [('add', 1, 2), ('add', 1, 3), ('add', 1, 4), ('add', 2, 4), ('add', 2, 3)] + [('alias', n, k) for n in (2, 3, 4) for k in (1, 24, 23)]
                   + [('get', 1, 1), ('get', 1, 23), ('get', 1, 24), ('get', 2, 0, 23), ('find', 1, 25), ('find', 1, 5, 5), ('find', 1, 26), ('find', 1, 75), ('match', 4, 1, 1, 6), ('match', 3, 1, 25), ('group', 1, 2), ('group', 2, 2)], props, limit=None if THOROUGH else 15000)
    # privacy, tags, clocks and nodes added late
    model_and_walk(c, 'private', 'Tree', 'h_tree', [[4, 1, 0, 0, 2, 0, 0, 1, 0, 0]],
                   [('add', 1, 2), ('add', 2, 3), ('add', 3, 4), ('priv', 3), ('priv', 2), ('tag', 4, 1), ('get', 1, 1, 2), ('get', 2, 2, 1), ('get', 4, 0, 0),
                    ('find', 1, 5, 5), ('find', 2, 2, 1), ('find', 4, 0, 0, 5), ('tagged', 1, 1, -1), ('tagged', 2, 1, 1), ('tagged', 3, 1, 0), ('desc', 4, 1, 2), ('desc', 4, 1, 3), ('group', 1, 2), ('conf',), ('fin',)], props, limit=None if THOROUGH else 12000)
    model_and_walk(c, 'late', 'Tree', 'h_tree', [[4, 1, 0, 0, 2, 0, 0, 1, 0, 0]],
                   [('add', 1, 2), ('add', 2, 3), ('add', 3, 4), ('tag', 4, 1), ('clock', 1, 1), ('clock', 3, 2), ('late', 3, 4), ('late', 1, 2), ('late', 2, 3), ('late', 2, 4), ('tagged', 1, 1, -1), ('get', 1, 1, 2)] + phases, props, limit=None if THOROUGH else 12000)
    for k in range(4 if THOROUGH else 1):
        r = c.rng('trees%d' % k)
        names = [1, 2, 11, 12, 21, 13, 14, 23, 24, 113, 123]
        cfgs, n = [], 12
        for _ in range(16):
            cfg = [n]
            for i in range(2, n + 1):
                g = r.choice([0, 0, 1, 2, 12])
                cfg += [r.choice(names) if not g or r.random() < 0.8 else 0, g, r.randrange(2) if g else 0]
            cfgs.append(cfg)
        pats = [1, 2, 5, 6, 15, 25, 51, 52, 16, 7, 57, 77, 157, 565, 53, 13, 24, 123, 151]
        node = lambda: r.randrange(1, n + 1)
        ops = []
        for _ in range(300):
            path = [r.choice(names + [0]) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
            ops.append(tuple(['get', node()] + path))
            ops.append(tuple(['find', node()] + [r.choice(pats + [0, 5, 5]) for _ in range(r.choice([1, 2, 2, 3, 3]))]))
            ops.append(tuple(['match', node(), r.choice([1, 1, node()])] + [r.choice(pats + [5, 5]) for _ in range(r.choice([1, 2, 2, 3]))]))
        for _ in range(100):
            ops += [('alias', r.randrange(2, n + 1), r.choice(names)), ('tag', node(), r.choice([1, 2])), ('tagged', node(), r.choice([1, 2]), r.choice([-1, 0, 1, 2])), ('desc', node(), node(), r.choice([-1, 0, 1, 2, 3])), ('group', node(), r.choice([1, 2, 12]))]
        ops += [('clock', i, j) for i in range(1, n + 1, 2) for j in (1, 2, 3)] + [('priv', i) for i in range(2, n + 1, 3)] + [('late', i, j) for i in (1, 2, 5, 7) for j in (3, 4, 6)]
        walks_of_model(c, 'trees%d' % k, 'Tree', 'h_tree', cfgs, sorted(set(ops + adds(n) + phases)), num=48, depth=150, weights={'add': 6, 'alias': 2})
    c.require_actions('add', 'alias', 'tag', 'priv', 'clock', 'late', 'conf', 'fin', 'down', 'get', 'find', 'match', 'tagged', 'desc', 'group', 'bind')
