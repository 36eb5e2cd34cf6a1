"""Checks of the four interactive programs (C01-C05, C07-C11, C20 messages)."""
from vlib import *

KINDS = {
    'linear': ('K_LINEAR', 'linear_gkr/prover_fast_track.cpp'),
    'percopy': ('K_PERCOPY', 'traditional_gkr/prover_clogc.cpp'),
    'blocked': ('K_BLOCKED', 'traditional_gkr/prover_bc_clogc.cpp'),
    'para': ('K_PARA', 'linear_gkr/prover_fast_para_track.cpp'),
}
DELTAS = ['1', '-1', '1' + '0' * 8, '1' + '0' * 16, '1' + '0' * 24, '1' + '0' * 32, '1' + '0' * 40, '1' + '0' * 48, '1' + '0' * 56, '4' + '0' * 62]
DEGEN = ['rand pat 0', 'rand pat 1 0 0', 'rand pat 2 0 0', 'rand pat 0 1 0', 'rand pat 2147483647',
         'rand pat 5 7 11', 'rand mix', 'rand pat 0 0 0 1 0 0', 'rand pat 1 0 0 5 6 7']


def build(ctx, kinds):
    jobs = [('pf.o', ['-O2', REPO + '/src/linear_gkr/prime_field.cpp']),
            ('po.o', ['-O2', REPO + '/src/linear_gkr/polynomial.cpp'])]
    links = []
    for k in kinds:
        if k == 'threads':
            T = ['-O1', '-fsanitize=thread']
            jobs += [('t_pf.o', T + [REPO + '/src/linear_gkr/prime_field.cpp']), ('t_po.o', T + [REPO + '/src/linear_gkr/polynomial.cpp']),
                     ('t_pp.o', T + [REPO + '/src/linear_gkr/prover_fast_para_track.cpp']), ('t_h.o', ['-O2', '-DK_PARA', '-DTHREAD_HOOKS', 'gkr.cpp'])]
            links.append(('gkr_threads', ['t_h.o', 't_pp.o', 't_pf.o', 't_po.o'], ['-lgmp', '-lgmpxx', '-lpthread', '-ldl']))
            continue
        d, src = KINDS[k]
        jobs.append(('h_%s.o' % k, ['-O2', '-D' + d, 'gkr.cpp']))
        jobs.append(('p_%s.o' % k, ['-O2', REPO + '/src/' + src]))
        links.append(('gkr_' + k, ['h_%s.o' % k, 'p_%s.o' % k, 'pf.o', 'po.o'], ['-lgmp', '-lgmpxx', '-lpthread']))
    ctx.compile(jobs, links)


def case(ident, kind, layers, ops=(), honest=True, msg=True, fresh=True, copies=1, txt=None):
    ops = list(ops)
    if copies != 1:
        ops.append('copies %d' % copies)
    if any(o.startswith('rand ') for o in ops):
        fresh = False
    more = []
    if kind == 'blocked' and copies > 1 and not txt:        # two cases in three: blocks with inputs of their own
        r = random.Random('%s %s' % (ident, layers))
        if r.randrange(3):
            for b in range(1, copies):
                more.append([[g[0], g[1], r.choice([g[2], 0, 1, r.randrange(1 << 31), g[2] + b if abs(g[2]) < 1 << 62 else g[2]]), g[3]] if g[0] == INPUT else g for g in layers[0]])
                ops += ['binput %d %d %d' % (b, g[1], g[2]) for g in more[-1] if g[0] == INPUT]
    return {'more': more, 'id': ident, 'kind': kind, 'file': layers, 'ops': ops, 'text': txt or text(layers),
            'honest': honest, 'msg': msg, 'fresh': fresh, 'copies': copies,
            'runs': copies if kind == 'percopy' else 1}


def execute(ctx, cases, keep=None):
    """run cases, return trace records in order"""
    recs = []
    by = {}
    for c in cases:
        by.setdefault(c['kind'], []).append(c)
    for k, cs in by.items():
        out = run_plan(ctx, 'gkr_' + k, cs, k)
        for c in cs:
            if c['id'] not in out:
                raise CheckError('no result for ' + c['id'])
            o = out[c['id']]
            if o['ovf']:
                raise CheckError('event log overflow in ' + c['id'])
            recs.append({'id': c['id'], 'kind': k, 'file': inputs_as_text(c['file']), 'more': inputs_as_text(c.get('more', [])), 'ev': o['ev'], 'verdict': o['verdict'],
                         'honest': c['honest'], 'msg': c['msg'], 'fresh': c['fresh'], 'runs': c['runs'], 'nrand': o['nrand'], 'thr': o.get('thr')})
    return recs


def decide(ctx, cases, cats):
    recs = execute(ctx, cases)
    slim = [{k: v for k, v in r.items() if k not in ('nrand', 'thr')} for r in recs]
    # recorded runs with many events are cheap; wide circuits are not: order by size
    bad = ctx.traces('GKRTrace', slim, cats)
    good = ctx.last_good
    byid = {c['id']: c for c in cases}
    if bad:      # confirm on a second execution
        bad = dict(list(bad.items())[:24])
        again = execute(ctx, [byid[i] for i in bad])
        slim2 = [{k: v for k, v in r.items() if k not in ('nrand', 'thr')} for r in again]
        bad2 = ctx.traces('GKRTrace', slim2, cats)
        for i in bad:
            if i in bad2:
                c = byid[i]
                ctx.violation(i, bad2[i], {'kind': c['kind'], 'ops': c['ops'], 'circuit': c['text'], 'copies': c['copies']})
    nrej = sum(1 for r in recs if r['verdict'] != 'pass')
    ctx.extra['verdicts'] = {'accepted': len(recs) - nrej, 'rejected': nrej}
    for c in cases[:3]:
        ctx.sample({'id': c['id'], 'ops': c['ops'], 'circuit': c['text'][:300]})
    ctx.recs = recs
    return recs, good


# ---- honest cases ----------------------------------------------------------
def honest_cases(ctx, kind, types, n_rand, wide, copies=(1,), typ=None):
    rng = ctx.rng
    cs = []
    seed = [0]

    def sd():
        seed[0] += 1
        return 'seed %d' % (SEED * 100000 + seed[0])
    # every gate type on every operand pair, eight gates of a kind per layer
    gs = one_gate_circuits(types)
    rng.shuffle(gs)
    for i in range(0, len(gs), 8):
        l = [[t, g, u, v] for g, (t, u, v) in enumerate(gs[i:i + 8])]
        while len(l) & (len(l) - 1):
            l.append([DUMMY, len(l), 0, 0])
        ls = [rand_input(rng, 4, typ), l]
        cs.append(case('gates%d' % i, kind, ls, [sd()], copies=rng.choice(copies)))
    # each gate type alone, in a one-gate layer and in every position of a layer
    for t in types:
        for w in (1, 2, 4):
            pos = rng.randrange(w)
            l = [[DUMMY, g, 0, 0] if g != pos else rand_gate(rng, g, 4, [t]) for g in range(w)]
            cs.append(case('only_t%d_w%d' % (t, w), kind, [rand_input(rng, 4, typ), l], [sd()], copies=rng.choice(copies)))
    # shapes
    shapes = [[1, 1], [1, 2], [2, 1], [1, 1, 1, 1], [4, 1, 4], [1, 8, 1], [2, 16, 2], [16, 1], [8, 4, 2, 1], [1, 2, 4, 8],
              [2, 2, 2, 2, 2, 2, 2], [8, 2, 8, 1], [32, 4]]
    for s in shapes:
        cs.append(case('shape' + '_'.join(map(str, s)), kind, rand_circuit(rng, s, types, typ), [sd()], copies=rng.choice(copies)))
    # one-layer-only file: the input layer alone is not a circuit any program accepts, so depth starts at two
    for i in range(n_rand):
        d = rng.randrange(2, 7)
        ws = [1 << rng.choice([0, 1, 1, 2, 2, 3, 3, 4]) for _ in range(d)]
        op = [sd()]
        if i % 3 == 2:
            op = [DEGEN[(i // 3) % len(DEGEN)], sd()]
        cs.append(case('rand%d' % i, kind, rand_circuit(rng, ws, types, typ), op, copies=rng.choice(copies)))
    # degenerate challenges on fixed shapes
    for i, dg in enumerate(DEGEN):
        cs.append(case('degen%d' % i, kind, rand_circuit(rng, [4, 8, 4, 2], types, typ), [dg, sd()], copies=rng.choice(copies)))
    # one type per layer on every operand pair, challenges zero or one here and there:
    # weights of single gates vanish while others stay
    for t in types:
        if t != DUMMY:
            for k in range(4):
                gs = one_gate_circuits([t])
                rng.shuffle(gs)
                gs = gs[:16]
                l = [[t, g, u, v] for g, (t, u, v) in enumerate(gs)]
                while len(l) & (len(l) - 1):
                    l.append([DUMMY, len(l), 0, 0])
                pat = ' '.join('%d 0 0' % rng.choice([0, 1, 2 + rng.randrange(1 << 30)]) for _ in range(59))
                cs.append(case('zeros_t%d_%d' % (t, k), kind, [rand_input(rng, 4, typ), l], ['rand pat ' + pat], copies=rng.choice(copies)))
    # long: values beyond the field size, deep circuits
    ls = [[[INPUT, 0, 2147483647, 0], [INPUT, 1, 2147483629, 0]]]
    for i in range(11 if kind != 'para' else 5):
        ls.append([[MUL, 0, 0, 0], [MUL, 1, 1, 0]])
    ls.append([[types[-1] if types[-1] not in (DUMMY,) else ADD, 0, 0, 0 if types[-1] == RELAY else 1]])
    cs.append(case('squares', kind, ls, [sd()]))
    if SUM in types:        # long ranges, ranges that end with the layer
        for w in (8, 16, 32, 64):
            rs = [(0, w), (w - 1, w), (w // 2, w), (0, 1), (1, w), (0, w - 1), (0, 0)]
            l = [[SUM, g, a, b] for g, (a, b) in enumerate(rs)] + [rand_gate(rng, 7, w, [SUM])]
            cs.append(case('sums%d' % w, kind, [rand_input(rng, w, typ), l], [sd()], copies=rng.choice(copies)))
    for w in wide:
        cs.append(case('wide%s' % '_'.join(map(str, w)), kind, rand_circuit(rng, w, types, typ), [sd()]))
    if wide:
        for i, (w, cp) in enumerate(BIG[kind]):
            cs.append(case('big%d' % i, kind, rand_circuit(rng, w, types, typ), [sd()], copies=cp))
    return cs


# wide, deep, many copies: (widths, copies)
BIG = {
    'linear': [([4, 4096, 2], 1), ([1024, 16], 1), ([2, 4, 1, 2] * 10, 1), ([2] * 70, 1), ([4096, 1, 8], 1)],
    'percopy': [([2, 512], 1), ([256, 8], 2), ([2, 4, 1, 2] * 5, 2), ([2] * 40, 1), ([2, 4, 2], 17), ([1, 2], 40)],
    'blocked': [([2, 256, 2], 2), ([4, 8, 2], 32), ([1, 2, 1], 128), ([2, 4, 1, 2] * 5, 4), ([2] * 40, 1)],
    'para': [([4, 1024, 2], 1), ([512, 16], 1), ([2, 4, 1, 2] * 5, 1), ([2] * 40, 1)],
}


# ---- lying provers ----------------------------------------------------------
def lie_cases(ctx, kind, types, full, copies=(1,), typ=None, circuits=None, fast=False):
    rng = ctx.rng
    cs = []
    n = [0]

    def add(ls, ops, k, cp, tag):
        n[0] += 1
        cs.append(case('%s_%d_%s' % (tag, k, n[0]), kind, ls, ['seed %d' % (SEED * 1000 + n[0])] + ops, honest=False, msg=False, copies=cp))
    lin = kind == 'linear'
    shapes = circuits or ([[2, 4, 2], [4, 2, 1, 2]] + ([[8, 4, 4, 2], [2, 8, 1, 4], [1, 1, 2]] if full else [[1, 2]]))
    for k, ws in enumerate(shapes):
        ls = rand_circuit(rng, ws, types, typ)
        # make sure every operand matters: no all-dummy layer
        for l in ls[1:]:
            if all(g[0] == DUMMY for g in l):
                l[0] = [MUL, 0, 0, 1]
        cp = rng.choice(copies)
        lgcp = cp.bit_length() - 1
        off = 1 if lin else 0
        depth = len(ls) + off                       # code layers 0..depth-1
        wid = lambda i: max(2, len(ls[0] if i == 0 else ls[max(0, i - off)]))
        blk = ['', ' 0', ' %d' % (cp - 1)] if kind == 'blocked' and cp > 1 else ['']
        who = ['copy %d' % x for x in sorted({0, cp - 1, cp // 2})] if kind == 'percopy' and cp > 1 else [None]
        W = lambda: ([x for x in [rng.choice(who)] if x])
        D = lambda: rng.choice(DELTAS)
        # each round of each phase of each layer: the round check alone is violated
        for i in range(1, depth):
            ub = wid(i - 1).bit_length() - 1
            phs = ([(0, j) for j in range(lgcp)] if kind == 'blocked' else []) + [(ph, j) for ph in (1, 2) for j in range(ub)]
            for ph, j in phs:
                add(ls, ['peek', 'iso %d %d %d %s' % (i, ph, j, D())] + W(), k, cp, 'iso')
                co = ['0'] * (4 if ph == 0 else 3)
                co[rng.randrange(len(co))] = D()
                add(ls, ['poly %d %d %d %s' % (i, ph, j, ' '.join(co))] + W(), k, cp, 'poly')
                add(ls, ['poly %d %d %d %s' % (i, ph, j, ' '.join([D() for _ in co]))] + W(), k, cp, 'poly')
            # a polynomial change that keeps the round sum: caught only later
            for ph, j in phs:
                dl = D()
                add(ls, ['poly %d %d %d 0 %s %s' % (i, ph, j, dl, negated(dl))] + W(), k, cp, 'keep')
            for op in ['last', 'lievv', 'lievu']:
                for dl in (DELTAS if full and op == 'last' else [D(), D()]):
                    add(ls, ['peek', '%s %d %s' % (op, i, dl)] + W(), k, cp, op)
            dl = D()
            add(ls, ['peek', 'lieuv %d %s %s' % (i, dl, negated(dl))] + W(), k, cp, 'lieuv')
            add(ls, ['vu %d %s' % (i, D())] + W(), k, cp, 'vu')
            add(ls, ['fin %d %s 0' % (i, D())] + W(), k, cp, 'fin')
            add(ls, ['fin %d 0 %s' % (i, D())] + W(), k, cp, 'fin')
            add(ls, ['fin %d %s %s' % (i, D(), D())] + W(), k, cp, 'fin')
        # values of every layer
        for i in range(depth):
            for g in sorted({0, wid(i) - 1, rng.randrange(wid(i))}):
                add(ls, ['val %d %d %s%s' % (i, g, D(), rng.choice(blk))] + W(), k, cp, 'val')
        for g in range(wid(0)):
            for dl in (DELTAS if full else [D(), D()]):
                add(ls, ['peek', 'valD 0 %d %s' % (g, dl)] + W(), k, cp, 'valD')
            if lin:
                add(ls, ['copylie 1', 'val 0 %d %s' % (g, D())], k, cp, 'copylie')
        # the output
        for g in sorted({0, wid(depth - 1) - 1}):
            o = 'outvec %d %s' % (g + (rng.randrange(cp) * wid(depth - 1) if kind == 'blocked' else 0), D())
            add(ls, [o] + W(), k, cp, 'outvec')
            add(ls, [o, 'outtrue'] + W(), k, cp, 'outtrue')
        for dl in ([D()] if not full else DELTAS):
            add(ls, ['outval %s' % dl] + W(), k, cp, 'outval')
        # wiring
        for i in range(1 + off, depth):
            l = ls[i - off]
            for g in range(min(len(l), 3)):
                if l[g][0] == INPUT:
                    continue
                for _ in range(2):
                    q = rand_gate(rng, g, wid(i - 1), [t for t in types if t != DUMMY])
                    if q != l[g]:
                        add(ls, ['gate %d %d %d %d %d%s' % (i, g, q[0], q[2], q[3], rng.choice(blk))] + W(), k, cp, 'gate')
        if kind == 'blocked':
            for i in range(1, depth):
                add(ls, ['peek', 'last %d %s' % (i, D()), 'blkval %d' % i], k, cp, 'blkval')
    return cs


def negated(d):
    return d[1:] if d[0] == '-' else '-' + d


def sparse_lies(ctx, kind, types, shapes, copies=(1,), typ=None, spots=None, pats=None):
    """lies in larger circuits: every kind of equation, some rounds of every phase"""
    rng = ctx.rng
    cs = []
    lin = kind == 'linear'
    for k, ws in enumerate(shapes):
        ls = rand_circuit(rng, ws, types, typ)
        tag0 = 's' if not spots else 'b'
        for l in ls[1:]:
            if all(g[0] == DUMMY for g in l):
                l[0] = [MUL, 0, 0, 1]
        cp = copies[k % len(copies)]
        lgcp = cp.bit_length() - 1
        off = 1 if lin else 0
        depth = len(ls) + off
        wid = lambda i: max(2, len(ls[0] if i == 0 else ls[max(0, i - off)]))
        D = lambda: rng.choice(DELTAS)

        def add(ops, tag):
            if kind == 'percopy' and cp > 1:
                ops = ops + ['copy %d' % rng.choice([0, cp // 2, cp - 1])]
            if pats and not lin and (tag in ('valD', 'copylie') or ops[0].startswith('val 0 ') or tag in ('lievu', 'lievv', 'lieuv', 'fin') and any(o.startswith(tag + ' 1 ') for o in ops)):
                return      # the two input equations are combined at random: a degenerate combination may miss an error
            first = [rng.choice(pats)] if pats else []
            cs.append(case('%s%s_%d_%d' % (tag0 if not pats else 'p', tag, k, len(cs)), kind, ls, first + ['seed %d' % (SEED * 1000 + 500 + len(cs))] + ops, honest=False, msg=False, copies=cp))
        blk = lambda: ' %d' % rng.randrange(cp) if kind == 'blocked' and cp > 1 else ''
        for i in range(1, depth) if not spots else sorted(rng.sample(range(1, depth), min(spots, depth - 1))):
            ub = wid(i - 1).bit_length() - 1
            for ph, n in ((0, lgcp if kind == 'blocked' else 0), (1, ub), (2, ub)):
                for j in sorted(set(j for j in (0, 1, 2, n - 1, rng.randrange(max(1, n))) if 0 <= j < n)):
                    add(['peek', 'iso %d %d %d %s' % (i, ph, j, D())], 'iso')
                if n > 1:
                    dl = D()
                    add(['poly %d %d %d 0 %s %s' % (i, ph, rng.randrange(n), dl, negated(dl))], 'keep')
            for op in ('last', 'lievu', 'lievv'):
                add(['peek', '%s %d %s' % (op, i, D())], op)
            dl = D()
            add(['peek', 'lieuv %d %s %s' % (i, dl, negated(dl))], 'lieuv')
            add(['fin %d %s %s' % (i, D(), D())], 'fin')
            for g in {0, wid(i) - 1, rng.randrange(wid(i))}:
                add(['val %d %d %s%s' % (i, g, D(), blk())], 'val')
        for g in {0, wid(0) - 1, rng.randrange(wid(0)), rng.randrange(wid(0))}:
            add(['peek', 'valD 0 %d %s' % (g, D())], 'valD')
            add(['val 0 %d %s%s' % (g, D(), blk())], 'val')
            if lin:
                add(['copylie 1', 'val 0 %d %s' % (g, D())], 'copylie')
        n = wid(depth - 1) * (cp if kind == 'blocked' else 1)
        for g in {0, n - 1, rng.randrange(n)}:
            add(['outvec %d %s' % (g, D())], 'outvec')
            add(['outvec %d %s' % (g, D()), 'outtrue'], 'outtrue')
        add(['outval %s' % D()], 'outval')
    return cs


def one_type_lies(ctx, kind, types, copies=(1,)):
    """lies in a layer whose gates are all of one type (dummies included): the other weights are zero"""
    rng = ctx.rng
    cs = []
    D = lambda: rng.choice(DELTAS)
    for t in types:
        i = 2 if kind == 'linear' else 1
        ls = [rand_input(rng, 4, 'all3'), [rand_gate(rng, g, 4, [t]) for g in range(4)], [rand_gate(rng, g, 4, [MUL, ADD]) for g in range(2)]]
        cp = rng.choice(copies)
        for n, ops in enumerate([['peek', 'last %d %s' % (i, D())], ['peek', 'iso %d 1 0 %s' % (i, D())], ['peek', 'iso %d 2 1 %s' % (i, D())],
                                 ['val %d %d %s' % (i, rng.randrange(4), D())], ['peek', 'lievu %d %s' % (i, D())], ['peek', 'lievv %d %s' % (i, D())],
                                 ['peek', 'last %d %s' % (i + 1, D())]]):
            if kind == 'percopy' and cp > 1:
                ops = ops + ['copy %d' % rng.randrange(cp)]
            cs.append(case('one%d_%d' % (t, n), kind, ls, ['seed %d' % (SEED * 1000 + 900 + t * 16 + n)] + ops, honest=False, msg=False, copies=cp))
    return cs


def corner_lies(ctx, kind, types, copies=(1,)):
    """lies while single challenges are zero or one, in circuits whose inputs are all the same, and about wide outputs"""
    rng = ctx.rng
    cs = []
    lin = kind == 'linear'
    off = 1 if lin else 0
    D = lambda: rng.choice(DELTAS)

    def add(tag, ls, ops, cp, first=()):
        if kind == 'percopy' and cp > 1:
            ops = ops + ['copy %d' % rng.randrange(cp)]
        cs.append(case('c%s_%d' % (tag, len(cs)), kind, ls, list(first) + ['seed %d' % (SEED * 1000 + 3000 + len(cs))] + ops, honest=False, msg=False, copies=cp))
    # 1. challenges of zero and one among random ones
    bits = lambda n: 'rand pat ' + ' '.join('%d 0 0' % rng.choice((0, 1)) for _ in range(n))
    some = lambda n: 'rand pat ' + ' '.join('%d 0 0' % rng.choice((0, 1)) if rng.random() < 0.5 else '%d %d %d' % tuple(rng.randrange(1 << 31) for _ in range(3)) for _ in range(n))
    for k, ws in enumerate(([2, 4, 2], [4, 1, 2], [2, 2, 2, 2])):
        ls = rand_circuit(rng, ws, types)
        for l in ls[1:]:
            if all(g[0] == DUMMY for g in l):
                l[0] = [MUL, 0, 0, 1]
        cp = copies[k % len(copies)]
        pats = ['rand pat 0', 'rand pat 1 0 0', 'rand mix'] + [bits(n) for n in (29, 37)] + [some(n) for n in (23, 31, 41)]
        for i in range(1, len(ls) + off):
            wb = len(ls[max(0, i - 1 - off)])
            ub = max(2, wb).bit_length() - 1
            ops = [['peek', 'last %d %s' % (i, D())] for _ in range(2)]
            for ph, n in ((0, cp.bit_length() - 1 if kind == 'blocked' else 0), (1, ub), (2, ub)):
                for j in range(n):
                    ops += [['peek', 'iso %d %d %d %s' % (i, ph, j, D())], ['poly %d %d %d %s' % (i, ph, j, ' '.join(D() for _ in range(4 if kind == 'blocked' and ph == 0 else 3)))]]
            if lin or i > 1:
                ops += [['peek', '%s %d %s' % (o, i, D())] for o in ('lievu', 'lievv')]
            for pt in pats:
                for o in ops if THOROUGH else rng.sample(ops, max(3, len(ops) // 2)):
                    add('z', ls, o, cp, [pt])
    # 2. all inputs the same, so that the two input claims of an honest prover agree
    for v in (0, 1, 77):
        for ws in ([2, 2], [4, 2, 2]):
            ls = rand_circuit(rng, ws, [MUL, ADD])
            ls[0] = [[INPUT, g, v, 0] for g in range(ws[0])]
            for cp in sorted(set(copies))[:2]:
                for o in (['val 0 %d %s' % (rng.randrange(ws[0]), D())], ['peek', 'valD 0 %d %s' % (rng.randrange(ws[0]), D())], ['peek', 'lievu 1 %s' % D()],
                          ['peek', 'lievv 1 %s' % D()], ['fin 1 %s %s' % (D(), D())], ['fin 1 5 5'], ['peek', 'last 1 %s' % D()], ['outval %s' % D()]):
                    add('e', ls, o, cp)
                # the same lie about every input: the claims agree with each other and with nothing else
                dl = D()
                add('e', ls, ['val 0 %d %s' % (g, dl) for g in range(ws[0])], cp)
                if lin:
                    add('e', ls, ['copylie 1'] + ['val 0 %d %s' % (g, dl) for g in range(ws[0])], cp)
    # 3. wide outputs
    for ws in ([4, 64], [2, 8, 1024] if lin else [2, 8, 256]):
        ls = rand_circuit(rng, ws, types)
        for cp in sorted(set(copies))[:2]:
            n = ws[-1] * (cp if kind == 'blocked' else 1)
            for g in (0, n - 1, rng.randrange(n)):
                add('w', ls, ['outvec %d %s' % (g, D())], cp)
                add('w', ls, ['outvec %d %s' % (g, D()), 'outtrue'], cp)
            add('w', ls, ['outval %s' % D()], cp)
    return cs


def model_honest(ctx, kindc, nb=0):
    for p in ((3, 5) if not nb else (5,)):
        ctx.model('GKRModel', {'P': p, 'Adv': 'FALSE', 'KindC': '"%s"' % kindc, 'NB': nb, 'Full': 'FALSE'},
                  ['Complete', 'ClaimsTrue', 'LayerSound', 'LuckBound', 'HonestEnd'], 'GKRModel honest %s P=%d NB=%d' % (kindc, p, nb))


def model_adv(ctx, kindc, nb=0):
    inv = ['Complete', 'ClaimsTrue', 'LayerSound', 'LuckBound', 'HonestEnd']
    ctx.model('GKRModel', {'P': 3, 'Adv': 'TRUE', 'KindC': '"%s"' % kindc, 'NB': 0, 'Full': 'FALSE'}, inv, 'GKRModel adversarial %s P=3' % kindc)
    if THOROUGH:
        ctx.model('GKRModel', {'P': 3, 'Adv': 'TRUE', 'KindC': '"%s"' % kindc, 'NB': 0, 'Full': 'TRUE'}, inv,
                  'GKRModel adversarial %s P=3 Full' % kindc, timeout=1200, optional=True)
        ctx.model('GKRModel', {'P': 5, 'Adv': 'TRUE', 'KindC': '"%s"' % kindc, 'NB': 0, 'Full': 'FALSE'}, inv,
                  'GKRModel adversarial %s P=5' % kindc, timeout=1200, optional=True)


NR = 400 if THOROUGH else 45
WIDE = [[128, 64], [64, 256]] if not THOROUGH else [[128, 64], [64, 256], [512, 128, 64], [32, 1024], [64] * 8]


def run_linear_honest(ctx, cats):
    build(ctx, ['linear'])
    model_honest(ctx, 'linear')
    decide(ctx, honest_cases(ctx, 'linear', LIN_TYPES, NR, WIDE), cats)


def c01(ctx):
    run_linear_honest(ctx, {'accept'})


def c04(ctx):
    run_linear_honest(ctx, {'msg'})


def c02(ctx):
    ks = ['linear', 'percopy', 'blocked', 'para']
    build(ctx, ks)
    cs = []
    for k in ks:
        ty = LIN_TYPES if k == 'linear' else TRAD_TYPES
        sub = honest_cases(ctx, k, ty, NR // 3, [[64, 16]], copies=(1,) if k in ('linear', 'para') else (1, 2), typ=None)
        for c in sub:
            c['id'] = k + ':' + c['id']
            c['msg'] = False
        cs += sub
    decide(ctx, cs, {'eval'})
    import zk
    zk.build(ctx)
    sub = zk.honest_cases(ctx, NR // 3, [[64, 16]])
    for c in sub:
        c['id'] = 'zk:' + c['id']
    zk.decide(ctx, sub, {'eval'})


def c03(ctx):
    build(ctx, ['linear'])
    model_adv(ctx, 'linear')
    cs = lie_cases(ctx, 'linear', LIN_TYPES, THOROUGH)
    cs += sparse_lies(ctx, 'linear', LIN_TYPES, [[16, 8, 32, 1], [1, 16, 2]] + ([[64, 4, 16, 8], [128, 128], [2] * 9] if THOROUGH else []))
    cs += sparse_lies(ctx, 'linear', LIN_TYPES, [[256, 512, 4], [2, 4] * 15, [1024, 8]], spots=1)
    cs += sparse_lies(ctx, 'linear', LIN_TYPES, [[4, 8, 2], [2, 1, 4], [8, 4, 4]], pats=DEGEN)
    cs += one_type_lies(ctx, 'linear', LIN_TYPES)
    cs += corner_lies(ctx, 'linear', LIN_TYPES)
    cs += [dict(c, msg=False) for c in honest_cases(ctx, 'linear', LIN_TYPES, NR // 2, [])]
    # every gate type once as the only gate whose value is lied about, and as the gate whose wiring is lied about
    for t in LIN_TYPES:
        if t == DUMMY:
            continue
        for t2 in LIN_TYPES:
            if t2 == t:
                continue
            ls = [rand_input(ctx.rng, 4, 'all3'), [rand_gate(ctx.rng, 0, 4, [t]), rand_gate(ctx.rng, 1, 4, [MUL])]]
            q = rand_gate(ctx.rng, 0, 4, [t2])
            cs.append(case('swap_%d_%d' % (t, t2), 'linear', ls, ['seed %d' % (SEED + t * 16 + t2), 'gate 2 0 %d %d %d' % (q[0], q[2], q[3])], honest=False, msg=False))
    decide(ctx, cs, {'sound', 'complete'})


def c05(ctx):
    ks = ['linear', 'percopy', 'blocked', 'para']
    build(ctx, ks)
    cs = []
    for k in ks:
        ty = LIN_TYPES if k == 'linear' else TRAD_TYPES
        sub = honest_cases(ctx, k, ty, NR // 3, [], copies=(1,) if k in ('linear', 'para') else (1, 2, 4), typ=None)
        sub = [c for c in sub if c['fresh']]
        for i, (w, cp) in enumerate(BIG[k]):
            if k not in ('percopy', 'blocked') or cp > 1 or len(w) > 8:
                sub.append(case('big%d' % i, k, rand_circuit(ctx.rng, w, ty), ['seed %d' % (SEED * 100 + i)], copies=cp))
        lies = lie_cases(ctx, k, ty, False, copies=(1,) if k in ('linear', 'para') else (2,), typ=None, circuits=[[4, 2, 2]])
        sub += [c for c in lies if 'keep' in c['id'] or 'val' in c['id']]
        for c in sub:
            c['id'] = k + ':' + c['id']
            c['msg'] = False
        cs += sub
    decide(ctx, cs, {'chal'})
    spread(ctx, ks)
    # independence: every challenge has a draw that changes it and nothing else
    for k in ks:
        ty = LIN_TYPES if k == 'linear' else TRAD_TYPES
        shapes = [[4, 2, 4], [2, 2]] + ([[8, 4, 2, 4, 2], [1, 8, 1]] if THOROUGH else [])
        for si, ws in enumerate(shapes):
            ls = rand_circuit(ctx.rng, ws, ty, 'all3')
            cp = 1 if k in ('linear', 'para') else (2 if si else 4)
            base = case('b', k, ls, ['seed %d' % (SEED + 77)], copies=cp)
            r0 = execute(ctx, [base])[0]
            nr = r0['nrand']
            fl = [case('f%d' % i, k, ls, ['seed %d' % (SEED + 77), 'flip %d' % i], copies=cp) for i in range(nr)]
            rs = execute(ctx, fl)
            rec = {'id': 'indep:%s:%d' % (k, si), 'kind': k, 'base': chals(r0), 'flips': [chals(r) for r in rs]}
            bad = ctx.traces('Fresh', [rec], {'chal'}, consts='')
            for i, m in bad.items():
                ctx.violation(i, m, {'kind': k, 'circuit': text(ls), 'copies': cp, 'seed': SEED + 77})


def spread(ctx, ks):
    """how many values a challenge can take, from many challenges of each program"""
    for k in ks:
        cs = [case('w%d' % i, k, rand_circuit(ctx.rng, [16, 4, 8, 4, 2], [ADD, MUL], 'all3'), ['seed %d' % (SEED * 7 + 300 + i)], copies=1 if k in ('linear', 'para') else 2) for i in range(12)]
        xs = []
        for r in execute(ctx, cs):
            xs += chals(r)
        xs = [format(int(x, 16), '0254b') for x in xs]
        rec = {'id': 'spread:' + k, 'cols': [''.join(x[i] for x in xs) for i in range(254)], 'n': len(xs)}
        bad = ctx.traces('Spread', [rec], {'chal'}, consts='')
        for i, m in bad.items():
            ctx.violation(i, m, {'kind': k, 'challenges': xs[:20]})


def chals(rec):
    """all challenges in the order they become known to the prover (hex), copy-layer zeros left out"""
    out = []
    lay = None
    for e in rec['ev']:
        t = e['e']
        if t == 'out':
            out += [['out', x] for x in e['r'] + e['rb']]
            first = True
        elif t == 'layer':
            lay = e['i']
            if first:
                out += [['r1', x] for x in e['r1']]
                first = False
            else:
                out += [['alpha', e['al']], ['beta', e['be']]]
        elif t in ('p0', 'p1', 'p2') and e['j'] > 0 or t in ('bind', 'fin') or (t == 'bindb' and any(x['e'] == 'p0' for x in rec['ev'])):
            if rec['kind'] == 'linear' and lay == 1 and t in ('p2', 'fin') and e['prev'] == '0':
                continue
            out.append([t, e['prev']])
    return [x[1] for x in out]


def c07(ctx):
    ks = ['linear', 'percopy', 'blocked', 'para']
    build(ctx, ks)
    cs = []
    rng = ctx.rng
    for k in ks:
        ty = LIN_TYPES if k == 'linear' else TRAD_TYPES
        typ = None
        for i in range(150 if THOROUGH else 40):
            d = rng.randrange(2, 8)
            ws = [1 << rng.choice([0, 0, 1, 2, 3, 4, 5]) for _ in range(d)]
            ls = rand_circuit(rng, ws, ty, typ)
            if k == 'linear':
                for l in ls[1:]:
                    for g in l:
                        if g[0] == NOT and rng.random() < 0.7:
                            g[3] = rng.randrange(1, 9)
            c = case('%s:r%d' % (k, i), k, ls, ['seed %d' % i], txt=text(ls, i % 3, rng), copies=1 if k in ('linear', 'para') else rng.choice([1, 2, 4]))
            c['msg'] = False
            cs.append(c)
        for i, ws in enumerate([[256, 2], [2, 512], [64, 64, 64], [1] * 12, [1, 1], [2, 4] * 35, [2048, 8], [4, 4096] if k in ('linear', 'para') else [8, 1024]]):
            ls = rand_circuit(rng, ws, ty, typ)
            c = case('%s:w%d' % (k, i), k, ls, ['seed %d' % i], txt=text(ls, i % 3, rng))
            c['msg'] = False
            cs.append(c)
    # reading is decided by the event that hands the circuit to the prover
    decide(ctx, cs, {'circ'})
    zk_reading(ctx)


def zk_reading(ctx):
    """the zero-knowledge program reads a circuit file and a layout file"""
    import zk
    zk.build(ctx)
    rng = ctx.rng
    cs = []
    for i in range(100 if THOROUGH else 36):
        if i % 3 == 2:
            reps = rng.choice([1, 2, 4, 8])
            ls, meta = zk.rand_para(rng, reps, [1 << rng.choice([0, 1, 2]) for _ in range(rng.randrange(2, 5))], rng.choice([None, 1, 2, 4]))
        else:
            ws = [1 << rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(rng.randrange(2, 7))]
            ls, meta = zk.rand_zk(rng, ws), None
        for a, l in zip(ls, ls[1:]):
            for g in l:
                if g[0] in (NOT, RELAY) and rng.random() < 0.7:
                    g[3] = rng.randrange(len(a))
        cs.append(zk.case('zk:r%d' % i, ls, [zk.sdr(i)], meta=meta, txt=text(ls, i % 3, rng), style=i // 3 % 3, rng=rng))
    for i, ws in enumerate([[128, 2], [2, 128], [1] * 10, [1, 1], [32, 32], [2, 4] * 12, [1024, 2], [4, 512]]):
        ls = zk.rand_zk(rng, ws)
        cs.append(zk.case('zk:w%d' % i, ls, [zk.sdr(500 + i)], txt=text(ls, i % 3, rng), style=i % 3, rng=rng))
    zk.decide(ctx, cs, {'circ'})


def trad_honest(ctx, kind):
    build(ctx, [kind])
    model_honest(ctx, 'plain', 1 if kind == 'blocked' else 0)
    cps = (1, 2, 3, 4) if kind == 'percopy' else (1, 2, 4, 8)
    decide(ctx, honest_cases(ctx, kind, TRAD_TYPES, NR, WIDE[:1] if kind != 'percopy' else [[64, 16]], copies=cps), {'msg', 'accept'})


def trad_lies(ctx, kind):
    build(ctx, [kind])
    model_adv(ctx, 'plain')
    cps = (3,) if kind == 'percopy' else (1, 2, 4)
    cs = []
    for r in range(3 if THOROUGH else 1):
        sub = lie_cases(ctx, kind, TRAD_TYPES, THOROUGH, copies=cps, circuits=None if THOROUGH else ([[2, 4, 2], [4, 2, 1, 2], [1, 2]] if kind == 'percopy' else [[2, 4, 2], [4, 1, 2], [1, 2]]))
        for c in sub:
            c['id'] += '_%d' % r
        cs += sub
    cs += sparse_lies(ctx, kind, TRAD_TYPES, [[16, 8, 32, 1], [1, 16, 2]] + ([[64, 4, 16, 8], [128, 64], [2] * 9] if THOROUGH else []),
                      copies=(2, 5) if kind == 'percopy' else (8, 16))
    cs += sparse_lies(ctx, kind, TRAD_TYPES, [[64, 128, 4], [2, 4] * 10, [2, 4, 2]], spots=1, copies=(1, 2, 24) if kind == 'percopy' else (2, 4, 64))
    cs += sparse_lies(ctx, kind, TRAD_TYPES, [[4, 8, 2], [2, 1, 4], [8, 4, 4]], pats=DEGEN, copies=(1, 2) if kind == 'percopy' else (1, 4))
    cs += one_type_lies(ctx, kind, TRAD_TYPES, (1, 3) if kind == 'percopy' else (1, 2, 8))
    cs += corner_lies(ctx, kind, TRAD_TYPES, (1, 2) if kind == 'percopy' else (2, 4, 1))
    hon = honest_cases(ctx, kind, TRAD_TYPES, NR // 3, [], copies=(1, 2, 3) if kind == 'percopy' else (1, 2, 4, 8))
    cs += [dict(c, msg=False) for c in hon]
    decide(ctx, cs, {'sound', 'complete'})


def c08(ctx):
    trad_honest(ctx, 'percopy')


def c09(ctx):
    trad_lies(ctx, 'percopy')


def c10(ctx):
    trad_honest(ctx, 'blocked')


def c11(ctx):
    trad_lies(ctx, 'blocked')


def c20(ctx):
    build(ctx, ['para', 'threads'])
    for n, nt in ([(2, 4), (4, 4), (8, 2), (8, 3)] + ([(8, 4)] if THOROUGH else [])):
        ctx.model('Threads', {'N': n, 'NT': nt, 'Merge': 'FALSE'}, ['Partition', 'NoRace', 'Result'] if nt in (2, 4) else ['NoRace'], 'Threads: %d cells, %d workers, all interleavings' % (n, nt))
    rng = ctx.rng
    cs = [dict(c, kind='para') for c in honest_cases(ctx, 'para', TRAD_TYPES, NR, [[2, 128], [128, 16]])]
    decide(ctx, cs, {'msg', 'accept', 'eval', 'complete'})
    # many gates on one wire: the accumulators of one worker
    cs = []
    for w in (64, 256):
        for t in (ADD, MUL):
            cs.append(case('fan%d_%d' % (w, t), 'para', [rand_input(rng, 2), [[t, g, rng.randrange(2), rng.randrange(2)] for g in range(w)]], ['seed 5']))
    decide(ctx, cs, {'msg', 'accept', 'eval', 'complete'})
    # forced schedules
    shapes = [[4, 8, 4], [16, 8, 2], [1, 4, 1], [8, 16]] + ([[2, 32, 8, 1], [64, 8]] if THOROUGH else [])
    scheds = ['sched perm %d' % k for k in (range(24) if THOROUGH else (0, 23, 7, 16, 9))] + ['sched eager'] + \
        ['sched rnd %d %d' % (s, d) for s in range(12 if THOROUGH else 3) for d in (2, 7, 40, 300)]
    cs = []
    for i, ws in enumerate(shapes):
        ls = rand_circuit(rng, ws, [ADD, MUL, ADD, MUL, DUMMY])
        for j, sc in enumerate(scheds):
            cs.append(case('sched_%d_%d' % (i, j), 'threads', ls, [sc, 'seed %d' % (SEED + i)]))
    recs, _ = decide(ctx, cs, {'msg', 'accept', 'eval', 'complete'})
    thr = [r['thr'] for r in recs if r.get('thr')]
    ctx.extra['threads'] = {'runs': len(thr), 'regions': sum(t['regions'] for t in thr), 'instrumented accesses': sum(t['access'] for t in thr),
                            'forced switches': sum(t['switches'] for t in thr)}
    if thr and (max(t['workers'] for t in thr) < 2 or not sum(t['access'] for t in thr)):
        ctx.notes.append('the prover no longer runs in parallel')
    races = ctx.traces('ThreadTrace', [dict(r['thr'], id=r['id']) for r in recs if r.get('thr')], {'race'}, consts='')
    if races and not ctx.found:
        # footprints overlap: look for an interleaving whose messages differ
        bad = [c for c in cs if c['id'] in races][:4]
        more = [case('race_%d_%d' % (i, s), 'threads', c['file'], ['sched rnd %d %d' % (1000 + s, rng.choice([2, 3, 5, 11, 23, 60, 200])), 'seed %d' % (SEED + s)])
                for i, c in enumerate(bad) for s in range(60)]
        decide(ctx, more, {'msg', 'accept', 'eval', 'complete'})
        ctx.extra['overlapping footprints'] = sorted(set(sum(races.values(), [])))


CHECKS = {'C20': c20, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11}
