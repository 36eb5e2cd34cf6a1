"""Checks of the zero-knowledge program (C12-C14, C16) and of its commitment schemes (C15)."""
from vlib import *
from gkr import DELTAS

PATS = ['chal pat 0', 'chal pat 1', 'chal pat 2', 'chal pat 0 1', 'chal pat 1 0 0', 'chal pat -1 1 0 3', 'chal mix 1', 'chal mix 2', 'chal pat 5 7 11']


def build(ctx):
    F = ['-O2', '-Izk', '-I.']
    srcs = ['VPD/inputvpd', 'VPD/vpdR', 'VPD/vpd_test', 'linear_gkr/zk_prover', 'linear_gkr/prime_field', 'linear_gkr/polynomial']
    jobs = [(os.path.basename(s) + '.o', F + [REPO + '/src/%s.cpp' % s]) for s in srcs]
    jobs.append(('zk.o', F + ['-I' + REPO + '/src', '-DREPO_VERIFIER="%s/src/linear_gkr/zk_verifier.cpp"' % REPO,
                              '-DREPO_MAIN="%s/src/linear_gkr/main_zk.cpp"' % REPO, 'zk.cpp']))
    ctx.compile(jobs, [('zk', [j[0] for j in jobs], ['-lgmp', '-lgmpxx', '-Wl,--wrap=__gmpz_urandomm'])])


def meta_text(meta, style=0, rng=None):
    if style == 0:
        return ''.join('%d %d %d %d %d\n' % tuple(m) for m in meta)
    if style == 1:
        return ' '.join(str(x) for m in meta for x in m)
    return ''.join(str(x) + rng.choice([' ', '\n', '\t', '\r\n', '  ', ' \n\n']) for m in meta for x in m)


def case(ident, layers, ops=(), honest=True, fresh=True, meta=None, txt=None, style=0, rng=None):
    ops = list(ops)
    if any(o.startswith('chal ') for o in ops):
        fresh = False
    meta = meta or [[0, 1, 1, 0, 0]] * len(layers)
    return {'id': ident, 'file': layers, 'ops': ops, 'text': txt or text(layers), 'files': {'meta.txt': meta_text(meta, style, rng)},
            'honest': honest, 'fresh': fresh, 'para': [m[0] for m in meta]}


def canonical(ev):
    """The two commitments of a layer may be sent in either order; ZK receives the layer's mask first."""
    out = []
    for e in ev:
        if e['e'] == 'layer' and out and out[-1]['e'] == 'mask':
            out.insert(-1, e)
        else:
            out.append(e)
    return out


def execute(ctx, cases):
    out = run_plan(ctx, 'zk', cases, 'zk')
    recs = []
    for c in cases:
        if c['id'] not in out:
            raise CheckError('no result for ' + c['id'])
        o = out[c['id']]
        if o['ovf']:
            raise CheckError('event log overflow in ' + c['id'])
        recs.append({'id': c['id'], 'file': inputs_as_text(c['file']), 'para': c['para'], 'ev': canonical(o['ev']), 'verdict': o['verdict'],
                     'honest': c['honest'], 'fresh': c['fresh']})
    return recs


def decide(ctx, cases, cats, chunk=400):
    recs = execute(ctx, cases)
    bad = ctx.traces('ZKTrace', recs, cats, chunk=chunk)
    byid = {c['id']: c for c in cases}
    if bad:
        bad = dict(list(bad.items())[:24])
        again = execute(ctx, [byid[i] for i in bad])
        bad2 = ctx.traces('ZKTrace', again, cats)
        for i in bad:
            if i in bad2:
                c = byid[i]
                ctx.violation(i, bad2[i], {'ops': c['ops'], 'circuit': c['text'], 'layout': c['files']['meta.txt']})
    nrej = sum(1 for r in recs if r['verdict'] != 'pass')
    v = ctx.extra.setdefault('verdicts', {'accepted': 0, 'rejected': 0})
    v['accepted'] += len(recs) - nrej
    v['rejected'] += nrej
    for c in cases[:3]:
        ctx.sample({'id': c['id'], 'ops': c['ops'], 'circuit': c['text'][:300]})
    return recs


# ---- circuits ----------------------------------------------------------------
def fix(ls):
    """ranges the program accepts: sums are not empty, power-of-two sums short"""
    for l in ls[1:]:
        for g in l:
            if g[0] == SUM and g[3] <= g[2]:
                g[3] = g[2] + 1
            if g[0] == EXPSUM and g[3] - g[2] > 62:
                g[3] = g[2] + 62                    # the evaluator takes at most 63 operands
    return ls


def rand_zk(rng, widths, types=ZK_TYPES):
    return fix(rand_circuit(rng, widths, types))


def rand_para(rng, reps, blocks, plain_top=None, types=ZK_TYPES):
    """a circuit of reps equal blocks per layer, and its layout"""
    lg = lambda n: n.bit_length() - 1
    ls = [rand_input(rng, reps * blocks[0], 'all3')]
    meta = [[0, blocks[0], reps, lg(blocks[0]), lg(reps)]]
    for i in range(1, len(blocks)):
        b, pb = blocks[i], blocks[i - 1]
        blk = fix([[], [rand_gate(rng, g, pb, types) for g in range(b)]])[1]
        if rng.random() < 0.5:                      # ranges reaching the end of the block
            for g in blk:
                if g[0] == SUM and rng.random() < 0.5:
                    g[3] = pb
                if g[0] == EXPSUM and rng.random() < 0.5:
                    g[3] = pb - 1
        l = []
        for r in range(reps):
            for g in blk:
                two = g[0] not in (NOT, RELAY, DUMMY)
                l.append([g[0], g[1] + r * b, g[2] + (r * pb if g[0] != DUMMY else 0), g[3] + (r * pb if two else 0)])
        ls.append(l)
        meta.append([1, b, reps, lg(b), lg(reps)])
    if plain_top:
        w = len(ls[-1])
        ls.append(fix([[], [rand_gate(rng, g, w, types) for g in range(plain_top)]])[1])
        meta.append([0, plain_top, 1, lg(plain_top), 0])
    return ls, meta


def sdr(n):
    return 'seed %d' % (SEED * 100000 + n)


def honest_cases(ctx, n_rand, wide):
    rng = ctx.rng
    cs = []
    n = [0]

    def sd():
        n[0] += 1
        return sdr(n[0])
    gs = one_gate_circuits(ZK_TYPES)
    gs = [g for g in gs if not (g[0] == SUM and g[2] <= g[1])]
    rng.shuffle(gs)
    for i in range(0, len(gs), 8):
        l = [[t, g, u, v] for g, (t, u, v) in enumerate(gs[i:i + 8])]
        while len(l) & (len(l) - 1):
            l.append([DUMMY, len(l), 0, 0])
        cs.append(case('gates%d' % i, [rand_input(rng, 4), l], [sd()]))
    for t in ZK_TYPES:
        for w in (1, 2, 4):
            pos = rng.randrange(w)
            l = [[DUMMY, g, 0, 0] if g != pos else rand_gate(rng, g, 4, [t]) for g in range(w)]
            cs.append(case('only_t%d_w%d' % (t, w), fix([rand_input(rng, 4), l]), [sd()]))
    shapes = [[1, 1], [1, 2], [2, 1], [1, 1, 1, 1], [4, 1, 4], [1, 8, 1], [2, 16, 2], [16, 1], [8, 4, 2, 1], [1, 2, 4, 8],
              [2, 2, 2, 2, 2, 2, 2], [8, 2, 8, 1], [32, 4]]
    for s in shapes:
        cs.append(case('shape' + '_'.join(map(str, s)), rand_zk(rng, s), [sd()]))
    for i in range(n_rand):
        d = rng.randrange(2, 7)
        ws = [1 << rng.choice([0, 1, 1, 2, 2, 3, 3, 4]) for _ in range(d)]
        op = [sd()] + ([rng.choice(PATS)] if i % 3 == 2 else [])
        cs.append(case('rand%d' % i, rand_zk(rng, ws), op))
    for i, dg in enumerate(PATS):
        cs.append(case('degen%d' % i, rand_zk(rng, [4, 8, 4, 2]), [dg, sd()]))
    # data-parallel layers
    for i in range(n_rand):
        reps = 1 << rng.choice([0, 1, 1, 2, 3])
        bl = [1 << rng.choice([0, 1, 1, 2, 2, 3]) for _ in range(rng.randrange(2, 5))]
        if reps == 1:
            bl = [max(2, b) for b in bl]            # a one-gate layer is padded and is no longer the block declared
        ls, meta = rand_para(rng, reps, bl, rng.choice([None, 1, 2, 4]))
        cs.append(case('para%d_%dx%s' % (i, reps, '_'.join(map(str, bl))), ls, [sd()] + ([rng.choice(PATS)] if i % 4 == 3 else []), meta=meta))
    for t in ZK_TYPES:
        if t != DUMMY:
            ls, meta = rand_para(rng, 4, [4, 2, 2], None, [t])
            cs.append(case('para_t%d' % t, ls, [sd()], meta=meta))
    # challenges zero or one here and there: weights of single gates vanish while others stay
    pat = lambda: 'chal pat ' + ' '.join(str(rng.choice([0, 1, 2 + rng.randrange(1 << 30)])) for _ in range(61))
    for t in ZK_TYPES:
        if t != DUMMY:
            for k in range(2):
                g = [q for q in one_gate_circuits([t]) if not (q[0] == SUM and q[2] <= q[1])]
                rng.shuffle(g)
                l = [[ty, i, u, v] for i, (ty, u, v) in enumerate(g[:16])]
                while len(l) & (len(l) - 1):
                    l.append([DUMMY, len(l), 0, 0])
                cs.append(case('zeros_t%d_%d' % (t, k), [rand_input(rng, 4), l], [pat(), sd()]))
            ls, meta = rand_para(rng, 4, [4, 4, 2], None, [t])
            cs.append(case('para_zeros_t%d' % t, ls, [pat(), sd()], meta=meta))
    ls = [[[INPUT, 0, 2147483647, 0], [INPUT, 1, 2147483629, 0]]] + [[[MUL, 0, 0, 0], [MUL, 1, 1, 0]] for _ in range(11)]
    cs.append(case('squares', ls, [sd()]))
    # power-of-two sums of 31 to 63 operands: weights beyond 32 bits
    big = lambda n: [[INPUT, g, rng.choice([1, rng.randrange(1, 1 << 31)]), 0] for g in range(n)]
    l = [[EXPSUM, g, u, u + k - 1] for g, (u, k) in enumerate([(0, 63), (1, 63), (0, 32), (31, 33), (5, 48), (20, 31), (3, 61), (2, 40)])]
    cs.append(case('expsum63', [big(64), l], [sd()]))
    ls = [big(128)] + [[[EXPSUM, g, (g // 2) * 64 + (g % 2), (g // 2) * 64 + 62] for g in range(4)]]
    cs.append(case('expsum_para', ls, [sd()], meta=[[0, 64, 2, 6, 1], [1, 2, 2, 1, 1]]))
    for w in wide:
        cs.append(case('wide%s' % '_'.join(map(str, w)), rand_zk(rng, w), [sd()]))
    if wide:
        for i, w in enumerate(([4, 256, 2], [256, 4], [2, 4, 1, 2] * 4, [2] * 24, [1024, 2], [2, 1024, 1])):
            cs.append(case('big%d' % i, rand_zk(rng, w), [sd()]))
        for i, (r, b) in enumerate(((32, [2, 4, 2]), (16, [8, 16, 4]), (2, [64, 32, 64]), (4, [2, 4, 1] * 4))):
            ls, meta = rand_para(rng, r, b, rng.choice([None, 1, 4]))
            cs.append(case('bigpara%d' % i, ls, [sd()], meta=meta))
    return cs


NR = 200 if THOROUGH else 24
WIDE = [[64, 32]] if not THOROUGH else [[128, 64], [64, 256], [16] * 8]


def c12(ctx):
    build(ctx)
    decide(ctx, honest_cases(ctx, NR, WIDE), {'accept', 'rel', 'eval'})


# ---- lying provers -----------------------------------------------------------
def lie_cases(ctx, full, circuits=None, spots=None, pats=None, thin=1, base=0, name=''):
    """circuits: (layers, layout); spots: how many layers to lie in; pats: challenge patterns; thin: keep one case in so many"""
    rng = ctx.rng
    cs = []
    n = [base]
    D = lambda: rng.choice(DELTAS)
    neg = lambda d: d[1:] if d[0] == '-' else '-' + d
    shapes = [[2, 4, 2], [4, 2, 1, 2]] + ([[8, 4, 4, 2], [2, 8, 1, 4], [1, 1, 2], [4, 4, 4, 4]] if full else [[1, 2]])
    for k, ws in enumerate(circuits or shapes):
        if circuits:
            ls, meta = ws
        else:
            ls, meta = rand_zk(rng, ws), None
            for l in ls[1:]:
                if all(g[0] == DUMMY for g in l):
                    l[0] = [MUL, 0, 0, 1]

        def add(ops, tag, m=None):
            n[0] += 1
            if n[0] % thin:
                return
            base = [sdr(n[0])] + (([rng.choice(pats)] if pats else ['chal seed %d' % (SEED * 7919 + n[0])]) if 'peek' in ops or pats else [])
            cs.append(case('%s%s_%d_%d' % (name, tag, k, n[0]), ls, base + ops, honest=False, meta=meta))
        depth = len(ls) + 1
        wid = lambda i: max(2, len(ls[max(0, i - 1)]))
        for i in range(1, depth) if not spots else sorted(rng.sample(range(1, depth), min(spots, depth - 1))):
            ub = wid(i - 1).bit_length() - 1
            top = i == depth - 1
            for ph in (1, 2):
                for j in range(ub):
                    nc = 6 if j == ub - 1 else 3
                    add(['peek', 'iso %d %d %d %s' % (i, ph, j, D())], 'iso')
                    for c in (range(nc) if full else [rng.randrange(nc), rng.randrange(nc)]):
                        co = ['0'] * nc
                        co[c] = D()
                        add(['poly %d %d %d %s' % (i, ph, j, ' '.join(co))], 'poly')
                    add(['poly %d %d %d %s' % (i, ph, j, ' '.join(D() for _ in range(nc)))], 'poly')
                    # the round sum is kept: caught only later
                    d1, c1 = D(), rng.randrange(2, nc)
                    co = ['0'] * nc
                    co[1], co[c1] = d1, neg(d1)
                    add(['poly %d %d %d %s' % (i, ph, j, ' '.join(co))], 'keep')
            for op in ('last', 'lievv', 'lievu'):
                for d in (DELTAS if full and op == 'last' else [D(), D()]):
                    add(['peek', '%s %d %s' % (op, i, d)], op)
            add(['vu %d %s' % (i, D())], 'vu')
            add(['vulate %d %s' % (i, D())], 'vulate')
            for a, b in ((D(), '0'), ('0', D()), (D(), D())):
                add(['fin %d %s %s' % (i, a, b)], 'fin')
            for c in range(3):
                co = ['0'] * 3
                co[c] = D()
                add(['fr %d %s' % (i, ' '.join(co))], 'fr')
            add(['fr %d 0 %s %s' % (i, '5', '-5')], 'frkeep')
            add(['peek', 'friso %d %s' % (i, D())], 'friso')
            add(['peek', 'frlast %d %s' % (i, D())], 'frlast')
            for w in (('M',) if top else ('R1', 'R2', 'M')):
                add(['peek', 'openx %d %s %s' % (i, w, D())], 'openx')
            if not top:
                add(['peek', 'iuv %d %s' % (i, D())], 'iuv')
                add(['peek', 'posthoc %d %s' % (i + 1, (d := D())), 'lievu %d %s' % (i + 1, d)], 'posthoc')
            for which, nv in ((3, 2 * ub + 1),) if top else ((1, 2), (2, 2), (3, 2 * ub + 1)):
                add(['open %d %d v %s' % (i, which, D())], 'open')
                for j in (range(nv + 1) if full else sorted({0, nv, rng.randrange(nv + 1)})):
                    for part in 'wab':
                        add(['open %d %d %s%d %s' % (i, which, part, j, D())], 'open')
            for c in (0, 1):
                if i > 1:
                    add(['rcom %d %d %s' % (i, c, D())], 'rcom')
                add(['mcom %d %d %s' % (i, c, D())], 'mcom')
            add(['msum %d %s' % (i, D())], 'msum')
            d = D()
            add(['msum %d %s' % (i, d), 'msumabs %d %s' % (i, d)], 'msumabs')
            d = D()
            add(['msum %d %s' % (i, d), 'msumkeep %d' % i], 'msumkeep')
        for c in range(4):
            for d in (DELTAS if full else [D()]):
                add(['icom 0 %d %s' % (c, d)], 'icom')
        nb = wid(0).bit_length() - 1
        add(['open 0 4 v %s' % D()], 'openin')
        for j in range(nb + 1):
            for part in 'wab':
                add(['open 0 4 %s%d %s' % (part, j, D())], 'openin')
        for i in range(depth):
            for g in sorted({0, wid(i) - 1, rng.randrange(wid(i))}):
                add(['val %d %d %s' % (i, g, D())], 'val')
                add(['valO %d %d %s' % (i, g, D())], 'valO')
        for g in range(wid(0)):
            add(['peek', 'absorb 0 %d %s' % (g, D())], 'absorb')
        for g in sorted({0, wid(depth - 1) - 1}):
            add(['outvec %d %s' % (g, D())], 'outvec')
            for d in (DELTAS if full else [D()]):
                add(['outvec %d %s' % (g, d), 'outtrue'], 'outtrue')
        for d in (DELTAS if full else [D()]):
            add(['outval %s' % d], 'outval')
        for i in range(2, depth):
            l = ls[i - 1]
            for g in range(min(len(l), 3)):
                for _ in range(2):
                    q = fix([[], [rand_gate(rng, g, wid(i - 1), [t for t in ZK_TYPES if t != DUMMY])]])[1][0]
                    if q != l[g]:
                        add(['gate %d %d %d %d %d' % (i, g, q[0], q[2], q[3])], 'gate')
    return cs


def c13(ctx):
    build(ctx)
    cs = lie_cases(ctx, THOROUGH)
    rng = ctx.rng
    more = 1 if THOROUGH else 3
    # in data-parallel circuits, in larger ones, and with challenges that are zero, one or repeated
    cs += lie_cases(ctx, False, [rand_para(rng, 2, [2, 4, 2], None), rand_para(rng, 4, [2, 2, 1], 2), rand_para(rng, 4, [1, 4, 2], None)], thin=more, base=20000, name='p')
    plain = lambda ws: (rand_zk(rng, ws), None)
    cs += lie_cases(ctx, False, [plain([16, 8, 32, 1]), plain([2, 4] * 5), rand_para(rng, 8, [4, 4, 2], 4)], spots=2, thin=more, base=40000, name='b')
    cs += lie_cases(ctx, False, [plain([4, 8, 2]), plain([2, 1, 4]), rand_para(rng, 2, [4, 2, 2], None)], pats=PATS, thin=more, base=60000, name='d')
    # layers whose gates are all of one type, dummies included
    for t in ZK_TYPES:
        for m in (0, 1):
            ls, meta = rand_para(rng, 2, [2, 2], 2, [t])
            for n, op in enumerate(('last', 'iso', 'val', 'frlast')):
                op = op + ' 2' + {'last': '', 'iso': ' %d 1' % rng.choice([1, 2]), 'val': ' %d' % rng.randrange(4), 'frlast': ''}[op] + ' ' + rng.choice(DELTAS)
                cs.append(case('one%d_%d_%d' % (t, m, n), ls, [sdr(9000 + t * 8 + m * 4 + n), 'chal seed %d' % (SEED * 31 + t * 8 + m * 4 + n), 'peek', op], honest=False, meta=meta if m else None))
    # all inputs the same; wide outputs
    for v in (0, 1, 77):
        ls = fix([[[INPUT, g, v, 0] for g in range(4)], [rand_gate(rng, g, 4, [MUL, ADD]) for g in range(2)], [rand_gate(rng, g, 2, [MUL, ADD]) for g in range(2)]])
        for n, op in enumerate((['val 0 1 5'], ['valO 0 2 5'], ['peek', 'lievu 1 5'], ['peek', 'lievv 1 5'], ['fin 1 5 5'], ['fin 1 5 7'], ['peek', 'last 1 5'], ['outval 5'],
                                ['val 0 %d 5' % g for g in range(4)], ['valO 0 %d 5' % g for g in range(4)])):
            cs.append(case('ceq%d_%d' % (v, n), ls, [sdr(9500 + v * 16 + n), 'chal seed %d' % (SEED * 37 + v * 16 + n)] + op, honest=False))
    for k, ws in enumerate(([4, 32], [2, 4, 128])):
        ls = rand_zk(rng, ws)
        for n, op in enumerate([['outval %s' % rng.choice(DELTAS)]] + [['outvec %d %s' % (g, rng.choice(DELTAS))] + ot for g in (0, ws[-1] - 1, rng.randrange(ws[-1])) for ot in ([], ['outtrue'])]):
            cs.append(case('cw%d_%d' % (k, n), ls, [sdr(9700 + k * 16 + n)] + op, honest=False))
    cs += honest_cases(ctx, NR // 2, [])
    # every gate type once as the gate whose wiring is lied about, in plain and in parallel layers
    types = [t for t in ZK_TYPES if t != DUMMY]
    for a, t in enumerate(types):
        for b, t2 in enumerate(types):
            if t2 == t or (not THOROUGH and (a + b) % 3):
                continue
            q = fix([[], [rand_gate(ctx.rng, 0, 4, [t2])]])[1][0]
            op = ['gate 2 0 %d %d %d' % (q[0], q[2], q[3])]
            ls = fix([rand_input(ctx.rng, 4, 'all3'), [rand_gate(ctx.rng, 0, 4, [t]), rand_gate(ctx.rng, 1, 4, [MUL])]])
            cs.append(case('swap_%d_%d' % (t, t2), ls, [sdr(7000 + t * 16 + t2)] + op, honest=False))
            ls, meta = rand_para(ctx.rng, 2, [4, 2], None, [t, MUL])
            cs.append(case('pswap_%d_%d' % (t, t2), ls, [sdr(8000 + t * 16 + t2)] + op, honest=False, meta=meta))
    decide(ctx, cs, {'sound', 'complete'})


CHECKS = {'C12': c12, 'C13': c13}


# ---- commitment schemes --------------------------------------------------------
SPECIAL = ['0', '1', '2', '%x' % (P - 1), '%x' % (P - 2), '%x' % ((P + 1) // 2), 'ffffffffffffffff', '1' + '0' * 32, '%x' % ((1 << 253) - 1)]


def build_vpd(ctx):
    F = ['-O2', '-Izk', '-I.']
    srcs = ['VPD/inputvpd', 'VPD/vpdR', 'VPD/vpd_test', 'linear_gkr/prime_field']
    jobs = [('v_' + os.path.basename(s) + '.o', F + [REPO + '/src/%s.cpp' % s]) for s in srcs] + [('vpd.o', F + ['vpd.cpp'])]
    ctx.compile(jobs, [('vpd', [j[0] for j in jobs], ['-lgmp', '-lgmpxx', '-Wl,--wrap=__gmpz_urandomm'])])


def vpd_cases(ctx, n, biglin, keys=False):
    rng = ctx.rng
    el = lambda sp=0.3: rng.choice(SPECIAL) if rng.random() < sp else '%x' % rng.randrange(P)
    D = lambda: rng.choice(DELTAS)
    cs = []
    shapes = [('R', 2, 6)] * 3 + [('M', 2 * u + 1, 4 * u + 9) for u in (1, 1, 2, 3)] + [('I', d, 1 << d) for d in (1, 1, 2, 3, 4, 5)]
    if THOROUGH:
        shapes += [('M', 2 * u + 1, 4 * u + 9) for u in (4, 5)] + [('I', d, 1 << d) for d in (6, 7)]
    plan = [shapes[i % len(shapes)] for i in range(n)] + [('I', d, 1 << d) for d in biglin] + [('M', 2 * u + 1, 4 * u + 9) for u in ((6, 7, 10) if biglin else ())]
    for i, (s, d, nc) in enumerate(plan):
        style = i // len(shapes)
        if style == 0:
            poly = ['0'] * nc
        elif style == 1:
            poly = ['%x' % (P - 1)] * nc
        else:
            poly = [el(rng.choice([0, 0.3, 0.8])) for _ in range(nc)]
            if style % 5 == 4:                      # a single coefficient
                k = rng.randrange(nc)
                poly = [x if j == k else '0' for j, x in enumerate(poly)]
        ops = ['scheme ' + s, 'vars %d' % d, 'seed %d' % (SEED * 5000 + i), 'poly ' + ' '.join(poly)]
        if keys and i % 3 == 1:                     # chosen keys and blinding: short, sparse, equal, zero
            pw = lambda: '%x' % ((1 << rng.randrange(253)) + rng.choice([0, 0, 0, -1, 1]))
            ops.append('draws ' + ' '.join(rng.choice([pw, pw, pw, el])() for _ in range(d + rng.choice([2, 2, 8]))))
        if s == 'I':
            ops += ['mask %s %s' % (el(0.5), el(0.5)), 'z %s %s %s %s' % (el(), '0', '1', el(0))]
        pts = [[el(0) for _ in range(d)], [el(0.6) for _ in range(d)],
               [rng.choice(['k%d' % j, el()]) for j in range(d)], [rng.choice('01') for _ in range(d)]]
        for p in pts:
            ops.append('point ' + ' '.join(p))
        if style < 4 and not any(o.startswith('draws') for o in ops):
            ops.append('indep')
        for w in ('d', 'da', 'D') + (('d2', 'd2a', 'D2') if s == 'I' else ()):
            ops.append('calt %s %s' % (w, D()))
        ops.append('calt zero 0')
        ops.append('calt d %s da %s' % (D(), D()))
        if s == 'I':
            ops.append('calt swap 0')
            ops.append('calt d %s d2 %s' % ((x := D()), '-' + x if x[0] != '-' else x[1:]))
        for k in range(len(pts)):
            ops.append('alt %d v 0 %s' % (k, D()))
            for j in range(d):
                ops.append('alt %d r %d %s' % (k, j, D()))
            for j in range(d + 1):
                for w in ('w', 'wa', 'W', 'zw', 'sw', 'zwa'):
                    if w == 'sw' and d == 0:
                        continue
                    if k and rng.random() < 0.5:
                        continue
                    ops.append('alt %d %s %d %s' % (k, w, j, D()))
            ops.append('alt %d d 0 %s' % (k, D()))
            if s == 'I':
                ops += ['alt %d d2 0 %s' % (k, D()), 'alt %d z 0 %s' % (k, D())]
            ops.append('alt %d d 0 %s v 0 %s' % (k, x := D(), x))       # still an opening
            ops.append('alt %d fix 0 %s' % (k, D()))
            if k < 2:
                j = rng.randrange(d)
                ops.append('alt %d move %d %s' % (k, j, D()))
                ops.append('alt %d v 0 %s W %d %s' % (k, D(), rng.randrange(d + 1), D()))
        cs.append({'id': '%s%d_%d' % (s, d, i), 'ops': ops, 'text': '', 'scheme': s})
    return cs


def vpd_decide(ctx, cats, n, biglin, keys=False):
    build_vpd(ctx)
    cs = vpd_cases(ctx, n, biglin, keys)

    def go(sub):
        out = run_plan(ctx, 'vpd', sub, 'vpd')
        recs = []
        for c in sub:
            o = dict(out[c['id']])
            if o.pop('ovf'):
                raise CheckError('event log overflow in ' + c['id'])
            o['scheme'] = c['scheme']
            recs.append(o)
        return recs
    recs = go(cs)
    bad = ctx.traces('VPDTrace', recs, cats)
    byid = {c['id']: c for c in cs}
    if bad:
        bad = dict(list(bad.items())[:24])
        bad2 = ctx.traces('VPDTrace', go([byid[i] for i in bad]), cats)
        for i in bad:
            if i in bad2:
                ctx.violation(i, bad2[i], byid[i]['ops'])
    ctx.extra['openings'] = ctx.extra.get('openings', 0) + sum(len(r.get('op', ())) for r in recs)
    ctx.extra['openings refused'] = ctx.extra.get('openings refused', 0) + sum(not o['ok'] for r in recs for o in r.get('op', ()))
    for c in cs[:2]:
        ctx.sample({'id': c['id'], 'ops': c['ops'][:12]})


def c15(ctx):
    for sc in ('bind', 'lin', 'small', 'mask'):
        ctx.model('VPDModel', {'P': 3, 'Scheme': '"%s"' % sc, 'Full': 'TRUE' if THOROUGH and sc != 'mask' else 'FALSE'}, ['Honest', 'Binding'],
                  'commitment scheme %s over the field of 3 elements' % sc)
    vpd_decide(ctx, {'commit', 'open', 'accept', 'sound', 'complete', 'keys'}, 400 if THOROUGH else 78, (8, 9, 10) if THOROUGH else (6, 7, 9), keys=True)
    build(ctx)
    decide(ctx, honest_cases(ctx, NR // 2, WIDE), {'commit'})


CHECKS['C15'] = c15


# ---- masks and transcript -------------------------------------------------------
def pairs(ctx, mode, plan):
    """plan: (id, case a, case b); both are run and compared by ZKPair"""
    def go(sub):
        cs = []
        for i, a, b in sub:
            cs += [dict(a, id=i + '.a'), dict(b, id=i + '.b')]
        out = run_plan(ctx, 'zk', cs, 'pair')
        if any(o['ovf'] for o in out.values()):
            raise CheckError('event log overflow')
        return [{'id': i, 'mode': mode, 'a': out[i + '.a']['ev'], 'b': out[i + '.b']['ev']} for i, _, _ in sub]
    bad = ctx.traces('ZKPair', go(plan), {mode})
    if bad:
        sub = [p for p in plan if p[0] in bad][:12]
        bad2 = ctx.traces('ZKPair', go(sub), {mode})
        for i, a, b in sub:
            if i in bad2:
                ctx.violation(i, bad2[i], {'first': a['ops'], 'second': b['ops'], 'circuit': a['text'], 'second circuit': b['text'], 'layout': a['files']['meta.txt']})
    ctx.extra['pairs of runs: ' + mode] = len(plan)


def indep(ctx, plan):
    """plan: (id, case); the run, and the run with each of its random draws altered in turn"""
    keep = ('icom', 'layer', 'mask')

    def go(sub):
        out = run_plan(ctx, 'zk', [dict(c, id=i) for i, c in sub], 'ind0')
        cs = []
        for i, c in sub:
            cs += [dict(c, id='%s.r%d' % (i, k), ops=c['ops'] + ['flip %d' % k]) for k in range(out[i]['nrand'])]
            cs += [dict(c, id='%s.g%d' % (i, k), ops=c['ops'] + ['gflip %d' % k]) for k in range(out[i]['ngmp'])]
        alt = run_plan(ctx, 'zk', cs, 'ind1')
        if any(o['ovf'] for o in list(out.values()) + list(alt.values())):
            raise CheckError('event log overflow')
        lean = lambda o: [{k: e[k] for k in ('e', 'd', 'm', 'rf') if k in e} for e in o['ev'] if e['e'] in keep]
        ctx.extra['runs with one random draw altered'] = ctx.extra.get('runs with one random draw altered', 0) + len(cs)
        return [{'id': i, 'mode': 'indep', 'a': lean(out[i]), 'x': [lean(alt[c['id']]) for c in cs if c['id'].startswith(i + '.')]} for i, _ in sub]
    bad = ctx.traces('ZKPair', go(plan), {'indep'})
    if bad:
        sub = [p for p in plan if p[0] in bad]
        bad2 = ctx.traces('ZKPair', go(sub), {'indep'})
        for i, c in sub:
            if i in bad2:
                ctx.violation(i, bad2[i], {'ops': c['ops'], 'circuit': c['text'], 'layout': c['files']['meta.txt']})


def pair_circuits(ctx, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        if i and i % 11 == 0:
            out.append((rand_zk(rng, rng.choice([[64, 16], [2, 4] * 6, [16] * 6, [2, 128]])), None))
        elif i % 3 == 2:
            out.append(rand_para(rng, 2, [4, 2, 2], rng.choice([None, 2])))
        else:
            out.append((rand_zk(rng, [1 << rng.choice([0, 1, 2, 3]) for _ in range(rng.randrange(2, 5))]), None))
    return out


def other_inputs(rng, ls):
    return [[[INPUT, g[1], g[2] ^ (1 << rng.randrange(31)), 0] if g[0] == INPUT else g for g in ls[0]]] + ls[1:]


def c14(ctx):
    build(ctx)
    rng = ctx.rng
    decide(ctx, honest_cases(ctx, NR, WIDE), {'msg', 'mask'})
    n = 60 if THOROUGH else 18
    pl, ph = [], []
    for i, (ls, meta) in enumerate(pair_circuits(ctx, n)):
        for l in (ls[0],):
            if all(g[0] != INPUT for g in l):
                l[0] = [INPUT, 0, 5, 0]
        o = other_inputs(rng, ls)
        pl.append(('masks%d' % i, case('x', ls, [sdr(9000 + i)], meta=meta), case('x', o, [sdr(9000 + i)], meta=meta)))
        ch = 'chal seed %d' % (SEED * 31 + i)
        ph.append(('hidden%d' % i, case('x', ls, [sdr(9500 + 2 * i), ch], meta=meta), case('x', ls, [sdr(9501 + 2 * i), ch], meta=meta)))
    pairs(ctx, 'masks', pl)
    pairs(ctx, 'hidden', ph)
    ip = []
    for i, ws in enumerate([[2, 2], [4, 2, 2], [1, 4, 1]] + ([[8, 4, 2, 2], [2, 2, 2, 2, 2], [16, 4]] if THOROUGH else [])):
        ip.append(('indep%d' % i, case('x', rand_zk(rng, ws), [sdr(9900 + i)])))
    ls, meta = rand_para(rng, 2, [2, 2, 2], None)
    ip.append(('indep_para', case('x', ls, [sdr(9950)], meta=meta)))
    indep(ctx, ip)
    vpd_decide(ctx, {'hide'}, 200 if THOROUGH else 26, ())


def build_transcript(ctx):
    ctx.compile([('t_field.o', ['-O2', '-I.', REPO + '/src/linear_gkr/prime_field.cpp']), ('transcript.o', ['-O2', '-Izk', '-I.', 'transcript.cpp'])],
                [('transcript', ['t_field.o', 'transcript.o'], ['-lgmp', '-lgmpxx'])])


def shapes(ctx, n):
    rc, out, to = ctx.tlc('TranscriptGen', 'CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n' % n, java=False)
    if rc or to:
        raise CheckError('shape generation failed:\n' + out[-2000:])
    flat = re.sub(r'\s*\n\s+', ' ', out)
    return sorted({tuple(re.findall(r'"(\w+)"', m)) for m in re.findall(r'<<\s*"SHAPE", (<<[^>]*>>)\s*>>', flat)})


def transcript_groups(ctx, n, longs):
    rng = ctx.rng
    gs = []
    val = {'f': lambda: rng.randrange(P), 's': lambda: rng.randrange(P), 'c': lambda: rng.getrandbits(768)}
    width = {'f': 253, 's': 253, 'c': 768}

    def flip(k, v):
        while True:
            w = v ^ (1 << rng.randrange(width[k]))
            if k == 'c' or w < P:
                return w

    def group(name, shape, runs, files):
        ops, rs = [], []
        for j, vs in enumerate(runs):
            it = iter(vs)
            w, m, proof = [], [], []
            for k in shape:
                if k[0] == 'd':
                    w.append(k)
                    continue
                v = next(it)
                if k == 'c':
                    b = v.to_bytes(96, 'big')
                    w.append('c:' + b.hex())
                else:
                    b = v.to_bytes(32, 'little')
                    w.append('%s:%x' % (k, v))
                m.append('%x' % v)
                if k != 's':
                    proof.append(['%02x' % x for x in b])
            ops.append(('F ' if j in files else 'R ') + ' '.join(w))
            rs.append({'m': m, 'proof': proof if j in files else []})
        gs.append({'id': name, 'ops': ops, 'text': '', 'shape': list(shape), 'runs': rs})

    for i, sh_ in enumerate(shapes(ctx, n)):
        ks = [k for k in sh_ if k[0] != 'd']
        base = [0 if rng.random() < 0.2 else val[k]() for k in ks]
        runs = [base, base]
        runs += [[flip(k, v) if (b >> j) & 1 else v for j, (k, v) in enumerate(zip(ks, base))] for b in range(1, 1 << len(ks))]
        for j in range(len(ks)):
            for l in range(j):
                if ks[j] == ks[l] and base[j] != base[l]:
                    x = list(base)
                    x[j], x[l] = x[l], x[j]
                    runs.append(x)
        group('h%d_%s' % (i, ''.join(sh_)), sh_, runs, {0, 1, len(runs) - 1})
    for i in range(longs):
        ln = rng.choice([7, 20, 40] + ([120] if THOROUGH else []))
        s = [rng.choice('fcs')] + [rng.choice(['f', 'f', 'f', 'c', 's', 'd1', 'd1s', 'd2', 'd3', 'd5']) for _ in range(ln)] + ['d1s']
        ks = [k for k in s if k[0] != 'd']
        base = [val[k]() for k in ks]
        runs = [base]
        for j, k in enumerate(ks):
            runs.append(base[:j] + [flip(k, base[j])] + base[j + 1:])
            top = base[j] ^ 1
            if k == 'c' or top < P:
                if [*base[:j], top, *base[j + 1:]] not in runs:
                    runs.append(base[:j] + [top] + base[j + 1:])
            if j and ks[j - 1] == k:
                runs.append(base[:j - 1] + [base[j], base[j - 1]] + base[j + 1:])
        # one message, every bit
        j = rng.randrange(len(ks))
        for b in range(width[ks[j]]):
            v = base[j] ^ (1 << b)
            if (ks[j] == 'c' or v < P) and b % (1 if THOROUGH else 5) == 0:
                runs.append(base[:j] + [v] + base[j + 1:])
        uniq = []
        for x in runs:
            if x not in uniq:
                uniq.append(x)
        group('long%d' % i, s, uniq + [base], {0, 1})
    # long histories: every message altered in turn, and thousands of messages with some altered
    for i, (ln, parts, nalt) in enumerate([(900, 6, None), (6000, 3, 24)] + ([(3000, 8, None), (40000, 2, 40)] if THOROUGH else [])):
        s = ['f'] + [rng.choice(['f', 'f', 'f', 'f', 'c', 's']) for _ in range(ln)] + ['d1s']
        for k in (ln // 3, ln // 2):
            s[k:k] = [rng.choice(['d1', 'd2', 'd1s'])]
        ks = [k for k in s if k[0] != 'd']
        base = [val[k]() for k in ks]
        pos = list(range(len(ks)))
        if nalt:
            pos = sorted({0, 1, len(ks) - 1, len(ks) - 2} | {1 << b for b in range(5, 16) if 1 << b < len(ks)} | set(rng.sample(pos, nalt)))
        for part in range(parts):
            group('huge%d_%d' % (i, part), s, [base], {0} if part == 0 else ())
            g = gs[-1]
            g['runs'][0] = {'alt': [len(ks) + 1, ''], 'proof': g['runs'][0]['proof']}
            for j in pos[part::parts]:
                v = flip(ks[j], base[j])
                g['ops'].append('A %d %s' % (j + 1, 'c:' + v.to_bytes(96, 'big').hex() if ks[j] == 'c' else '%s:%x' % (ks[j], v)))
                g['runs'].append({'alt': [j + 1, '%x' % v], 'proof': []})
    return gs


def transcript_decide(ctx, n, longs):
    build_transcript(ctx)
    gs = transcript_groups(ctx, n, longs)

    def go(sub):
        out = run_plan(ctx, 'transcript', sub, 'tr')
        recs = []
        for g in sub:
            o = out[g['id']]
            if o['ovf']:
                raise CheckError('event log overflow')
            ok = len(o['runs']) == len(g['runs'])
            recs.append({'id': g['id'], 'shape': g['shape'], 'done': ok,
                         'runs': [dict(r, **x) for r, x in zip(g['runs'], o['runs'])] if ok else []})
        return recs
    cats = {'func', 'dist', 'canon', 'file'}
    bad = ctx.traces('TranscriptTrace', go(gs), cats)
    byid = {g['id']: g for g in gs}
    if bad:
        sub = [byid[i] for i in list(bad)[:12]]
        bad2 = ctx.traces('TranscriptTrace', go(sub), cats)
        for g in sub:
            if g['id'] in bad2:
                ctx.violation(g['id'], bad2[g['id']], {'shape': g['shape'], 'ops': g['ops'][:40]})
    ctx.extra['history shapes'] = len(gs)
    ctx.extra['histories replayed'] = sum(len(g['runs']) for g in gs)
    ctx.sample({'shape': gs[len(gs) // 2]['shape'], 'history': gs[len(gs) // 2]['ops'][0][:200]})


def bound_pairs(ctx, n):
    """one deviation early or late in a run against the honest run"""
    rng = ctx.rng
    out = []
    for i in range(n):
        ls, meta = pair_circuits(ctx, 3)[i % 3] if i % 9 != 4 else (rand_zk(rng, rng.choice([[2, 4] * 5, [32, 8], [4] * 9])), None)
        depth = len(ls) + 1
        wid = lambda k: max(2, len(ls[max(0, k - 1)]))
        l = rng.randrange(1, depth)
        ub = wid(l - 1).bit_length() - 1
        r = '%x' % rng.randrange(1, P)
        op = rng.choice(['poly %d 1 %d %s 0 0' % (l, rng.randrange(ub), r), 'poly %d 2 %d 0 0 %s' % (l, rng.randrange(ub), r),
                         'poly %d 1 %d 0 %s 0' % (l, rng.randrange(ub), r), 'msum %d %s' % (l, r), 'mcom %d %d %s' % (l, rng.randrange(2), r),
                         'icom 0 %d %s' % (rng.randrange(4), r), 'vu %d %s' % (l, r), 'fin %d 0 %s' % (l, r), 'fr %d 0 0 %s' % (l, r),
                         'outvec 0 %s' % r, 'open %d 3 w0 %s' % (l, r), 'open %d 3 a0 %s' % (l, r), 'open %d 3 v %s' % (l, r)]
                        + (['rcom %d %d %s' % (l, rng.randrange(2), r)] if l > 1 else [])
                        + (['open %d 1 v %s' % (l, r), 'open %d 2 a1 %s' % (l, r), 'open %d 2 w2 %s' % (l, r)] if l < depth - 1 else []))
        out.append(('bound%d_%s' % (i, op.split()[0]), case('x', ls, [sdr(9900 + i)], meta=meta), case('x', ls, [sdr(9900 + i), op], meta=meta)))
    # a wrong statement: another gate, another input (the proof's commitments differ as well), same output vector
    return out


def c16(ctx):
    ctx.model('Transcript', {'MaxLen': 4 if THOROUGH else 3, 'Runs': 2, 'Vals': '{0, 1}', 'Answers': '{1, 2, 3, 4, 5, 6}' if THOROUGH else '{1, 2, 3, 4}'},
              ['Binds', 'Functional'], 'transcript oracle')
    transcript_decide(ctx, 5 if THOROUGH else 4, 40 if THOROUGH else 12)
    build(ctx)
    decide(ctx, honest_cases(ctx, NR // 2, WIDE), {'rec', 'chal'})
    fc = [case('file%d' % i, ls, [sdr(9800 + i), 'prooffile'], meta=meta) for i, (ls, meta) in enumerate(pair_circuits(ctx, 12))]
    decide(ctx, fc, {'file', 'rec'})
    pairs(ctx, 'bound', bound_pairs(ctx, 400 if THOROUGH else 90))


CHECKS.update(C14=c14, C16=c16)
