"""C18, C19: circuit translators.  Random programs are translated by the real
tools; TLC evaluates the circuit written and compares it with the program."""
from vlib import *

TOOLS = {  # tool: (source, output file, kind, operations)
    'lanczos': ('parser_lanczos.cpp', 'lanczos_circuit.txt', 'layered', ['add', 'mul']),
    'sha': ('parser_sha.cpp', 'sha_circuit.txt', 'layered', ['add', 'mul', 'xor', 'naab', 'minus', 'not']),
    'parallel': ('parser_sha_data_parallel.cpp', 'test_circuit.txt', 'parallel', ['add', 'mul', 'xor', 'naab', 'minus', 'not', 'ss']),
}
SYM = {'add': '+', 'mul': '*', 'xor': 'XOR', 'naab': 'NAAB', 'minus': 'minus', 'not': 'NOT', 'ss': 'SS'}


def rand_rdl(rng, n, reps, kind, nfree):
    """Range description with n*reps outputs, known values except nfree."""
    nc = rng.choice([1, 2, 3, n, n * reps, n * reps + 2, rng.randrange(1, 9)])
    ids = list(range(nc))
    gap = rng.choice([0, 0, 3, 10])
    if rng.random() < 0.3:
        ids = sorted(rng.sample(range(nc + 6), nc))
    order = ids[:]
    if rng.random() < 0.4:
        rng.shuffle(order)
    lines, free = [], set(rng.sample(ids, min(nfree, nc)))
    k = 0
    for i in order:
        if i in free:
            lines.append(['in', i, k])
            k += 1
        else:
            c = rng.random()
            lines.append(['const', i, rng.choice([0, 1, 2, 2147483647, 1 << 31, (1 << 32) - 1, 1 << 32, 999999999999999, 10 ** 15, 10 ** 15 + 1, (1 << 62) + 12345, -1, -7, -(1 << 40)]) if c < 0.3
                          else rng.randrange(1, 1 << 31) if c < 0.7 else rng.randrange(1 << 60)])
    base = max(ids) + 1 + gap
    m = n * reps
    obase = rng.choice([0, 0, 0, base + m, 5])
    tv = list(range(base, base + m))
    if kind == 'parallel' and rng.random() < 0.3:     # outputs are identified by number
        rng.shuffle(tv)
    outs = []
    for j in range(m):
        outs.append(['out', obase + j, tv[j]])
    passes = [['pass', tv[j], rng.choice(ids)] for j in range(m)]
    if rng.random() < 0.3:
        for j in range(m):                            # repetition-dependent sources
            passes[j][2] = ids[j % len(ids)]
    style = rng.random()
    if style < 0.5:
        for a, b in zip(passes, outs):
            lines += [a, b]
    else:
        lines += passes + outs
    return lines


def rand_prog(rng, kind, tool, n, size, shape, step=None):
    ops = TOOLS[tool][3]
    lines = [['in', k, k, 0] for k in range(n)]
    lv = {k: 0 for k in range(n)}
    ids = list(range(n, n + size))
    step = step or rng.choice([1, 1, 1, 2, 5])
    nxt = n + (rng.randrange(4) if rng.random() < 0.3 else 0)
    if tool == 'sha' and rng.random() < 0.5:          # inputs under other numbers
        off = rng.randrange(1, 9)
        lines = [['in', k + off, k, 0] for k in range(n)]
        lv = {k + off: 0 for k in range(n)}
        nxt += off
    shuffled = shape == 'ids'
    pool = []
    if shuffled:
        pool = [nxt + i for i in range(size * 2)]
        rng.shuffle(pool)

    def new():
        nonlocal nxt
        if shuffled:
            return pool.pop()
        v = nxt
        nxt += step
        return v
    chain = None
    made = 0
    while made < size:
        vs = list(lv)
        if 'ss' in ops and not shuffled and rng.random() < 0.15:
            # a batch of consecutive variables of one depth, then their sum
            L = rng.choice(sorted(set(lv.values())))
            top = [v for v in vs if lv[v] == L]
            low = [v for v in vs if lv[v] <= L]
            k = rng.randrange(1, 5) if shape != 'large' else rng.randrange(1, 70) if rng.random() < 0.8 else rng.randrange(100, 300)
            first = nxt
            if rng.random() < 0.4 and not any(l[0] == 'in' and l[1] != l[2] for l in lines):      # a sum of inputs
                i, j = sorted((rng.randrange(n), rng.randrange(n)))
                lines.append(['ss', nxt, i, j])
                lv[nxt] = 1
                nxt += step
                made += 1
                continue
            for _ in range(k):
                a, b = rng.choice(top), rng.choice(low)
                if rng.random() < 0.5:
                    a, b = b, a
                op = rng.choice([o for o in ops if o != 'ss'])
                if op == 'not':
                    a = b = rng.choice(top)
                lines.append([op, nxt, a, b])
                lv[nxt] = L + 1
                nxt += 1
            i, j = sorted((rng.randrange(k), rng.randrange(k)))
            lines.append(['ss', nxt, first + i, first + j])
            lv[nxt] = L + 2
            nxt += step
            made += k + 1
            continue
        op = rng.choice([o for o in ops if o != 'ss'])
        a, b = rng.choice(vs), rng.choice(vs)
        if shape == 'chain' and chain is not None and rng.random() < (0.8 if size < 100 else 0.99):
            a = chain
        if shape == 'fan' and rng.random() < 0.6:
            b = 0 if 0 in lv else a
        if rng.random() < 0.12 or op == 'not':
            b = a
        if rng.random() < 0.5:
            a, b = b, a
        v = new()
        lines.append([op, v, a, b])
        lv[v] = 1 + max(lv[a], lv[b])
        chain = v
        made += 1
    deep = max(lv.values())
    o = 0
    for v in sorted(lv):
        if lv[v] == deep or rng.random() < 0.1:
            lines.append(['out', o, v, 0])
            o += 1
    return lines


def pws(lines):
    s = ''
    for l in lines:
        if l[0] == 'in':
            s += 'P V%d = I%d E\n' % (l[1], l[2])
        elif l[0] == 'out':
            s += 'P O%d = V%d E\n' % (l[1], l[2])
        elif l[0] == 'const':
            s += 'P V%d = %d E\n' % (l[1], l[2])
        elif l[0] == 'pass':
            s += 'P V%d = V%d PASS V%d E\n' % (l[1], l[2], l[2])
        else:
            s += 'P V%d = V%d %s V%d E\n' % (l[1], l[2], SYM[l[0]], l[3])
    return s


def hexel(v):
    return '%x' % (v % P)


def parse_circuit(s):
    tok = list(map(int, s.split()))
    d, i = tok[0], 1
    layers = []
    while i < len(tok):
        n = tok[i]
        i += 1
        if n < 0 or i + 4 * n > len(tok):
            raise ValueError
        layers.append([tok[i + 4 * j:i + 4 * j + 4] for j in range(n)])
        i += 4 * n
    return d, layers


def make_cases(rng, tool, count):
    kind = TOOLS[tool][2]
    cases = []
    shapes = ['mix', 'chain', 'fan', 'ids', 'wide']
    for c in range(count):
        shape = shapes[c % len(shapes)]
        n = rng.choice([1, 2, 2, 3, 4, 4, 5, 7, 8])
        reps = rng.choice([1, 2, 2, 4, 4, 8]) if kind == 'parallel' else rng.choice([1, 2, 2, 3, 4, 5])
        size = rng.choice([1, 2, 3, 5, 8, 12]) if shape != 'wide' else rng.randrange(8, 24)
        if c % 25 == 7:
            shape = 'large'
            n, size, reps = rng.randrange(1, 80), rng.randrange(40, 160), rng.choice([1, 2, 4])
        elif c % 25 == 13:
            shape, n, size = 'chain', rng.randrange(1, 20), rng.randrange(30, 70)
        elif c % 25 == 19:
            reps = 32 if kind == 'parallel' else rng.randrange(9, 40)
        nfree = rng.choice([0, 0, 0, 1, 1, 2, 3])
        prog = rand_prog(rng, kind, tool, n, size, shape)
        rdl = rand_rdl(rng, n, reps, kind, nfree)
        cases.append({'id': '%s_%d' % (tool, c), 'tool': tool, 'reps': reps, 'prog': prog, 'rdl': rdl})
    # beyond round numbers: many inputs, deep, many uses of one value, many repetitions, large variable numbers
    for k, (n, size, reps, shape, step) in enumerate(HUGE):
        prog = rand_prog(rng, kind, tool, n, size, shape, step)
        cases.append({'id': '%s_huge%d' % (tool, k), 'tool': tool, 'reps': reps, 'prog': prog, 'rdl': rand_rdl(rng, n, reps, kind, 0)})
    return cases


# inputs, operations, repetitions, shape, distance of variable numbers
HUGE = [(280, 40, 2, 'mix', 1), (3, 160, 1, 'chain', 1), (2, 330, 1, 'fan', 1), (3, 6, 128, 'mix', 1), (4, 12, 4, 'mix', 70001), (2, 30, 2, 'chain', 1009),
        (40, 500, 2, 'mix', 1), (1, 140, 2, 'chain', 3), (70, 20, 16, 'fan', 2), (5, 900, 1, 'large', 1)]


def build(ctx, tools):
    jobs = []
    for t in tools:
        jobs.append((t + '.o', ['-O1', os.path.join(REPO, TOOLS[t][0])]))
    ctx.compile(jobs, [(t, [t + '.o'], []) for t in tools])


def translate(ctx, c):
    src, outf, kind, _ = TOOLS[c['tool']]
    wd = os.path.join(ctx.scratch, 'tr_' + c['id'])
    os.makedirs(wd, exist_ok=True)
    open(os.path.join(wd, 'p.pws'), 'w').write(pws(c['prog']))
    open(os.path.join(wd, 'r.pws'), 'w').write(pws(c['rdl']))
    argv = [ctx.exe(c['tool']), 'p.pws', 'r.pws'] + ([] if kind == 'parallel' else [str(c['reps'])])
    rec = {'id': c['id'], 'tool': kind, 'reps': c['reps'], 'prog': c['prog'], 'meta': [], 'l0': [], 'layers': [], 'declared': 0,
           'rdl': [[q[0], q[1], hexel(q[2]) if q[0] == 'const' else q[2]] for q in c['rdl']]}
    try:
        r = sh(argv, cwd=wd, timeout=60)
        if r.returncode:
            rec['status'] = 'aborted'
        else:
            rec['status'] = 'ok'
            rec['declared'], ls = parse_circuit(open(os.path.join(wd, outf)).read())
            rec['l0'] = [[g[0], g[1], hexel(g[2])] for g in ls[0]]
            rec['layers'] = ls[1:]
            if kind == 'parallel':
                rec['meta'] = [list(map(int, l.split())) for l in open(os.path.join(wd, 'meta_data_linear.txt'))]
                if any(len(m) != 5 for m in rec['meta']):
                    raise ValueError
            if any(abs(x) > 2 ** 31 - 1 for l in ls[1:] for g in l for x in g) or any(abs(x) > 2 ** 31 - 1 for m in rec['meta'] for x in m) or not ls[1:]:
                raise ValueError
    except subprocess.TimeoutExpired:
        rec['status'] = 'did not end'
    except (ValueError, IndexError, OSError):
        rec['status'] = 'wrote no readable circuit'
    shutil.rmtree(wd, ignore_errors=True)
    return rec


def run_tools(ctx, tools, count, chunk):
    build(ctx, tools)
    cases = []
    for t in tools:
        cases += make_cases(ctx.rng, t, count[t])
    with ThreadPoolExecutor(NCPU) as ex:
        recs = list(ex.map(lambda c: translate(ctx, c), cases))
    for r in recs:
        if r['status'] != 'ok':
            r['l0'], r['layers'], r['meta'] = [], [], []
    bad = ctx.traces('Translate', recs, {'trans', 'shape', 'value', 'layout'}, chunk=chunk)
    byid = {c['id']: c for c in cases}
    ctx.extra['programs'] = len(cases)
    ctx.extra['code_lines'] = sum(1 for c in cases for l in c['prog'] if l[0] not in ('in', 'out'))
    for c in cases[:3]:
        ctx.sample(pws(c['prog'])[:400])
    for i, m in bad.items():
        c = byid[i]
        ctx.violation(i, m, {'tool': TOOLS[c['tool']][0], 'program': pws(c['prog']), 'rdl': pws(c['rdl']), 'repetitions': c['reps']})


def model(ctx):
    ctx.model('TranslateModel', {'P': 3, 'N': 3 if THOROUGH else 2, 'K': 2 if THOROUGH else 3, 'Ops': '{"add", "mul", "xor", "naab", "minus", "not", "ss"}'}, ['Preserves', 'Shape'],
              'TranslateModel: all small programs, all inputs modulo 3')


def c18(ctx):
    model(ctx)
    n = 1500 if THOROUGH else 260
    run_tools(ctx, ['lanczos', 'sha'], {'lanczos': n, 'sha': n}, 400)


def c19(ctx):
    model(ctx)
    run_tools(ctx, ['parallel'], {'parallel': 2500 if THOROUGH else 400}, 400)


CHECKS = {'C18': c18, 'C19': c19}
