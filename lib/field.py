"""C06: field and polynomial arithmetic."""
from vlib import *

W64 = [0, 1, 2, 3, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, (1 << 64) - 2, 1 << 32, (1 << 32) - 1]
PL = [(P >> (64 * i)) & ((1 << 64) - 1) for i in range(8)]


def limbs(rng, n):
    x = 0
    for i in range(n):
        k = rng.random()
        w = rng.choice(W64) if k < 0.5 else (PL[i] + rng.choice([-1, 0, 1])) % (1 << 64) if k < 0.7 else rng.getrandbits(64)
        x |= w << (64 * i)
    return x


def elem(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, 1, 2, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2, 1 << 64, 1 << 128, 1 << 192, (1 << 64) - 1, (1 << 128) - 1, (1 << 192) - 1, (1 << 253) - 1, 1 << 252])
    if k < 0.25:
        return (1 << rng.randrange(254)) % P
    if k < 0.7:
        return limbs(rng, 4) % P
    if k < 0.8:
        return (P - limbs(rng, rng.randrange(1, 4))) % P
    return rng.randrange(P)


def pair(rng):
    a = elem(rng)
    k = rng.random()
    if k < 0.2:
        return a, (P - a + rng.choice([-2, -1, 0, 1, 2])) % P
    if k < 0.3:
        s = 64 * rng.randrange(1, 4)
        return a, ((1 << s) - a % (1 << s) + rng.choice([-1, 0, 1])) % P
    if k < 0.4:
        return a, (a ^ (1 << rng.randrange(254))) % P
    if k < 0.45:
        return a, a
    if k < 0.5:
        return a, (a + rng.choice([-1, 1])) % P
    return a, elem(rng)


def wide(rng, bound):
    k = rng.random()
    if k < 0.35:
        q = rng.choice([0, 1, 2, (1 << 254) - 1, 1 << 128, 1 << 192, 1 << 64, (1 << 64) - 1]) if rng.random() < 0.4 else limbs(rng, 4)
        x = q * P + rng.choice([0, 1, 2, P - 1, P - 2, -1, (1 << 64), (1 << 128) - 1])
    elif k < 0.6:
        x = limbs(rng, 8)
    elif k < 0.75:
        x = elem(rng) * elem(rng) + elem(rng) * elem(rng) + elem(rng)
    elif k < 0.85:
        x = bound - 1 - limbs(rng, rng.randrange(1, 7))
    elif k < 0.9:
        x = rng.choice([P, 2 * P, P - 1, P + 1, 2 * P - 1, P * P, (P - 1) * (P - 1), 2 * (P - 1) ** 2 + P - 1])
    else:
        x = rng.getrandbits(rng.randrange(1, 509))
    return x % bound


def gen(rng, n):
    ops = []
    h = lambda *a: ' '.join('%x' % v for v in a)
    for i in range(n):
        k = rng.random()
        if k < 0.14:
            ops.append('add ' + h(*pair(rng)))
        elif k < 0.28:
            ops.append('sub ' + h(*pair(rng)))
        elif k < 0.42:
            ops.append('mul ' + h(*pair(rng)))
        elif k < 0.48:
            ops.append('eq ' + h(*pair(rng)))
        elif k < 0.50:
            ops.append(rng.choice(['int', 'ull']) + ' ' + h(rng.choice([0, 1, 2, 2147483647, rng.getrandbits(31), rng.getrandbits(31), rng.getrandbits(16)])))
            ops.append('neg ' + h(rng.choice([1, 2, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 32, 1 << 63, (1 << 63) - 1, 1 + rng.getrandbits(31), 1 + rng.getrandbits(62)])))
            ops.append('ull ' + h(rng.choice([(1 << 64) - 1, 1 << 63, rng.getrandbits(64), 1 << 32])))
        elif k < 0.54:
            ops.append('nomod ' + h(*pair(rng)))
        elif k < 0.68:
            ops.append('mod ' + h(wide(rng, 1 << 508)))
        elif k < 0.72:
            a, b = limbs(rng, 8), limbs(rng, 8)
            if rng.random() < 0.4:
                b = ((1 << (64 * rng.randrange(1, 9))) - a % (1 << 256) + rng.choice([-1, 0, 1])) % (1 << 512)
            ops.append(rng.choice(['wadd ', 'wsub ']) + h(a, b))
        elif k < 0.78:
            a = limbs(rng, 8)
            b = a ^ (1 << rng.randrange(512)) if rng.random() < 0.6 else rng.choice([a, limbs(rng, 8), (a + 1) % (1 << 512)])
            if rng.random() < 0.3:      # one word larger, a lower one smaller
                i1, i2 = sorted(rng.sample(range(8), 2))
                b = a ^ (1 << (64 * i1 + rng.randrange(64))) ^ (1 << (64 * i2 + rng.randrange(64)))
            ops.append('cmp ' + h(a, b))
        elif k < 0.81:
            ops.append('bits ' + h(elem(rng)))
        elif k < 0.83:
            ops.append('len ' + h(max(1, elem(rng))))
        elif k < 0.85:
            ops.append('random ' + h(*[rng.choice([0, 1, 0x7fffffff, rng.getrandbits(31)]) for _ in range(3)]))
        elif k < 0.90:
            ops.append('padd ' + h(*[elem(rng) for _ in range(2 * rng.randrange(2, 7))]))
        elif k < 0.93:
            ops.append('pmul11 ' + h(*[elem(rng) for _ in range(4)]))
        elif k < 0.95:
            ops.append('pmul21 ' + h(*[elem(rng) for _ in range(5)]))
        elif k < 0.99:
            ops.append('peval ' + h(*[elem(rng) for _ in range(rng.randrange(3, 8))]))
        else:
            ops.append('pconst ' + h(elem(rng)))
    # every single-bit difference, every power of two
    for b in range(254):
        a = elem(rng)
        ops.append('eq ' + h(a, (a ^ (1 << b)) % P))
        ops.append('sub ' + h((1 << b) % P, 1))
        ops.append('add ' + h((1 << b) - 1 if (1 << b) - 1 < P else 0, 1))
        ops.append('mul ' + h((1 << b) % P, P - 1))
    for b in range(508):
        ops.append('mod ' + h(1 << b))
        ops.append('mod ' + h((1 << b) - 1 + (1 << b)))
    for b in range(512):
        ops.append('cmp ' + h(1 << b, 0))
        ops.append('cmp ' + h((1 << b) - 1, 1 << b))
    return ops


def c06(ctx):
    ctx.compile([('pf.o', ['-O2', REPO + '/src/linear_gkr/prime_field.cpp']), ('po.o', ['-O2', REPO + '/src/linear_gkr/polynomial.cpp']), ('h.o', ['-O2', 'field.cpp']),
                 ('pf3.o', ['-O3', REPO + '/src/linear_gkr/prime_field.cpp']), ('po3.o', ['-O3', REPO + '/src/linear_gkr/polynomial.cpp'])],
                [('field', ['h.o', 'pf.o', 'po.o'], ['-lgmp', '-lgmpxx']), ('field3', ['h.o', 'pf3.o', 'po3.o'], ['-lgmp', '-lgmpxx'])])
    rc, out, to = ctx.tlc('FieldCheck', 'CONSTANT P = 97\nINIT Init\nNEXT Next\nINVARIANT Agree\n', props=['-Dfield.p=97'])
    if rc or 'No error' not in out:
        raise CheckError('FieldCheck: ' + out[-2000:])
    ctx.models.append('FieldCheck: the two interpretations of Field agree for all pairs modulo 97')
    ctx.model('Limb', {'W': 1, 'Mods': '{3}'}, ['AddOk', 'SubOk', 'GeqOk', 'BarrettOk', 'FieldOk'], 'Limb words of 1 bit, all pairs')
    ctx.model('LimbB', {'W': 2, 'Mods': '{%s}' % ', '.join(map(str, range(33, 64, 2)))}, ['BarrettOk', 'EdgesOk', 'FieldAllOk'], 'Limb words of 2 bits: every value below 2^12 against every odd modulus of 6 bits', init='InitB', next_='NextB')
    n = 600000 if THOROUGH else 90000
    ops = gen(ctx.rng, n)
    ctx.rng.shuffle(ops)
    recs = []
    for tag, exe in (('O2', 'field'), ('O3', 'field3')):
        part = ops if tag == 'O3' else ops[:max(2000, len(ops) // 8)]
        recs += execute(ctx, exe, part, tag)
    bad = ctx.traces('FieldTrace', recs, {'field'}, consts='CONSTANTS P = 97\n B = 512\n', chunk=1200)
    ctx.extra['operations'] = sum(len(r['ops']) for r in recs)
    byid = {r['id']: r for r in recs}
    for o in (recs[0]['ops'][:4] if recs else []):
        ctx.sample(o)
    for i, m in bad.items():
        ctx.violation(i, m, byid[i]['ops'][:200])


def execute(ctx, exe, ops, tag):
    p, o = os.path.join(ctx.scratch, 'ops_' + tag), os.path.join(ctx.scratch, 'res_' + tag)
    open(p, 'w').write('\n'.join(ops) + '\n')
    r = sh([ctx.exe(exe), p, o], timeout=300)
    lines = []
    for l in open(o, errors='replace'):
        try:
            lines.append(json.loads(l))
        except ValueError:
            ctx.violation('%s_text' % tag, ['field: result of %s is no number: %r' % (ops[len(lines)], l[:120])], ops[len(lines):len(lines) + 1])
            return []
    recs = [{'id': '%s_%d' % (tag, i), 'ops': lines[i:i + 100]} for i in range(0, len(lines), 100)]
    if r.returncode != 0:
        if r.returncode > 0:
            raise CheckError('field harness: ' + r.stderr.decode()[-300:])
        ctx.violation('%s_crash' % tag, ['field: operation aborted: ' + ops[len(lines)]], ops[max(0, len(lines) - 3):len(lines) + 1])
    return recs


CHECKS = {'C06': c06}
