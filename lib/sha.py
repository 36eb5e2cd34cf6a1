"""C21: the SHA-256 / Merkle tree generator bin/sha256gen_merkle.py."""
import hashlib
import re
from vlib import *

LINE = re.compile(r'^P V(\d+) = V(\d+) (\+|\*|XOR|NAAB|minus|NOT|SS|PASS) V(\d+) E$')
INPUT = re.compile(r'^P V(\d+) = I(\d+) E$')
CONST = re.compile(r'^P V(\d+) = (-?\d+) E$')
OUTPUT = re.compile(r'^P O(\d+) = V(\d+) E$')
NAMES = {'+': 'add', '*': 'mul', 'XOR': 'xor', 'NAAB': 'naab', 'minus': 'minus', 'NOT': 'not', 'SS': 'ss', 'PASS': 'pass'}


def read_program(text):
    """The program as layers of lines over <<layer, position>> references."""
    where, layers, outs, inputs = {}, {}, [], []
    for l in text.splitlines():
        m = INPUT.match(l)
        if m:
            if int(m.group(2)) != len(inputs) or int(m.group(1)) in where:
                raise ValueError(l)
            inputs.append(int(m.group(1)))
            where[int(m.group(1))] = (1, len(inputs))
            continue
        m = OUTPUT.match(l)
        if m:
            outs.append(list(where[int(m.group(2))]))
            continue
        m = LINE.match(l)
        if not m:
            raise ValueError(l)
        t, a, op, b = int(m.group(1)), int(m.group(2)), NAMES[m.group(3)], int(m.group(4))
        if t in where:
            raise ValueError(l)
        refs = [where[i] for i in (range(a, b + 1) if op == 'ss' else [a] if op in ('not', 'pass') else [a, b])]
        lay = 1 + max(r[0] for r in refs)
        layers.setdefault(lay, []).append([op] + [list(r) for r in refs])
        where[t] = (lay, len(layers[lay]))
    n = max(layers)
    return len(inputs), [layers[i] for i in range(2, n + 1)], outs


def read_rdl(text):
    src, out, top = {}, [], 0
    for l in text.splitlines():
        m = INPUT.match(l)
        if m:
            if int(m.group(1)) in src:
                raise ValueError(l)
            src[int(m.group(1))] = int(m.group(2))
            top = max(top, int(m.group(2)) + 1)
            continue
        m = CONST.match(l)
        if m:
            c = int(m.group(2))
            src[int(m.group(1))] = -100 if c == 0 else -1 - (c.bit_length() - 1) if c > 0 and c & (c - 1) == 0 else -99
            continue
        m = OUTPUT.match(l)
        if m:
            out.append((int(m.group(1)), src[int(m.group(2))]))
            continue
        m = LINE.match(l)
        if not m or m.group(3) != 'PASS' or int(m.group(1)) in src:
            raise ValueError(l)
        src[int(m.group(1))] = src[int(m.group(2))]
    # outputs are numbered upwards from any base: order decides the repetition
    if [o for o, _ in out] != sorted(set(o for o, _ in out)):
        raise ValueError('outputs out of order')
    return [s for _, s in out], top


def bits(x, n=32):
    return [x >> i & 1 for i in range(n)]


H0 = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]


def message(rng, kind):
    """16 words and a chaining value; the digest where hashlib can tell it."""
    if kind == 'text':
        m = bytes(rng.randrange(256) for _ in range(rng.randrange(56)))
        blk = m + b'\x80' + bytes(55 - len(m)) + (8 * len(m)).to_bytes(8, 'big')
        d = hashlib.sha256(m).digest()
        return {'m': [bits(int.from_bytes(blk[4 * i:4 * i + 4], 'big')) for i in range(16)], 'h': [bits(x) for x in H0],
                'digest': [bits(int.from_bytes(d[4 * i:4 * i + 4], 'big')) for i in range(8)]}
    w = (lambda: 2 ** 32 - 1) if kind == 'ones' else (lambda: 0) if kind == 'zeros' else (lambda: rng.randrange(2 ** 32))
    return {'m': [bits(w()) for _ in range(16)], 'h': [bits(w() if kind == 'free' else x) for x in H0], 'digest': []}


def generate(ctx, c):
    wd = os.path.join(ctx.scratch, 'sha_' + c['id'])
    os.makedirs(wd, exist_ok=True)
    rec = {'id': c['id'], 'kind': c['kind'], 'status': 'ok', 'nin': 0, 'layers': [], 'outs': [], 'points': [], 'msgs': [],
           'm': c.get('m', 1), 'src': [], 'declared': 0, 'padded': '-P' not in c['args']}
    try:
        r = sh(['jython', REPO + '/bin/sha256gen_merkle.py'] + c['args'], cwd=wd, timeout=120)
        if r.returncode:
            rec['status'] = 'aborted'
        elif c['kind'] == 'prog':
            rec['nin'], rec['layers'], rec['outs'] = read_program(open(wd + '/SHA256_64.pws').read())
            rec['points'] = [['0'] + ['%x' % ctx.rng.randrange(P) for _ in range(rec['nin'] - 1)] for _ in range(c['points'])]
            rec['msgs'] = [message(ctx.rng, k) for k in c['msgs']]
        else:
            rec['src'], rec['declared'] = read_rdl(open(wd + '/SHA256_64_merkle_%d_rdl.pws' % c['m']).read())
    except subprocess.TimeoutExpired:
        rec['status'] = 'did not end'
    except (ValueError, KeyError, IndexError, OSError, UnicodeDecodeError):
        rec['status'] = 'wrote no readable program'
    shutil.rmtree(wd, ignore_errors=True)
    return rec


def c21(ctx):
    ctx.model('SHAModel', {'P': 67, 'Rounds_': 6 if THOROUGH else 5, 'Ks': '{0, 1, 2, 3}', 'Hs': '{0, 1, 2, 3}' if THOROUGH else '{0, 1, 3}'},
              ['InitialForced', 'Sound', 'Whole', 'Complete'], 'SHAModel: words of 2 bits, every message, first word any element of the field of 67')
    cases = [{'id': 'block%d' % i, 'kind': 'prog', 'args': [], 'points': 1, 'msgs': ['text', 'text', k]}
             for i, k in enumerate(['ones', 'zeros', 'free', 'free'][:4 if THOROUGH else 3])]
    opts = ([], ['-P'], ['-R', '-P', '-C'])
    for m in range(1, 7):
        for o in opts if THOROUGH or m < 3 else [opts[m % 3]]:
            cases.append({'id': 'tree%d%s' % (m, ''.join(o)), 'kind': 'wire', 'm': m, 'args': o + ['-m', str(m)]})
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        recs = list(ex.map(lambda c: generate(ctx, c), cases))
    ctx.extra['lines'] = sum(len(l) for r in recs for l in r['layers'])
    ctx.extra['wires'] = sum(len(r['src']) for r in recs)
    bad = ctx.traces('SHATrace', recs, {'gen', 'shape', 'constraints', 'honest', 'wire', 'public', 'spec'}, chunk=4)
    for c in cases[:5]:
        ctx.sample(c)
    byid = {c['id']: c for c in cases}
    for i, m in bad.items():
        if any(x.startswith('spec') for x in m):
            raise CheckError('SHA256.tla differs from the library: %s' % m)
        ctx.violation(i, m, byid[i])


CHECKS = {'C21': c21}
