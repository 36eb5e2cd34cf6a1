"""C17: the circuit generator bin/gen.cpp."""
from vlib import *
from trans import parse_circuit


def generate(ctx, c):
    wd = os.path.join(ctx.scratch, 'gen_' + c['id'])
    os.makedirs(wd, exist_ok=True)
    rec = {'id': c['id'], 'mode': c['mode'], 'd': c.get('d', 0), 'w': c.get('w', 0), 'n': c.get('n', 0), 'points': [],
           'layers': [], 'declared': 0, 'meta': [], 'chars': [], 'status': 'ok'}
    args = [c['n']] if 'n' in c else [c['d'], c['w']]
    try:
        r = sh([ctx.exe('gen'), str(c['mode'])] + [str(a) for a in args], cwd=wd, timeout=120)
        if r.returncode:
            rec['status'] = 'aborted'
        else:
            s = r.stdout.decode()
            rec['declared'], rec['layers'] = parse_circuit(s)
            if not rec['layers'] or any(abs(x) > 2 ** 31 - 1 for l in rec['layers'] for g in l for x in g):
                raise ValueError
            if c['mode'] in (1, 2):
                rec['meta'] = [list(map(int, l.split())) for l in open(os.path.join(wd, 'meta_data.txt'))]
                if any(len(m) != 5 for m in rec['meta']):
                    raise ValueError
                rec['chars'] = [len(l) + 1 for l in s.split('\n')[1:1 + len(rec['layers'])]]
                if len(rec['chars']) != len(rec['layers']):
                    raise ValueError
            if c['mode'] in (2, 4):
                n = c['n']
                for _ in range(c['points']):
                    rec['points'].append([['%x' % ctx.rng.randrange(P) for _ in range(n * n)] for _ in range(2)])
    except subprocess.TimeoutExpired:
        rec['status'] = 'did not end'
    except (ValueError, IndexError, OSError, UnicodeDecodeError):
        rec['status'] = 'wrote no readable circuit'
    if rec['status'] != 'ok':
        rec.update(layers=[], meta=[], chars=[])
    shutil.rmtree(wd, ignore_errors=True)
    return rec


def c17(ctx):
    ctx.compile([('gen.o', ['-O1', REPO + '/bin/gen.cpp'])], [('gen', ['gen.o'], [])])
    cases = []
    for n in [1, 2, 4, 8, 16, 32, 64]:
        cases.append({'mode': 2, 'n': n})
    for n in [1, 2, 4, 8, 16, 32, 64] + ([128] if THOROUGH else []):
        cases.append({'mode': 4, 'n': n})
    top = 13 if THOROUGH else 11
    for d in [2, 3, 4, 5, 8, 17, 40]:
        for w in range(1, top):
            if d * (1 << w) <= (1 << 14):
                cases.append({'mode': 0, 'd': d, 'w': w})
                if w > 5:
                    cases.append({'mode': 1, 'd': d, 'w': w})
    for w in range(1, 6):
        cases.append({'mode': 5, 'd': 2, 'w': w})
    for c in cases:
        c['id'] = 'mode%d_%s' % (c['mode'], c['n'] if 'n' in c else '%d_%d' % (c['d'], c['w']))
        c['points'] = 2 if c.get('n', 0) <= 16 else 1
    recs = [generate(ctx, c) for c in cases]
    ctx.extra['gates'] = sum(len(l) for r in recs for l in r['layers'])
    bad = ctx.traces('Generated', recs, {'gen', 'shape', 'value', 'layout'})
    for c in cases[:4]:
        ctx.sample(c)
    byid = {c['id']: c for c in cases}
    for i, m in bad.items():
        ctx.violation(i, m, byid[i])


CHECKS = {'C17': c17}
