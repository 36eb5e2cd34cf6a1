"""Shared machinery of the checks: build harnesses from /repo, run them on
plans of cases, hand the recorded runs to TLC, report."""
import zlib, os, sys, json, re, subprocess, time, tempfile, shutil, random, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')   # override for development only
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
CXX = ['clang++', '-march=native', '-std=c++11', '-w', '-I' + REPO + '/include']
P = 16798108731015832284940804142231733909759579603404752749028378864165570215949
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.states = self.transitions = self.ntraces = 0
        self.samples = []
        self.found = []          # (id, messages, replay payload)
        self.models = []
        self.extra = {}
        self.notes = []
        self.rng = random.Random(SEED * 1000003 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16))
        self.build_dir = os.path.join(self.scratch, 'bin')
        os.makedirs(self.build_dir)

    # -- building -----------------------------------------------------------
    def compile(self, jobs, links):
        """jobs: list of (obj, argv-tail); links: list of (exe, objs, libs)."""
        def one(j):
            obj, tail = j
            for cxx in (CXX, [a.replace('c++11', 'gnu++17') for a in CXX]):   # the build's own standard first
                r = sh(cxx + tail + ['-c', '-o', os.path.join(self.build_dir, obj)], cwd=os.path.join(VERIF, 'harness'))
                if not r.returncode:
                    break
            if r.returncode:
                raise CheckError('cannot build %s:\n%s' % (obj, r.stderr.decode(errors='replace')[-3000:]))
        def ln(l):
            exe, objs, libs = l
            r = sh(['clang++'] + [os.path.join(self.build_dir, o) for o in objs] + libs + ['-o', os.path.join(self.build_dir, exe)])
            if r.returncode:
                raise CheckError('cannot link %s:\n%s' % (exe, r.stderr.decode(errors='replace')[-3000:]))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs))
            list(ex.map(ln, links))

    def exe(self, name):
        return os.path.join(self.build_dir, name)

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, java=True, timeout=800, props=(), heap=None, workers=NCPU):
        cfgp = os.path.join(self.scratch, 'm%d.cfg' % len(os.listdir(self.scratch)))
        with open(cfgp, 'w') as f:
            f.write(cfg)
        md = tempfile.mkdtemp(dir=self.scratch)
        # TLC writes trace files beside the module: run on a copy
        sd = os.path.join(md, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), sd)
        cp = (java_classes() + ':' if java else '') + JARS
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m'] + (['-Xmx' + heap] if heap else []) + list(props) + ['-Djava.io.tmpdir=' + md,
            '-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(md, 'md'), '-config', cfgp, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, cwd=sd, env=e, timeout=timeout)
            out, to = r.stdout.decode(errors='replace') + r.stderr.decode(errors='replace'), False
            rc = r.returncode
        except subprocess.TimeoutExpired as x:
            out, to, rc = (x.stdout or b'').decode(errors='replace'), True, -1
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states', out)
        if m:
            self.transitions += int(m[-1][0].replace(',', ''))
            self.states += int(m[-1][1].replace(',', ''))
        return rc, out, to

    def model(self, module, consts, invariants, what, timeout=800, optional=False, init='Init', next_='Next', props=()):
        """Exhaustive model checking of a specification over small constants."""
        cfg = ('CONSTANTS\n' + ''.join(' %s = %s\n' % (k, v) for k, v in consts.items()) if consts else '') + \
            'INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n' % (init, next_) + \
            ('INVARIANTS ' + ' '.join(invariants) + '\n' if invariants else '')
        s0 = self.states
        rc, out, to = self.tlc(module, cfg, java=False, timeout=timeout, props=props)
        if to:
            if not optional:
                raise CheckError('model %s timed out' % what)
            self.models.append('%s: explored for %d s, no violation, not exhausted' % (what, timeout))
            if 'is violated' in out:
                raise CheckError('specification %s violates its own invariant:\n%s' % (what, out[-3000:]))
            return
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('specification check %s failed:\n%s' % (what, out[-4000:]))
        self.models.append('%s: exhausted, %d distinct states' % (what, self.states - s0))

    def traces(self, module, recs, cats, consts='CONSTANT P = 97\n', chunk=400):
        """Validate recorded runs; returns {id: [messages]} restricted to cats."""
        if not recs:
            return {}
        bad, seen = {}, {}
        for lo in range(0, len(recs), chunk):
            part = recs[lo:lo + chunk]
            p = os.path.join(self.scratch, 'traces_%s_%d.ndjson' % (module, lo))
            with open(p, 'w') as f:
                for r in part:
                    f.write(json.dumps(r) + '\n')
            rc, out, to = self.tlc(module, consts + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', env={'TRACES': p})
            flat = re.sub(r'\s*\n\s+', ' ', out)
            for m in re.finditer(r'<<\s*"RES", "([^"]*)", (<<.*?>>), (TRUE|FALSE)\s*>>', flat):
                msgs = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))
                seen[m.group(1)] = m.group(3) == 'TRUE'
                k = [x for x in msgs if x.split(':')[0] in cats]
                if k:
                    bad[m.group(1)] = k
            missing = [r['id'] for r in part if r['id'] not in seen]
            if not to and rc != 0 and missing and not self.strict:
                self.undecided(module, [r for r in part if r['id'] in missing], cats, consts, seen, bad)
            elif to or rc != 0 or missing:
                raise CheckError('TLC did not decide %d traces (%s) of %s: rc=%s timeout=%s\n%s' % (len(missing), missing[:3], module, rc, to, out[-3500:]))
        self.ntraces += len(recs)
        self.last_good = seen
        return bad

    strict = False

    def undecided(self, module, recs, cats, consts, seen, bad):
        """TLC stopped with an error: find the runs the specification cannot
        even interpret (values outside their type, impossible events)."""
        def ok(part):
            p = os.path.join(self.scratch, 'undecided.ndjson')
            with open(p, 'w') as f:
                for r in part:
                    f.write(json.dumps(r) + '\n')
            rc, out, to = self.tlc(module, consts + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', env={'TRACES': p})
            flat = re.sub(r'\s*\n\s+', ' ', out)
            if to:
                raise CheckError('TLC timed out on %s' % module)
            if rc:
                return out
            for m in re.finditer(r'<<\s*"RES", "([^"]*)", (<<.*?>>), (TRUE|FALSE)\s*>>', flat):
                msgs = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))
                seen[m.group(1)] = m.group(3) == 'TRUE'
                k = [x for x in msgs if x.split(':')[0] in cats]
                if k:
                    bad[m.group(1)] = k
            left = [r['id'] for r in part if r['id'] not in seen]
            if left:
                raise CheckError('TLC did not decide %s of %s' % (left[:3], module))
            return None
        work, odd = [recs], 0
        while work and odd < 3:
            part = work.pop()
            err = ok(part)
            if err is None:
                continue
            if len(part) > 1:
                h = len(part) // 2
                work += [part[:h], part[h:]]
                continue
            e = re.search(r'Error: ([^\n]*(?:\n(?!\n)[^\n]*){0,2})', err)
            if ok(part) is not None:
                odd += 1
                bad[part[0]['id']] = [sorted(cats)[0] + ': the run makes no sense to the specification (%s)' % (e.group(1).replace('\n', ' ')[:160] if e else '?')]
                seen[part[0]['id']] = False

    # -- reporting ----------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, ident, msgs, payload):
        self.found.append((ident, msgs, payload))

    def finish(self, level='model_checking', assumptions=(), known=()):
        known_lines = []
        viol = []
        for ident, msgs, payload in self.found:
            viol.append((ident, msgs, payload))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.ntraces,
               'samples': self.samples or ['(none)'], 'models': self.models}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': level,
              'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(viol)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if viol:
            rd = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + '.json')
            with open(rp, 'w') as f:
                json.dump([{'case': i, 'deviations': m, 'input': p} for i, m, p in viol[:20]], f, indent=1)
            for i, m, _ in viol[:8]:
                print('  %s: %s' % (i, '; '.join(m)))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        else:
            print('%s: held on everything explored (%d recorded runs, %d model states, %.0f s)' %
                  (self.prop, self.ntraces, self.states, time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if viol else 0


_jc = None


def java_classes():
    global _jc
    if _jc is None:
        d = os.path.join(VERIF, 'build', 'java')
        srcs = [os.path.join(VERIF, 'java', f) for f in os.listdir(os.path.join(VERIF, 'java')) if f.endswith('.java')]
        newest = max(os.path.getmtime(s) for s in srcs)
        cls = [os.path.join(d, os.path.basename(s)[:-5] + '.class') for s in srcs]
        if not all(os.path.exists(c) and os.path.getmtime(c) >= newest for c in cls):
            os.makedirs(d, exist_ok=True)
            r = sh(['javac', '-nowarn', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', d] + srcs)
            if r.returncode:
                raise CheckError('javac: ' + r.stderr.decode()[-2000:])
        _jc = d
    return _jc


def run_plan(ctx, exe, cases, tag, timeout=700, jobs=NCPU):
    """cases: list of dicts with id, ops (list of strings), text (file contents)
    and optionally files {name: text}.  Returns {id: record}."""
    n = max(1, min(jobs, len(cases)))
    parts = [cases[i::n] for i in range(n)]
    res = {}

    def go(ip):
        i, part = ip
        wd = os.path.join(ctx.scratch, '%s_%d' % (tag, i))
        os.makedirs(wd, exist_ok=True)
        with open(os.path.join(wd, 'plan'), 'w', newline='') as f:
            for c in part:
                f.write('case %s\n' % c['id'])
                for o in c['ops'] + ['perturb 165'] * (zlib.crc32(c['id'].encode()) & 1):
                    f.write(o + '\n')
                for nm, tx in c.get('files', {}).items():
                    f.write('aux %s %d\n%s\n' % (nm, len(tx.encode()), tx))
                f.write('file %d\n%s\n' % (len(c['text'].encode()), c['text']))
        try:
            r = sh([ctx.exe(exe), 'plan', 'out.ndjson'], cwd=wd, timeout=timeout)
            if r.returncode:
                raise CheckError('harness %s exited with %d: %s' % (exe, r.returncode, r.stderr.decode(errors='replace')[-500:]))
        except subprocess.TimeoutExpired:
            raise CheckError('harness %s timed out' % exe)
        out = {}
        for line in open(os.path.join(wd, 'out.ndjson')):
            d = json.loads(line)
            out[d['id']] = d
        shutil.rmtree(wd, ignore_errors=True)
        return out
    with ThreadPoolExecutor(n) as ex:
        for o in ex.map(go, list(enumerate(parts))):
            res.update(o)
    return res


# ---- circuits --------------------------------------------------------------
ADD, MUL, DUMMY, INPUT, SUM, NOT, MINUS, XOR, NAAB, RELAY, EXPSUM, BITTEST = 0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13
LIN_TYPES = [ADD, MUL, DUMMY, SUM, NOT, MINUS, XOR, NAAB, RELAY]
TRAD_TYPES = [ADD, MUL, DUMMY]
ZK_TYPES = LIN_TYPES + [EXPSUM, BITTEST]


def text(layers, style=0, rng=None):
    out = [str(len(layers))]
    for l in layers:
        out.append('\n')
        out.append(str(len(l)))
        for g in l:
            if style == 1:
                out.append('\n')
            out.append(' '.join(map(str, g)))
    if style == 0 or style == 1:
        s = ''
        for x in out:
            s += x if x == '\n' or s == '' or s.endswith('\n') else ' ' + x
        return s + '\n'
    toks = ' '.join(x for x in out if x != '\n').split()
    seps = ['\n', '\r\n', '\t', '  ', ' \n\n ', ' ', '\t\r\n', '\n   ']
    s = rng.choice(['', '\n', '  ', '\t'])
    for t in toks:
        s += t + rng.choice(seps)
    return s if rng.random() < 0.7 else s.rstrip()


def inputs_as_text(layers):
    """input values may exceed TLC's integers: decimal strings in traces"""
    return [[[INPUT, g[1], str(g[2]), g[3]] if g[0] == INPUT else g for g in l] for l in layers]


WIDE_INPUTS = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 34) + 5, (1 << 63) - 1, -1, -2, -(1 << 31), -(1 << 31) - 1, -(1 << 36) + 7, -(1 << 63)]


def rand_input(rng, n, typ=None):
    pool = [0, 1, 2, 3, 2147483647, 2147483646, 65536] + (WIDE_INPUTS if rng.random() < 0.5 else [])
    out = []
    for g in range(n):
        if typ != 'all3' and n > 1 and rng.random() < 0.12:
            out.append([DUMMY, g, 0, 0])
        else:
            out.append([INPUT, g, rng.choice(pool) if rng.random() < 0.45 else rng.randrange(1 << 31), 0])
    return out


def rand_gate(rng, g, w, types):
    t = rng.choice(types)
    u, v = rng.randrange(w), rng.randrange(w)
    if t == DUMMY:          # the operands of a dummy gate mean nothing
        return [t, g, 0, 0] if rng.random() < 0.5 else [t, g, u, v]
    if t in (NOT, RELAY):
        return [t, g, u, 0]
    if t == SUM:
        a, b = sorted((rng.randrange(w + 1), rng.randrange(w + 1)))
        a = min(a, w - 1)
        return [t, g, a, max(b, 0)]
    if t == EXPSUM:
        a, b = sorted((u, v))
        return [t, g, a, b]
    if t == BITTEST:
        return [t, g, u, u]
    return [t, g, u, v]


def rand_circuit(rng, widths, types, typ=None):
    ls = [rand_input(rng, widths[0], typ)]
    for i in range(1, len(widths)):
        w = max(2, widths[i - 1])
        # a one-gate layer is padded with a dummy; its value is zero and may be read
        ls.append([rand_gate(rng, g, w, types) for g in range(widths[i])])
    return ls


def one_gate_circuits(types, w=4):
    """every gate type with every operand pair of a width-w layer"""
    gs = []
    for t in types:
        if t == DUMMY:
            gs.append((t, 0, 0))
        elif t in (NOT, RELAY):
            gs += [(t, u, 0) for u in range(w)]
        elif t == SUM:
            gs += [(t, u, v) for u in range(w) for v in range(u, w + 1)]
        elif t == EXPSUM:
            gs += [(t, u, v) for u in range(w) for v in range(u, w)]
        elif t == BITTEST:
            gs += [(t, u, u) for u in range(w)]
        else:
            gs += [(t, u, v) for u in range(w) for v in range(w)]
    return gs
