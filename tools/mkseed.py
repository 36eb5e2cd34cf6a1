#!/usr/bin/env python3
"""mkseed.py ID FILE  -- reads OLD and NEW text blocks from stdin separated by a line '====';
several edits separated by '####'.  Writes seeded/ID/patch.diff (against /repo HEAD)."""
import sys, subprocess, os
sid = sys.argv[1]
W = '/tmp/sw/repo'
subprocess.check_call(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', 'FETCH_HEAD'])
for ed in sys.stdin.read().split('\n####\n'):
    head, body = ed.split('\n', 1)
    fn = head.strip()
    old, new = body.rstrip('\n').split('\n====\n') if '\n====\n' in body else (body.rstrip('\n').split('\n====')[0], '')
    p = os.path.join(W, fn)
    s = open(p, newline='').read()
    crlf = '\r\n' in s
    if crlf:
        o, n = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(o) != 1: o, n = old, new
    else: o, n = old, new
    if s.count(o) != 1: sys.exit('%s: %d matches in %s for\n%s' % (sid, s.count(o), fn, old))
    open(p, 'w', newline='').write(s.replace(o, n))
d = os.path.join(os.environ.get('SEEDDIR', '/verif/seeded'), sid); os.makedirs(d, exist_ok=True)
out = subprocess.check_output(['git', '-C', W, 'diff', '--binary'])
open(os.path.join(d, 'patch.diff'), 'wb').write(out)
print(out.decode(errors='replace'))
