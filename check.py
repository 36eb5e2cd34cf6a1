#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib

MODULES = ['gkr', 'field', 'trans', 'gen', 'zk', 'sha']


def known(prop):
    out = []
    p = os.path.join(vlib.VERIF, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('known: property=%s ' % prop):
            out.append(l.split(' ', 2)[2])
    return out


def main():
    prop = sys.argv[1]
    fn = None
    for m in MODULES:
        mod = importlib.import_module(m)
        fn = mod.CHECKS.get(prop, fn)
    ctx = vlib.Ctx(prop)
    try:
        fn(ctx)
    except vlib.CheckError as e:
        print('ERROR: %s' % e)
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish(known=known(prop))


if __name__ == '__main__':
    sys.exit(main())
