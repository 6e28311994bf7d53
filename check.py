#!/usr/bin/env python3
"""Runs the check of one property: check.py C04 [--replay FILE]."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from common import Ctx, Violation, CheckError
import importlib

MODULES = {
    'C01': 'recon', 'C02': 'recon', 'C03': 'recon',
    'C04': 'indexes', 'C05': 'indexes', 'C06': 'indexes', 'C07': 'indexes', 'C08': 'indexes',
    'C09': 'trees', 'C10': 'trees', 'C11': 'trees', 'C12': 'trees', 'C13': 'trees',
    'C14': 'inputs', 'C15': 'mounts', 'C16': 'mounts', 'C17': 'mounts',
    'C18': 'identifies', 'C19': 'identifies', 'C20': 'identifies',
    'C21': 'damages', 'C22': 'indexes', 'C23': 'faults', 'C24': 'commands',
}


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        mod = importlib.import_module(MODULES[prop])
        getattr(mod, 'check_' + prop)(ctx)
        ctx.evidence()
        ctx.log('held on everything explored')
        return 0
    except Violation as v:
        path = ctx.replay(v)
        ctx.evidence(violations=1)
        print('violation: %s' % v.what)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    except CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            ctx.cleanup()


sys.exit(main())
