"""Helpers of the demonstrations of planted bugs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import collections
from sim import World, USERS, Inconclusive
def cmd_of(e):
    a = e.get('argv') or []
    return a[2] if len(a) > 2 else ''
def name_of(e):
    c = cmd_of(e)
    return c.split()[0] if c else ''
def starts(run, key='r'):
    d = collections.defaultdict(list)
    for e in run.events:
        if e['ev'] == 'exec':
            d[name_of(e)].append(e[key])
    return d
def check(ok, *msg):
    if not ok:
        print('BROKEN:', *msg)
        sys.exit(1)
def setup(ok, *msg):
    if not ok:
        print('demonstration failed to run:', *msg)
        sys.exit(2)
def ended_well(run):
    check(not run.san, run.san[:1])
    check(run.rc == 0, 'exit', run.rc, run.err[-500:])
