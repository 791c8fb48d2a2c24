"""Small helpers shared by the checks."""
import collections
from sim import World, Run, USERS, Inconclusive
from runner import Out, rng
import sched

def cmd_of(e):
    a = e.get('argv') or []
    return a[2] if len(a) > 2 else ''

def name_of(e):
    """first word of the command: the unique job name"""
    c = cmd_of(e)
    return c.split()[0] if c else ''

def execs(run, key='r'):
    d = collections.defaultdict(list)
    for e in run.events:
        if e['ev'] == 'exec':
            d[name_of(e)].append(e[key])
    return d

def iso(t, tz='UTC'):
    import time
    sched.set_tz(tz)
    return time.strftime('%Y-%m-%d %H:%M:%S', time.localtime(t)) + ('%.3f' % (t % 1))[1:]

# ---- reader of the compiled fcrontabs in the spool (fields of type, size, data)
FIELDS = {2001: 'shell', 2002: 'numexe', 2003: 'lavg', 2004: 'until', 2005: 'nice', 2006: 'runas', 2007: 'mailto',
          2008: 'nextexe', 2009: 'remain', 2010: 'timefreq', 2011: 'runfreq', 2012: 'mins', 2013: 'hrs', 2014: 'days',
          2015: 'mons', 2016: 'dow', 2017: 'option', 2018: 'first', 2019: 'tz', 2020: 'jitter', 2021: 'mailfrom'}
NUM = {'numexe', 'until', 'nextexe', 'remain', 'timefreq', 'runfreq', 'first', 'jitter'}

def spool_fields(data):
    """[(type, bytes)]; raises ValueError on a truncated file"""
    out, p = [], 0
    while p < len(data):
        if p + 4 > len(data):
            raise ValueError('truncated at %d' % p)
        t, n = int.from_bytes(data[p:p + 2], 'little'), int.from_bytes(data[p + 2:p + 4], 'little')
        if p + 4 + n > len(data):
            raise ValueError('truncated at %d' % p)
        out.append((t, data[p + 4:p + 4 + n]))
        p += 4 + n
    return out

def parse_spool(data):
    f = dict(env=[], lines=[], user=None, saved=0, tzdiff=0, header=None)
    cur = {}
    for t, d in spool_fields(data):
        if t == 1:
            f['header'] = int.from_bytes(d, 'little', signed=True)
        elif t == 2:
            f['user'] = d.decode('latin-1')
        elif t == 3:
            f['saved'] = int.from_bytes(d, 'little', signed=True)
        elif t == 4:
            f['tzdiff'] = int.from_bytes(d, 'little', signed=True)
        elif t == 1000:
            f['env'].append(d)
        elif t == 2000:
            f['lines'].append(cur)
            cur = {}
        else:
            n = FIELDS.get(t, t)
            cur[n] = int.from_bytes(d, 'little', signed=(n != 'numexe')) if n in NUM else d
    if cur:
        raise ValueError('unfinished line')
    return f
