"""Shared by the drivers: recording traces of the real code, one JSON object per line."""
import argparse, json, os, random, signal, sys, time, traceback

class TimeUp(BaseException):
    pass

def _alarm(signum, frame):
    raise TimeUp('time limit of the call')

signal.signal(signal.SIGALRM, _alarm)

class Limit:
    """Bounds one call into the code under test."""
    def __init__(self, secs): self.secs = secs
    def __enter__(self): signal.setitimer(signal.ITIMER_REAL, self.secs)
    def __exit__(self, *a): signal.setitimer(signal.ITIMER_REAL, 0); return False

def err(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
    return ('%s: %s @ %s' % (type(e).__name__, str(e)[:160], where)).encode('ascii', 'replace').decode()

def guarded(fn, secs=60):
    """(True, value) or (False, error text)."""
    try:
        with Limit(secs):
            return True, fn()
    except (Exception, TimeUp, SystemExit) as e:
        return False, err(e)

class Trace:
    def __init__(self, key, inst=None, **kw):
        self.d = dict(key=key, inst=inst or {}, events=[])
        self.d.update(kw)
    def ev(self, op, **kw):
        kw['op'] = op
        self.d['events'].append(kw)
        return kw
    def exc(self, call, e):
        self.d['events'].append(dict(op='exc', call=call, err=e if isinstance(e, str) else err(e)))

class Driver:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--out', required=True)
        ap.add_argument('--families', default='')
        ap.add_argument('--input', default='')
        a, self.rest = ap.parse_known_args()
        self.args = a
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.f = open(a.out, 'w')
        self.families = [x for x in a.families.split(',') if x]
        self.n = 0
    def input(self):
        with open(self.args.input) as f:
            return json.load(f)
    def rng(self, *salt):
        return random.Random('%d|%s' % (self.seed, '|'.join(map(str, salt))))
    def emit(self, tr):
        d = tr.d if isinstance(tr, Trace) else tr
        self.f.write(json.dumps(d) + '\n')
        self.f.flush()
        self.n += 1
    def want(self, fam):
        return not self.families or fam in self.families
    def run(self, fam, key, fn, inst=None, secs=60, **kw):
        """Runs fn(trace), which records one execution; whatever escapes it is an exception event."""
        if not self.want(fam):
            return None
        tr = Trace(fam + '/' + str(key), inst, fam=fam, **kw)
        try:
            with Limit(secs):
                fn(tr)
        except (Exception, TimeUp, SystemExit) as e:
            tr.exc('escaped', err(e))
        self.emit(tr)
        return tr
