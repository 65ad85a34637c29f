"""Framework shared by every check: runs TLC on the specifications, runs the
drivers on the real code, validates the recorded traces, writes evidence and
decides the exit code (0 = held on everything explored, 1 = VIOLATION line,
2 = the machinery itself failed)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')


class Machinery(Exception):
    pass


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def _java(args, cwd, env, timeout, heap='6g'):
    cmd = ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx' + heap, '-cp', TLAJAR, 'tlc2.TLC'] + args
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 'timeout', out
    return p.returncode, out


class Check:
    def __init__(self, prop, argv_tier=None):
        self.prop = prop
        self.tier = argv_tier or tier()
        self.seed = seed()
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0
        self.transitions = 0
        self.ntraces = 0
        self.nevents = 0
        self.models = []
        self.samples = []
        self.families = {}
        self.violations = []     # (key, clause, l, trace)
        self.known_hit = {}
        self.assumptions = []
        self.actions = {}
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == prop and k['status'] == 'known']

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- exhaustive model checking of the specification -------------------
    def mc(self, module, cfg=None, timeout=None, workers='8', extra=(), env=None):
        cfg = cfg or module + '.cfg'
        timeout = timeout or (3000 if self.thorough else 600)
        meta = os.path.join(self.scratch, 'meta_' + module + str(len(self.models)))
        e = dict(os.environ, **(env or {}))
        t = time.time()
        rc, out = _java(['-workers', workers, '-metadir', meta, '-deadlock', '-noGenerateSpecTE', '-config', cfg]
                        + list(extra) + [module + '.tla'], SPEC, e, timeout)
        shutil.rmtree(meta, True)
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out)
        if rc != 0 or not m or ('No error has been found' not in out):
            raise Machinery('model checking %s/%s failed rc=%s\n%s' % (module, cfg, rc, out[-4000:]))
        gen, dist = [int(x.replace(',', '')) for x in m[-1]]
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, cfg=cfg, states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
        return out

    # ---- behaviours generated from the specification ----------------------
    def generate(self, module, cfg=None, timeout=600, workers='8', env=None, extra=()):
        """Run TLC on a generator module whose PrintT lines '"GEN <json>"' are behaviours."""
        cfg = cfg or module + '.cfg'
        meta = os.path.join(self.scratch, 'meta_gen_' + module)
        rc, out = _java(['-workers', workers, '-metadir', meta, '-deadlock', '-noGenerateSpecTE', '-config', cfg]
                        + list(extra) + [module + '.tla'], SPEC, dict(os.environ, **(env or {})), timeout)
        shutil.rmtree(meta, True)
        if rc != 0:
            raise Machinery('generating from %s failed rc=%s\n%s' % (module, rc, out[-4000:]))
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out)
        if m:
            gen, dist = [int(x.replace(',', '')) for x in m[-1]]
            self.states += dist
            self.transitions += gen
            self.models.append(dict(module=module, cfg=cfg, states=dist, transitions=gen, generator=True))
        res = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        return res

    # ---- running the real code -------------------------------------------
    def drive(self, driver, args=(), timeout=None, env=None):
        out = os.path.join(self.scratch, 'tr_%s_%d.ndjson' % (driver, len(self.families)))
        timeout = timeout or (5000 if self.thorough else 600)
        e = dict(os.environ)
        e.update(PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                 VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, PYTHONPATH=os.path.join(VERIF, 'drivers'),
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        if REPO != '/repo':
            e['PYTHONPATH'] = REPO + ':' + e['PYTHONPATH']
        e.update(env or {})
        log = open(os.path.join(self.scratch, driver + '.log'), 'w')
        cwd = tempfile.mkdtemp(prefix='cwd_', dir=self.scratch)
        cmd = [PY, '-B', '-W', 'ignore', os.path.join(VERIF, 'drivers', driver + '.py'), '--out', out] + list(args)
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        died = None
        try:
            p.wait(timeout=timeout)
            if p.returncode != 0:
                died = 'driver exit %s' % p.returncode
        except subprocess.TimeoutExpired:
            died = 'driver time limit'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        log.close()
        traces = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        traces.append(json.loads(line))
                    except ValueError:
                        pass
        if died:
            tail = open(log.name, errors='replace').read()[-3000:]
            raise Machinery('%s: %s\n%s' % (driver, died, tail))
        if not traces:
            raise Machinery('%s recorded no trace' % driver)
        return traces

    # ---- trace validation -------------------------------------------------
    def validate(self, module, traces, cfg=None, clauses=None, family=None, timeout=None, chunk=None, heap='8g'):
        """Every trace gets exactly one verdict.  `clauses`: predicate on clause names that
        belong to this property (default: all)."""
        cfg = cfg or module + '.cfg'
        timeout = timeout or (3000 if self.thorough else 600)
        fam = self.families.setdefault(family or module, dict(traces=0, events=0, rejected=0))
        chunk = chunk or 4000
        for a in range(0, len(traces), chunk):
            part = traces[a:a + chunk]
            rej, ok, out, rc = self._tlc_traces(module, cfg, part, timeout, heap)
            missing = [i for i in range(len(part)) if i not in ok]
            if missing:
                if rc == 'timeout':
                    raise Machinery('trace validation %s timed out' % module)
                if 'rror' not in out or 'Parsing or semantic analysis failed' in out:
                    raise Machinery('trace validation %s stopped\n%s' % (module, out[-3000:]))
                undefined = self._isolate(module, cfg, [part[i] for i in missing], missing, timeout, rej, ok, heap)
                for i, msg in undefined:
                    rej.append((i, 0, 'undefined', msg))
                    ok.add(i)
            fam['traces'] += len(part)
            fam['events'] += sum(len(t['events']) for t in part)
            self.ntraces += len(part)
            self.nevents += sum(len(t['events']) for t in part)
            for t in part:
                for ev in t['events']:
                    o = ev.get('op', '?')
                    self.actions[o] = self.actions.get(o, 0) + 1
            bad = set()
            for r in rej:
                i, l, clause = r[0], r[1], r[2]
                msg = r[3] if len(r) > 3 else ''
                if clauses and clause not in ('undefined', 'exception') and not clauses(clause):
                    continue
                t = part[i]
                if self._known(t, clause):
                    continue
                bad.add(i)
                self.violations.append((t, l, clause, msg))
            fam['rejected'] += len(bad)
            if len(self.samples) < 4 and part:
                t = part[(self.seed * 7 + len(self.samples)) % len(part)]
                txt = json.dumps(t)
                self.samples.append(dict(family=family or module, key=t.get('key', ''),
                                         trace=t if len(txt) < 3000 else txt[:3000] + '...'))

    def _isolate(self, module, cfg, sub, idx, timeout, rej, ok, heap, depth=0):
        """Validate traces that got no verdict because TLC could not evaluate the specification on one of them:
        such a trace is not a behaviour of the specification (clause 'undefined')."""
        undefined = []
        todo = [(sub, idx)]
        runs = 0
        while todo:
            s, ix = todo.pop()
            runs += 1
            if runs > 60:
                if undefined:
                    for i in ix: ok.add(i)
                    continue
                raise Machinery('cannot isolate the trace TLC fails on')
            r, o, out, rc = self._tlc_traces(module, cfg, s, timeout, heap)
            for x in r:
                rej.append((ix[x[0]],) + tuple(x[1:]))
            for x in o:
                ok.add(ix[x])
            miss = [k for k in range(len(s)) if k not in o]
            if not miss:
                continue
            if len(miss) == 1:
                m = re.findall(r'(?s)Error: (.*?)\n(?:Error:|The behavior|\d+ states)', out)
                undefined.append((ix[miss[0]], (m[0] if m else out[-600:])[:600]))
                continue
            h = len(miss) // 2
            todo.append(([s[k] for k in miss[:h]], [ix[k] for k in miss[:h]]))
            todo.append(([s[k] for k in miss[h:]], [ix[k] for k in miss[h:]]))
        return undefined

    def _tlc_traces(self, module, cfg, traces, timeout, heap):
        tf = os.path.join(self.scratch, 'traces.json')
        with open(tf, 'w') as f:
            json.dump(traces, f)
        meta = os.path.join(self.scratch, 'meta_tr')
        shutil.rmtree(meta, True)
        rc, out = _java(['-workers', '8', '-metadir', meta, '-deadlock', '-noGenerateSpecTE', '-config', cfg,
                         module + '.tla'], SPEC, dict(os.environ, TRACE_FILE=tf), timeout, heap)
        shutil.rmtree(meta, True)
        rej, ok = [], set()
        for line in out.splitlines():
            if line.startswith('"REJ '):
                _, a, b, c = line.strip('"').split(' ', 3)
                rej.append((int(a) - 1, int(b), c))
            elif line.startswith('"END '):
                ok.add(int(line.strip('"').split()[1]) - 1)
        # a trace whose END line is missing has no verdict: forget its partial rejections
        rej = [r for r in sorted(set(rej)) if r[0] in ok]
        return rej, ok, out, rc

    def _known(self, trace, clause):
        for k in self.known:
            if k['key'] == trace.get('key') and clause in k['clauses']:
                self.known_hit[(k['key'], clause)] = k['what']
                return True
        return False

    # ---- outcome ------------------------------------------------------------
    def finish(self, level='model_checking', extra=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.ntraces,
                   samples=self.samples, events_validated=self.nevents, models=self.models, families=self.families,
                   events_by_action=self.actions)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for (key, clause), what in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.prop, key, clause, what))
        print('%s %s: %d model states, %d transitions, %d traces (%d events) validated, %d violations, %.1fs' % (
            self.prop, self.tier, self.states, self.transitions, self.ntraces, self.nevents,
            len(self.violations), time.time() - self.t0))
        for k, v in self.families.items():
            print('  %s: %s' % (k, v))
        if not self.violations:
            return 0
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
        shown = self.violations[:25]
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                           violations=[dict(key=t.get('key'), at_event=l, clause=c, message=m,
                                            event=(t['events'][l - 1] if 0 < l <= len(t['events']) else None),
                                            trace=t) for t, l, c, m in shown]), f, indent=1)
        for t, l, c, m in shown[:8]:
            e = t['events'][l - 1] if 0 < l <= len(t['events']) else None
            print('  rejected: key=%s event %d clause %s %s %s' % (t.get('key'), l, c, m, json.dumps(e)[:400]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def main(prop, fn, argv_tier=None):
    try:
        ck = Check(prop, argv_tier)
        r = fn(ck)
        if isinstance(r, int):
            sys.exit(r)
        sys.exit(ck.finish(**(r or {})))
    except Machinery as e:
        print('MACHINERY-ERROR property=%s %s' % (prop, e))
        sys.exit(2)
