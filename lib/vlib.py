"""
Common machinery of the checks: running TLC on the specifications in
/verif/spec, validating records of the real code against them, evidence files
and verdicts.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION
line), 2 error of the machinery itself.
"""
import contextlib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar'


def _classpath():
    # the `tlc` wrapper knows where the CommunityModules are
    cp = [JARS]
    try:
        txt = open(shutil.which('tlc')).read()
        for j in re.findall(r'[\w/.-]+\.jar', txt):
            if j not in cp and os.path.exists(j):
                cp.append(j)
    except Exception:
        pass
    d = os.path.dirname(JARS)
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith('.jar') and p not in cp:
            cp.append(p)
    return ':'.join(cp)


class MachineryError(Exception):
    """The check itself is broken (exit 2)."""


def tla(v):
    """Python value -> TLA+ constant expression (for .cfg files)."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    raise MachineryError('constant %r' % (v,))


class Ctx:
    def __init__(self, pid, tier=None, level='model_checking'):
        self.id = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.level = level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        os.chmod(self.tmp, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = []
        self.ntlc = 0
        self._known = load_known(pid)

    # ---------------------------------------------------------------- utils
    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def elapsed(self):
        return time.time() - self.t0

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=None, extra=(), timeout=600,
             heap='4g', props=()):
        self.ntlc += 1
        wd = self.dir('tlc%d' % self.ntlc)
        cfgf = os.path.join(wd, 'M.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        if workers is None:
            workers = min(8, os.cpu_count() or 1)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=%d' %
               (1 if self.quick else 4),
               '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC]
        cmd += list(props)
        cmd += ['-cp', _classpath(), 'tlc2.TLC', '-workers', str(workers),
                '-metadir', os.path.join(wd, 'states'), '-noGenerateSpecTE',
                '-config', cfgf, '-deadlock'] + list(extra) + \
            [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timeout on ' + module)
        shutil.rmtree(os.path.join(wd, 'states'), ignore_errors=True)
        if os.environ.get('VERIF_TIMES'):
            print('TLC %s %.1f s' % (module, time.time() - t0))
        out = '\n'.join(x for x in p.stdout.splitlines() if not re.match(
            r'Parsing file|Semantic proc|Linting of|Computed \d', x))
        return p.returncode, out

    @staticmethod
    def _stats(out):
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, '
                       r'(\d+) distinct states found', out)
        if not m:
            return None
        return int(m[-1][0]), int(m[-1][1])

    @staticmethod
    def cfg(spec='Spec', consts=None, invariants=(), properties=(),
            constraint=None, post=None, symmetry=None, view=None, init=None,
            next=None):
        L = []
        if init:
            L += ['INIT ' + init, 'NEXT ' + next]
        else:
            L.append('SPECIFICATION ' + spec)
        if consts:
            L.append('CONSTANTS')
            for k, v in consts.items():
                if isinstance(v, str) and v.startswith('<-'):
                    L.append('  %s <- %s' % (k, v[2:].strip()))
                else:
                    L.append('  %s = %s' % (k, tla(v)))
        for i in invariants:
            L.append('INVARIANT ' + i)
        for i in properties:
            L.append('PROPERTY ' + i)
        if constraint:
            L.append('CONSTRAINT ' + constraint)
        if post:
            L.append('POSTCONDITION ' + post)
        if view:
            L.append('VIEW ' + view)
        return '\n'.join(L) + '\n'

    def mc(self, module, consts=None, invariants=(), properties=(),
           spec='Spec', constraint=None, timeout=600, min_states=2,
           workers=None, **kw):
        """Exhaustive model check of a specification; must find no error."""
        cfg = self.cfg(spec, consts, invariants, properties, constraint, **kw)
        rc, out = self._tlc(module, cfg, timeout=timeout, workers=workers)
        st = self._stats(out)
        if rc != 0 or st is None or 'Error:' in out:
            raise MachineryError('model %s: TLC exit %s\n%s' %
                                 (module, rc, out[-3000:]))
        if st[1] < min_states:
            raise MachineryError('model %s is vacuous: %s' % (module, st))
        self.states += st[1]
        self.transitions += st[0]
        self.models.append(dict(module=module, constants={
            k: str(v) for k, v in (consts or {}).items()},
            invariants=list(invariants), properties=list(properties),
            states=st[1], transitions=st[0]))
        return out

    def mc_must_fail(self, module, consts=None, invariants=(), properties=(),
                     spec='Spec', **kw):
        """Sanity of the model: this (wrong) variant must be refuted."""
        cfg = self.cfg(spec, consts, invariants, properties, **kw)
        rc, out = self._tlc(module, cfg)
        if 'is violated' not in out and 'were violated' not in out and 'was violated' not in out and \
                'eadlock reached' not in out:
            raise MachineryError('model %s: the faulty variant %s is not '
                                 'refuted\n%s' % (module, consts, out[-2000:]))
        self.count('model_mutants_refuted')
        return out

    def generate(self, module, consts=None, spec='Spec', marker='GEN',
                 invariants=(), simulate=None, timeout=600, workers=1, env=None, **kw):
        """Behaviours / cases printed by TLC as JSON lines after `marker`."""
        cfg = self.cfg(spec, consts, invariants, **kw)
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate[0], '-depth',
                     str(simulate[1]), '-seed', str(self.seed)]
        rc, out = self._tlc(module, cfg, extra=extra, timeout=timeout,
                            workers=workers, env=env)
        if (rc != 0 or 'Error:' in out):
            raise MachineryError('generator %s: exit %s\n%s' %
                                 (module, rc, out[-3000:]))
        st = self._stats(out)
        if st:
            self.states += st[1]
            self.transitions += st[0]
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + marker + ' '):
                s = json.loads(line)     # TLA+ string literal ~ JSON string
                res.append(json.loads(s[len(marker) + 1:]))
        self.models.append(dict(module=module, role='generator',
                                behaviours=len(res),
                                states=st[1] if st else None))
        if not res:
            raise MachineryError('generator %s: nothing\n%s' %
                                 (module, out[-2000:]))
        return res

    def validate(self, module, records, consts=None, spec='TraceSpec',
                 label='record', timeout=800, states_per_record=2,
                 on_reject=None, heap='6g', env=None, maxbytes=40_000_000):
        """
        Validate the records of the real code against a trace specification.

        The trace specification has one initial state per record, and prints
        "REJECT <n> <clauses>" when record n is not allowed; every record gets
        a verdict. Returns the list of (index, clauses).
        """
        if not records:
            raise MachineryError('no record for ' + module)
        chunks, cur, size = [], [], 0
        for i, r in enumerate(records):
            s = json.dumps(r, separators=(',', ':'))
            _check_ints(r)
            if cur and size + len(s) > maxbytes:
                chunks.append(cur)
                cur, size = [], 0
            cur.append((i, s))
            size += len(s)
        chunks.append(cur)
        rejects = []
        for ch in chunks:
            tf = os.path.join(self.tmp, 'trace%d.ndjson' % self.ntlc)
            with open(tf, 'w') as f:
                f.write('\n'.join(s for _, s in ch) + '\n')
            e = {'TRACE': tf}
            e.update(env or {})
            rc, out = self._tlc(module, self.cfg(spec, consts), env=e,
                                timeout=timeout, heap=heap)
            st = self._stats(out)
            if rc != 0 or st is None or 'Error:' in out:
                raise MachineryError('trace spec %s: TLC exit %s\n%s' %
                                     (module, rc, out[-4000:]))
            if states_per_record and st[1] < states_per_record * len(ch):
                raise MachineryError('trace spec %s: %d states for %d records'
                                     '\n%s' % (module, st[1], len(ch),
                                               out[-1500:]))
            self.transitions += st[0]
            self.states += st[1]
            for m in re.finditer(r'"REJECT (\d+) (.*)"\s*$', out, re.M):
                idx = ch[int(m.group(1)) - 1][0]
                rejects.append((idx, m.group(2).replace('\\"', "'")))
            for m in re.finditer(r'"NOTE (\w+)"\s*$', out, re.M):
                self.count(m.group(1))
            os.remove(tf)
        self.traces += len(records)
        self.models.append(dict(module=module, role='trace validation',
                                records=len(records), rejected=len(rejects)))
        rejects = sorted(set(rejects))
        for idx, why in rejects:
            if on_reject:
                on_reject(idx, why)
            else:
                self.violation(why, records[idx])
        return rejects

    # -------------------------------------------------------------- verdict
    def violation(self, why, record, key=None):
        if key is not None and key in self._known:
            self.known_hit.append((key, self._known[key]))
            return
        self.viol.append(dict(why=why, record=record, key=key))

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'], models=self.models)
        cov.update(self.counts)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.viol))
        os.makedirs(EVID, exist_ok=True)
        fn = os.path.join(EVID, self.id + '.json')
        with open(fn + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(fn + '.tmp', fn)
        for key, what in sorted(set(self.known_hit)):
            print('KNOWN-FINDING: property=%s %s' % (self.id, what))
        rc = 0
        if self.viol:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%d.json' % (self.id, self.seed))
            with open(rp, 'w') as f:
                json.dump(self.viol[:20], f, indent=1, default=str)
            for v in self.viol[:5]:
                print('  %s: %s' % (v['why'], _short(v['record'])))
            print('VIOLATION property=%s replay=%s' % (self.id, rp))
            rc = 1
        else:
            print('OK %s: %d states, %d records of the code validated, '
                  '%.1f s' % (self.id, self.states, self.traces, wall))
        return rc

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def _short(r, n=600):
    s = json.dumps(r, default=str)
    return s if len(s) <= n else s[:n] + '...'


def _check_ints(r):
    if isinstance(r, bool) or isinstance(r, str):
        return
    if isinstance(r, int):
        if abs(r) >= 2 ** 31:
            raise MachineryError('integer out of range for TLC: %d' % r)
    elif isinstance(r, dict):
        for v in r.values():
            _check_ints(v)
    elif isinstance(r, (list, tuple)):
        for v in r:
            _check_ints(v)
    else:
        raise MachineryError('value %r (%s) in a record' % (r, type(r)))


def load_known(pid):
    """Open findings: lines 'finding: property=<id> key=<key> <what>'."""
    res = {}
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def scaled(x, s, missing=-2000000000):
    """Float -> integer number of 1/s; NaN and huge values -> `missing`."""
    x = float(x)
    if x != x or abs(x) > 2e9 / s:
        return missing
    return int(round(x * s))


def attempt(f, *a, **k):
    """Call code under test; ('ok', value) or ('exc', text)."""
    try:
        return 'ok', f(*a, **k)
    except SystemExit as e:
        return 'exc', 'SystemExit(%s)' % e.code
    except Exception as e:
        return 'exc', '%s: %s' % (type(e).__name__, str(e)[:300])


@contextlib.contextmanager
def quiet():
    """Silence what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def main(pid, run, tier=None):
    ctx = Ctx(pid, tier)
    try:
        run(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        if ctx.viol:
            print('machinery error after a violation: %s' % e)
            rc = ctx.finish()
        else:
            print('ERROR %s: %s' % (pid, e))
            rc = 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    return rc


# ------------------------------------------------------------- big rasters
def some(rng, n, k=7):
    """Rows (or columns) of a raster to be judged: all of a small one."""
    if n <= 40:
        return list(range(n))
    s = {i for b in (128, 256, 512) for i in (b - 1, b) if i < n} | {0, n - 1}
    return sorted(s | set(rng.sample(range(n), k)))


def part(m, rows, cols):
    return [[m[i][j] for j in cols] for i in rows]
