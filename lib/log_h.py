"""The logs of the processes of a run (C37)."""
import json
import logging
import os
import random
import re
import shutil
import sys

import fakempi
import run_h
import vlib
import whole_h

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
STAMP = re.compile(r'^(?:\d{4}-\d\d-\d\d )?\d\d:\d\d:\d\d: ')


SAID = []


def listen(root):
    """Note the messages that are given, before any decision on them, and whether
    by code in root. To be called before that code is loaded: it may keep methods
    of a logger."""
    said = SAID
    depth = [0]
    me = logging.__file__

    def wrap(name, orig):
        def method(self, *a, **k):
            if depth[0]:
                return orig(self, *a, **k)
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename == me:
                f = f.f_back
            own = f is not None and f.f_code.co_filename.startswith(root)
            if a:
                lev = a[0] if name == 'log' else getattr(logging, 'ERROR' if name == 'exception' else name.upper())
                m = a[1:] if name == 'log' else a
                rec = logging.LogRecord('', lev, '', 0, m[0], m[1:], None)
                try:
                    said.append([lev, rec.getMessage(), own])
                except (TypeError, ValueError):
                    said.append([lev, 'cannot be formatted: %r' % (m,), own])
            depth[0] += 1
            try:
                return orig(self, *a, **k)
            finally:
                depth[0] -= 1
        return method
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'):
        setattr(logging.Logger, n, wrap(n, getattr(logging.Logger, n)))


class Terminal:
    """A stream to a file, which says that it is a terminal, or not."""

    def __init__(self, fn, tty):
        self.f, self.tty = open(fn, 'w'), tty

    def write(self, s):
        self.f.write(s)
        self.f.flush()
        return len(s)

    def flush(self):
        self.f.flush()

    def isatty(self):
        return self.tty

    def fileno(self):
        return self.f.fileno()


def unset():
    """Logging as in a new process."""
    logging.disable(logging.NOTSET)
    r = logging.getLogger()
    for h in list(r.handlers):
        r.removeHandler(h)
    r.setLevel(logging.WARNING)


def parts(fn):
    """The messages in a log: texts after the time; what does not begin with one
    belongs to the text before."""
    res = []
    with open(fn, errors='replace') as f:
        for line in f.read().split('\n')[:-1] or []:
            m = STAMP.match(line)
            if m or not res:
                res.append(line[m.end():] if m else '?' + line)
            else:
                res[-1] += '\n' + line
    return res


def same(text, message):
    return text == message or text.startswith(message + '\nTraceback')


def numbers(said, ids):
    return [[lev, ids[t]] for lev, t, own in said if own]


def lines(fn, texts, ids):
    """Numbers of the messages of a log; texts: those one may find."""
    res = []
    for x in parts(fn):
        hit = [t for t in texts if same(x, t)]
        if not hit or hit[0] in ids:     # not what other libraries say
            res.append(ids[hit[0]] if hit else 0)
    return res


FORMS = ['there', 'there', 'missing', 'missing', 'deep', 'blocked', 'bare', 'relative']


def place(rng, d, form):
    """(configured name, folder it is in, whether that can be)."""
    base = rng.choice(['l.txt', 'multi.log', 'a.b.log', 'log', 'my run.log', 'multipliers.log'])
    logs = os.path.join(d, 'logs')
    os.makedirs(logs)
    if form == 'there':
        return os.path.join(logs, base), logs, 1
    if form == 'missing':
        return os.path.join(logs, 'new', base), os.path.join(logs, 'new'), 1
    if form == 'deep':
        return os.path.join(logs, 'a', 'b', 'c', base), os.path.join(logs, 'a', 'b', 'c'), 1
    if form == 'blocked':
        open(os.path.join(logs, 'file'), 'w').close()
        sub = rng.choice([(), ('x',)])
        return os.path.join(logs, 'file', *sub, base), os.path.join(logs, 'file'), 0
    if form == 'bare':
        return base, os.path.join(d, 'cwd'), 1
    return os.path.join('..', 'logs', 'r', base), os.path.join(logs, 'r'), 1


def inventory(d):
    return {os.path.relpath(os.path.join(b, f), d) for top in ('logs', 'cwd')
            for b, _, fs in os.walk(os.path.join(d, top)) for f in fs}


def judgeable(d, given, folder, ok, n, fallback):
    """The logs there are, and whose they are."""
    conf = os.path.relpath(os.path.join(folder, os.path.basename(given)), d)
    res = []
    for f in sorted(inventory(d)):
        if f == os.path.join('logs', 'file'):
            continue
        hit = [(w, p) for w, b in (('configured', conf), ('fallback', fallback)) for p in range(n)
               if f == (b if p == 0 else '%s_%d' % (b, p)) and (w == 'configured') == bool(ok)]
        w, p = hit[0] if hit else ('other', 0)
        res.append((f, w, p))
    return res


def record_run(ctx, i, job):
    rng = random.Random(job)
    d = os.path.join(ctx.tmp, 'l%d' % i)
    cwd = os.path.join(d, 'cwd')
    os.makedirs(cwd)
    n = rng.choice([0, 1, 2, 2, 3, 4]) if rng.random() > .08 else rng.choice([11, 12, 23])        # 0: without MPI
    stub = rng.random() < .75
    form = rng.choice(FORMS)
    given, folder, ok = place(rng, d, form)
    level = rng.choice(LEVELS + ['DEBUG', 'INFO', 'INFO'])
    verbose, flag = rng.choice(['True', 'yes', 'on', '1', 'False', 'no', '0', 'off']), rng.random() < .3
    tty = rng.random() < .7
    if stub:
        class C:
            tmp = d

            @staticmethod
            def dir(name):
                p = os.path.join(d, name)
                os.makedirs(p)
                return p
        nx, ny = rng.choice([(1, 1), (1, 2), (2, 2), (3, 1)])
        case = run_h.Setup(C, 's', nx, ny, [t for t in range(nx * ny) if rng.random() < .3 and t], cells=(2, 3))
    else:
        case = whole_h.FineCase(rng)
        case.write(os.path.join(d, 's'))
    with open(case.cfg) as f:
        text = re.sub(r'LogFile = .*', lambda m: 'LogFile = ' + given, f.read())
    text = re.sub('LogLevel = .*', 'LogLevel = %s%s' % (level, rng.choice(['', ' '])), text)
    text = re.sub('Verbose = .*', 'Verbose = ' + verbose, text)
    with open(case.cfg, 'w') as f:
        f.write(text)
    if ok and rng.random() < .4 and os.path.isdir(folder):     # of an earlier run
        for p in range(max(n, 1)):
            with open(os.path.join(folder, os.path.basename(given)) + ('_%d' % p if p else ''), 'w') as f:
                f.write('2001-01-01 00:00:00: before\n' * 50)
    base = run_h.child(case, stub=stub, mpi=n > 0)
    case_d = case.d

    def main(rank, size, conn):
        said = SAID
        del said[:]
        unset()
        fakempi.audit_fs(d, conn)
        os.chdir, chdir = lambda p: chdir(cwd if p == case_d else p), os.chdir
        sys.stdout = Terminal(os.path.join(d, 'out%d' % rank), tty)
        sys.stderr = Terminal(os.path.join(d, 'err%d' % rank), tty)
        if not stub:
            case.give_tiles()
        if flag:
            # the program is given its arguments by the one who calls it
            class Argv(list):
                pass
            real = sys.modules['argparse'].ArgumentParser.parse_args
            sys.modules['argparse'].ArgumentParser.parse_args = \
                lambda self, a=None, ns=None: real(self, (sys.argv[1:] + ['-v']) if a is None else a, ns)
        try:
            base(rank, size, conn)
        finally:
            with open(os.path.join(d, 'said%d' % rank), 'w') as f:
                json.dump(said, f)
    w = fakempi.World(max(n, 1), fakempi.holding(rng, .3) if rng.random() < .5 else fakempi.random_choice(rng),
                      timeout=300, limit=100000)
    w.run(main)
    bad = [s for s in w.status.values() if s != 'ok'] + ([w.end] if w.end != 'ok' else [])
    return finish(d, max(n, 1), given, folder, ok, level, int(tty and (flag or verbose in ('True', 'yes', 'on', '1'))), bad[:1],
                  os.path.join('cwd', 'multipliers.log'), [],
                  'run n=%d %s %s %s%s' % (n, form, level, 'full ' if not stub else '', given.replace(d, '')))


def finish(d, n, given, folder, ok, level, show, bad, fallback, before, case):
    ids = whole_h.Ids()
    said = []
    for p in range(n):
        fn = os.path.join(d, 'said%d' % p)
        said.append([tuple(x) for x in json.load(open(fn))] if os.path.exists(fn) else [])
    # longest first: a text may begin like another
    texts = sorted({t for s in said for _, t, _ in s} | set(before), key=lambda t: -len(t))
    r = dict(case=case, level=level, dirOk=ok, said=[numbers(s, ids) for s in said], logs=[], shown=[], show=show, errs=bad,
             before=[ids[t] for t in before])
    for f, w, p in judgeable(d, given, folder, ok, n, fallback):
        r['logs'].append(dict(place=w, proc=p, lines=lines(os.path.join(d, f), texts, ids), name=f))
    for p in range(n):
        out, err = (os.path.join(d, x + str(p)) for x in ('out', 'err'))
        r['shown'].append([x for f in (out, err)[:1] if os.path.exists(f) for x in stamped(f, texts, ids)])
    r['stderr'] = [len(stamped(os.path.join(d, 'err%d' % p), texts, ids)) if os.path.exists(os.path.join(d, 'err%d' % p)) else 0
                   for p in range(n)]
    shutil.rmtree(d)
    return r


def stamped(fn, texts, ids):
    """Messages of the log among what was shown."""
    res, cur = [], None
    with open(fn, errors='replace') as f:
        for line in f.read().split('\n'):
            m = STAMP.match(line)
            if m:
                cur = [line[m.end():]]
                res.append(cur)
            elif cur is not None:
                cur.append(line)
    got = []
    for c in res:
        x = '\n'.join(c)
        hit = [t for t in texts if x == t or x.startswith(t + '\n')]
        if not hit or hit[0] in ids:
            got.append(ids[hit[0]] if hit else 0)
    return got


def record_direct(ctx, i, job):
    """The log function by itself."""
    rng = random.Random(job)
    d = os.path.join(ctx.tmp, 'm%d' % i)
    cwd = os.path.join(d, 'cwd')
    os.makedirs(cwd)
    form = rng.choice(FORMS)
    given, folder, ok = place(rng, d, form)
    level, verbose, tty = rng.choice(LEVELS), rng.random() < .5, rng.random() < .7
    newlog = rng.random() < .5
    before = []
    if ok and rng.random() < .6 and os.path.isdir(folder):
        with open(os.path.join(folder, os.path.basename(given)), 'w') as f:
            for k in range(rng.randint(1, 30)):
                f.write('2001-01-01 00:00:00: before %d\n' % k)
                if not newlog:
                    before.append('before %d' % k)
    texts = ['message %d%s' % (k, rng.choice(['', ' of\ntwo lines', ' ' * 3, ' 100%', ': x'])) for k in range(rng.randint(1, 12))]
    plan = [(rng.choice(LEVELS[:4] + ['CRITICAL']), rng.choice(['', 'a', 'utilities.x']), t) for t in texts]

    def main():
        said = SAID
        del said[:]
        unset()
        os.chdir(cwd)
        sys.stdout = Terminal(os.path.join(d, 'out0'), tty)
        sys.stderr = Terminal(os.path.join(d, 'err0'), tty)
        try:
            from utilities.files import fl_start_log
            a = {} if verbose is False and rng.random() < .5 else dict(verbose=verbose)
            if not newlog:
                a['newlog'] = False
            fl_start_log(given, level, **a)
            for lev, name, t in plan:
                logging.getLogger(name or None).log(getattr(logging, lev), '%s', t)
                said[-1][2] = True
        finally:
            with open(os.path.join(d, 'said0'), 'w') as f:
                json.dump(said, f)
    err = whole_h.forked(main)
    return finish(d, 1, given, folder, ok, level, int(tty and verbose), [err] if err else [],
                  os.path.join('cwd', os.path.basename(given)), before,
                  'direct %s %s new=%d %s' % (form, level, newlog, given.replace(d, '')))


def run_c37(ctx):
    if 'utilities.files' in sys.modules:
        raise RuntimeError('the code is loaded too early')
    listen(vlib.REPO.rstrip('/') + '/')
    with vlib.quiet():
        import all_multipliers  # noqa: F401
    inv = ['OwnLog', 'Shown']
    n = ctx.pick(2, 3)
    for dr in ('there', 'missing', 'blocked'):
        ctx.mc('Log', dict(N=n, MaxMsg=2, Lev=20, Dir=dr, Verbose=True, Fault='none'), invariants=inv, min_states=100)
    for f, dr in (('race', 'missing'), ('shared', 'there'), ('append', 'there'), ('all', 'there'), ('talk', 'missing')):
        ctx.mc_must_fail('Log', dict(N=2, MaxMsg=2, Lev=20, Dir=dr, Verbose=True, Fault=f), invariants=inv)
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(40, 700))]
    direct = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(48, 600))]
    recs = [v for _, v in run_h.pool(ctx, jobs + direct, lambda i, x: record_run(ctx, i, x) if i < len(jobs)
                                     else record_direct(ctx, i, x), nproc=8)]
    ctx.sample(dict(recs[0], said=[s[:20] for s in recs[0]['said']]))
    ctx.count('evaluations', len(recs))
    ctx.count('messages', sum(len(s) for r in recs for s in r['said']))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.count('runs_of_several_processes', sum(len(r['said']) > 1 for r in recs))
    ctx.count('folders_that_cannot_be_made', sum(not r['dirOk'] for r in recs))
    ctx.count('shown', sum(r['show'] for r in recs))
    ctx.validate('LogTrace', recs)
