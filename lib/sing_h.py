"""Threads constructing singletons, step by step (C30)."""
import _thread
import importlib.util
import os
import random
import sys
import threading

import run_h
import vlib

REPO = os.path.realpath(vlib.REPO)


class Abort(BaseException):
    pass


class Boom(Exception):
    pass


class Sched:
    """Runs one thread at a time, from one line (or opcode) to the next."""

    def __init__(self, opcodes):
        self.opcodes = opcodes
        self.who = {}
        self.th = []
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.abort = False
        self.h = []

    def add(self, f):
        t = dict(go=_thread.allocate_lock(), done=False, on=None, f=f)
        t['go'].acquire()
        self.th.append(t)

    def me(self):
        return self.who.get(_thread.get_ident())

    def point(self, on=None):
        t = self.me()
        if t is None:
            return
        t['on'] = on
        self.back.release()
        t['go'].acquire()
        t['on'] = None
        if self.abort:
            raise Abort()

    def tracer(self, frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename).startswith(REPO):
            frame.f_trace_opcodes = self.opcodes
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') and not self.abort:
            self.point()
        return self.local

    def body(self, t):
        self.who[_thread.get_ident()] = t
        t['go'].acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer)
                t['f']()
        except Abort:
            pass
        finally:
            sys.settrace(None)
            t['done'] = True
            self.back.release()

    def can(self, t):
        return not t['done'] and not (t['on'] is not None and t['on'].owner is not None)

    def step(self, t):
        t['go'].release()
        self.back.acquire()

    def run(self, plan, rng, limit=6000):
        """Whether all threads came to an end."""
        for t in self.th:
            _thread.start_new_thread(self.body, (t,))
        n = 0
        for k, length in plan:
            t = self.th[(k - 1) % len(self.th)]
            for _ in range(length):
                if not self.can(t):
                    break
                self.step(t)
                n += 1
        order = self.th[:]
        if plan:
            k = (plan[-1][0] - 1) % len(self.th)
            order = self.th[k:] + self.th[:k]
        while n < limit:
            ready = [t for t in order if self.can(t)]
            if not ready:
                break
            if rng.random() < .3:
                rng.shuffle(order)
            for t in ready[:1] if rng.random() < .5 else ready:
                if self.can(t):
                    self.step(t)
                    n += 1
        ok = all(t['done'] for t in self.th)
        self.abort = True
        for t in self.th:
            while not t['done']:
                self.step(t)
        return ok


class Lock:
    """A lock whose waiters the scheduler knows."""
    sched = None
    again = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.sched.me() if self.sched else None
        me = id(me) if me is not None else -1
        if self.again and self.owner == me:
            self.depth += 1
            return True
        tries = 0
        while self.owner is not None:
            if not blocking or (timeout >= 0 and tries):
                return False
            if me == -1:
                raise RuntimeError('deadlock')
            self.sched.point(self if timeout < 0 else None)
            tries += 1
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    again = True

    def _is_owned(self):
        me = self.sched.me()
        return self.owner is not None and self.owner == (id(me) if me is not None else -1)


def load():
    spec = importlib.util.spec_from_file_location('meta_under_test', os.path.join(REPO, 'utilities', 'meta.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def scenario(job):
    rng = random.Random(job['seed'])
    s = Sched(job['opcodes'])
    Lock.sched = s
    keep = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = Lock, RLock
    try:
        return history(job, rng, s)
    finally:
        threading.Lock, threading.RLock = keep


def history(job, rng, s):
    meta = load()
    nobj = [0]
    made = {}
    n = job['threads']
    classes = [None, None]
    who = [dict(c=1 + (rng.randrange(2) if job['two'] else 0), a=rng.randint(1, 3)) for _ in range(n)]
    if job['mode'] == 'wait':
        who[0]['c'], who[1]['c'] = 1, 2
    fails = {c: rng.choice([0, 0, 1, 2]) if job['mode'] == 'fail' else 0 for c in (1, 2)}

    def cls_of(x):
        return 1 + classes.index(type(x)) if type(x) in classes else -1

    def init_for(c):
        def __init__(self, arg, key=None):
            t = [k for k, th in enumerate(s.th) if th is s.me()][0] + 1
            nobj[0] += 1
            o = nobj[0]
            object.__setattr__(self, '_o', o)
            begun = made[c] = made.get(c, 0) + 1
            s.h.append(dict(e='begin', t=t, c=c, o=o, a=arg if key == arg + 10 else -1))
            try:
                for _ in range(rng.choice([0, 1, 3, 6])):
                    s.point()
                if job['mode'] == 'nested' and c == 1:
                    classes[1](arg, key=key)
                if job['mode'] == 'wait' and c == 1:
                    while not any(x['e'] == 'end' and x['c'] == 2 for x in s.h):
                        s.point()
                if begun <= fails[c]:
                    raise Boom(t, c)
            except Boom as e:
                e.args = (t, c)
                s.h.append(dict(e='fail', t=t, c=c, o=o, a=0))
                raise
            s.h.append(dict(e='end', t=t, c=c, o=o, a=0))
        return __init__

    def body(kind, c):
        d = dict(__init__=init_for(c))
        if kind == 'false':
            d['__bool__'] = lambda self: False
        elif kind == 'empty':
            d['__len__'] = lambda self: 0
        elif kind == 'equal':
            d['__eq__'] = lambda self, other: True
            d['__ne__'] = lambda self, other: False
            d['__hash__'] = lambda self: 1
        return d
    kinds = ['plain', 'plain', 'false', 'empty', 'equal']

    def define():
        classes[0] = meta.Singleton('One', (object,), body(rng.choice(kinds), 1))
        classes[1] = meta.Singleton('Two', (classes[0],) if job['sub'] else (object,), body(rng.choice(kinds), 2))
    st, v = vlib.attempt(define)
    if st == 'exc':
        return dict(threads=who, h=[], stuck=1, seed=job['seed'], mode=job['mode'], msg=v)

    def thread(t):
        c, a = who[t]['c'], who[t]['a']

        def run():
            try:
                x = classes[c - 1](a, key=a + 10)
            except Abort:
                raise
            except BaseException as e:
                s.h.append(dict(e='error', t=t + 1, c=c, o=0, a=int(isinstance(e, Boom) and e.args == (t + 1, c))))
            else:
                s.h.append(dict(e='got', t=t + 1, c=cls_of(x), o=getattr(x, '_o', -1), a=0))
        return run
    for t in range(n):
        s.add(thread(t))
    ok = s.run(job['plan'], rng)
    return dict(threads=who, h=s.h, stuck=int(not ok), seed=job['seed'], mode=job['mode'])


def run_c30(ctx):
    b = dict(Threads={1, 2, 3}, Classes={1, 2}, CanFail=True, Falsy=True, Nested=False, Fault='none')
    ctx.mc('Singleton', b if ctx.quick else dict(b, Threads={1, 2, 3, 4}), invariants=['Right'], properties=['AllAnswered'], min_states=1000)
    ctx.mc('Singleton', dict(b, Nested=True, CanFail=False), invariants=['Right'], properties=['AllAnswered'])
    b['Threads'] = {1, 2}
    for f in ('no-lock', 'no-recheck', 'early', 'falsy', 'keep-lock', 'one-lock'):
        if not ctx.quick or f in ('no-recheck', 'early'):
            ctx.mc_must_fail('Singleton', dict(b, Fault=f, Nested=f == 'one-lock', CanFail=f != 'one-lock'),
                             invariants=['Right'], properties=['AllAnswered'])
    top = ctx.pick(9, 16)
    plans = ctx.generate('SingletonGen', dict(Threads={1, 2}, Lengths=set(range(1, top + 1)), Turns=2))
    plans += ctx.generate('SingletonGen', dict(Threads={1, 2, 3}, Lengths={1, 2, 3, 5} if ctx.quick else {1, 2, 3, 4, 5, 6, 8}, Turns=3))
    jobs = []
    for k, p in enumerate(plans):
        n = max(x[0] for x in p)
        for rep in range(ctx.pick(2, 4)):
            mode = ctx.rng.choice(['plain', 'plain', 'fail', 'nested', 'wait'])
            jobs.append(dict(seed=ctx.rng.randint(0, 10 ** 9), plan=p if rep % 2 == 0 else [(t, 3 * m) for t, m in p],
                             threads=max(2, n), opcodes=rep % 2 == 1, two=ctx.rng.random() < .3 or mode == 'wait',
                             sub=ctx.rng.random() < .4, mode=mode))
    for _ in range(ctx.pick(300, 6000)):
        mode = ctx.rng.choice(['plain', 'fail', 'nested', 'wait'])
        n = ctx.rng.randint(2, 5)
        plan = [(ctx.rng.randint(1, n), ctx.rng.choice([1, 1, 2, 4, 9])) for _ in range(ctx.rng.randint(0, 25))]
        jobs.append(dict(seed=ctx.rng.randint(0, 10 ** 9), plan=plan, threads=n, opcodes=ctx.rng.random() < .5,
                         two=ctx.rng.random() < .5 or mode == 'wait', sub=ctx.rng.random() < .4, mode=mode))
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: scenario(j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('schedules', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r['h']) for r in recs}))
    ctx.validate('SingletonTrace', recs)
