"""
A stand-in for mpi4py whose schedule is controlled.

The ranks are forked processes. Each MPI call, and each point of interest (a
file-system call in the watched folder, a hooked function), is an operation
sent to the coordinator, which lets exactly one rank run at a time and picks
the next operation to complete among the enabled ones. Point-to-point sends
are eager (buffered) or synchronous (complete when received); both are allowed
by MPI. The coordinator logs what happens, and differences of the watched
folder after each step are attributed to the rank that ran.
"""
import atexit
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback
import types

ANY = -1
CURRENT = None         # the connection of this process, in a rank
LAST = []              # the exception that ends this process


class Conn:
    def __init__(self, sock):
        self.s = sock

    def send(self, obj):
        b = pickle.dumps(obj)
        self.s.sendall(struct.pack('!I', len(b)) + b)

    def _read(self, n):
        buf = b''
        while len(buf) < n:
            c = self.s.recv(n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf

    def recv(self):
        return pickle.loads(self._read(struct.unpack('!I', self._read(4))[0]))

    def call(self, *op):
        self.send(op)
        kind, val = self.recv()
        if kind == 'raise':
            raise RuntimeError(val)
        return val


class Status:
    def __init__(self):
        self.source, self.tag, self.error = ANY, ANY, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return 0

    def _set(self, v):
        self.source, self.tag = v[0], v[1]


class Request:
    def __init__(self, comm, rid, recv):
        self.c, self.rid, self.recv = comm, rid, recv
        self.done, self.val = False, None

    def _fin(self, v, status):
        if v is not None:
            if status is not None:
                status._set(v)
            self.val = pickle.loads(v[2])
        self.done = True
        return self.val

    def wait(self, status=None):
        if self.done:
            return self.val
        return self._fin(self.c._c.call('wait', self.rid), status)
    Wait = wait

    def test(self, status=None):
        if self.done:
            return True, self.val
        ok, v = self.c._c.call('test', self.rid)
        if ok:
            return True, self._fin(v, status)
        return False, None
    Test = test

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]
    Waitall = waitall


class Comm:
    name = 'MPI_COMM_WORLD'

    def __init__(self, conn, rank, size):
        self._c, self.rank, self.size = conn, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # point to point
    def send(self, obj, dest, tag=0):
        self._c.call('send', dest, tag, pickle.dumps(obj), None)
    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._c.call('send', dest, tag, pickle.dumps(obj), True)

    def isend(self, obj, dest, tag=0):
        return Request(self, self._c.call('isend', dest, tag, pickle.dumps(obj)), False)
    issend = ibsend = isend

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        v = self._c.call('recv', source, tag)
        if status is not None:
            status._set(v)
        return pickle.loads(v[2])

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(self, self._c.call('irecv', source, tag), True)

    def probe(self, source=ANY, tag=ANY, status=None):
        v = self._c.call('probe', source, tag)
        if status is not None:
            status._set(v)
        return True

    def iprobe(self, source=ANY, tag=ANY, status=None):
        v = self._c.call('iprobe', source, tag)
        if v is None:
            return False
        if status is not None:
            status._set(v)
        return True
    Probe, Iprobe = probe, iprobe

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag, status=status)
        r.wait()
        return v

    # collectives
    def _coll(self, kind, root=0, obj=None):
        return self._c.call('coll', kind, root, pickle.dumps(obj))

    def barrier(self):
        self._coll('barrier')
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return pickle.loads(self._coll('bcast', root, obj))

    def scatter(self, sendobj=None, root=0):
        if self.rank == root and (sendobj is None or len(list(sendobj)) != self.size):
            raise ValueError('expecting %d items, got %r' % (self.size, sendobj))
        return pickle.loads(self._coll('scatter', root, list(sendobj) if self.rank == root else None))

    def gather(self, sendobj=None, root=0):
        v = self._coll('gather', root, sendobj)
        return [pickle.loads(x) for x in v] if self.rank == root else None

    def allgather(self, sendobj=None):
        return [pickle.loads(x) for x in self._coll('allgather', 0, sendobj)]

    def alltoall(self, sendobj):
        rows = [pickle.loads(x) for x in self._coll('allgather', 0, sendobj)]
        return [r[self.rank] for r in rows]

    def reduce(self, sendobj, op=None, root=0):
        v = self._coll('gather', root, sendobj)
        return _fold(v, op) if self.rank == root else None

    def allreduce(self, sendobj, op=None):
        return _fold(self._coll('allgather', 0, sendobj), op)

    def Abort(self, errorcode=0):
        self._c.send(('exit', 'Abort(%s)%s' % (errorcode, ' after ' + LAST[0] if LAST else '')))
        os._exit(0)

    def Dup(self):
        return self
    Clone = Dup

    def Free(self):
        pass


def _fold(v, op):
    v = [pickle.loads(x) for x in v]
    r = v[0]
    for x in v[1:]:
        r = (op or _sum)(r, x)
    return r


def _sum(a, b):
    return a + b


def install(comm):
    """Make `from mpi4py import MPI` give the stand-in in this process."""
    MPI = types.ModuleType('mpi4py.MPI')
    MPI.COMM_WORLD = comm
    MPI.COMM_SELF = None
    MPI.ANY_SOURCE = MPI.ANY_TAG = ANY
    MPI.Status, MPI.Request = Status, Request
    MPI.SUM, MPI.MAX, MPI.MIN = _sum, max, min
    MPI.Init = lambda *a: None
    MPI.Finalize = lambda: None
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Wtime = time.time
    MPI.Get_processor_name = lambda: 'node'
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = MPI
    pkg.__path__ = []
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = MPI
    return MPI


def forbid():
    sys.modules['mpi4py'] = None
    sys.modules.pop('mpi4py.MPI', None)


class Watch:
    """Differences of a folder between calls."""

    def __init__(self, folder):
        self.folder = folder
        self.cur = self.snap()

    def snap(self):
        r = {}
        for base, dirs, files in os.walk(self.folder):
            try:
                st = os.stat(base)
                r[os.path.relpath(base, self.folder)] = ('d', st.st_ino, 0)
            except OSError:
                continue
            for f in files:
                p = os.path.join(base, f)
                try:
                    st = os.stat(p)
                    r[os.path.relpath(p, self.folder)] = ('f', st.st_ino, st.st_mtime_ns)
                except OSError:
                    pass
        return r

    def diff(self):
        new = self.snap()
        out = []
        for p, v in self.cur.items():
            if p not in new:
                out.append(('del', p))
            elif new[p][:2] != v[:2]:
                out.append(('rep', p))
            elif new[p] != v:
                out.append(('mod', p))
        # folders first: making one is preceded by a step of its own
        fresh = [p for p in new if p not in self.cur]
        out += [('new', p) for p in sorted(fresh, key=lambda p: (new[p][0] != 'd', new[p][2]))]
        self.cur = new
        return out


class World:
    """One execution: n ranks running `main(rank, size, conn)`."""

    def __init__(self, n, choose, sync=False, synccoll=False, watch=None, limit=20000, timeout=120):
        self.n, self.choose, self.sync, self.synccoll = n, choose, sync, synccoll
        self.watch, self.limit, self.timeout = watch, limit, timeout
        self.log = []            # (rank, kind, ...)
        self.status = {}         # rank -> exit text
        self.queue = []          # messages in transit
        self.pending = {}        # rank -> operation
        self.reqs = {}
        self.ncoll = [0] * n
        self.slots = {}
        self.seq = 0
        self.end = None

    # ---------------------------------------------------------------- ranks
    def start(self, main):
        self.conns, self.pids = [], []
        for r in range(self.n):
            a, b = socket.socketpair()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    a.close()
                    for c in self.conns:
                        c.s.close()
                    self._child(r, Conn(b), main)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            b.close()
            self.conns.append(Conn(a))
            self.pids.append(pid)

    def _child(self, r, conn, main):
        global CURRENT
        CURRENT = conn
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        atexit._clear()
        conn.call('event', 'hello')
        try:
            main(r, self.n, conn)
            atexit._run_exitfuncs()
            st = 'ok'
        except SystemExit as e:
            st = 'ok' if e.code in (None, 0) else 'SystemExit(%s)' % (e.code,)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            st = '%s: %s @ %s' % (type(e).__name__, str(e)[:200],
                                  ';'.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
            LAST.append(st)
            if not isinstance(e, KeyboardInterrupt):
                try:
                    sys.excepthook(type(e), e, e.__traceback__)     # as the interpreter does
                except SystemExit:
                    pass
                except BaseException:
                    traceback.print_exc()
        conn.send(('exit', st))

    # ------------------------------------------------------------ semantics
    def _match(self, rank, source, tag):
        """First matching message per source."""
        res, seen = [], set()
        for m in self.queue:
            if m['dst'] == rank and m['src'] not in seen and source in (ANY, m['src']) \
                    and tag in (ANY, m['tag']):
                seen.add(m['src'])
                res.append(m)
        return res

    def _post(self, rank, op):
        """A rank asks for an operation; effects visible to others at once."""
        k = op[0]
        if k in ('send', 'isend'):
            self.seq += 1
            m = dict(src=rank, dst=op[1], tag=op[2], data=op[3], id=self.seq, taken=False,
                     sync=(self.sync or op[4] is True) if k == 'send' else self.sync)
            if not (isinstance(op[1], int) and 0 <= op[1] < self.n):
                self.pending[rank] = ('bad', 'invalid rank %r' % (op[1],))
                return
            self.queue.append(m)
            self.pending[rank] = (k, m)
        elif k == 'coll':
            i = self.ncoll[rank]
            self.ncoll[rank] += 1
            slot = self.slots.setdefault(i, {})
            for o in slot.values():
                if o[:2] != op[1:3]:
                    self.end = 'collective mismatch: %s and %s' % (o[:2], op[1:3])
            slot[rank] = op[1:]
            self.pending[rank] = ('coll', i)
        else:
            self.pending[rank] = op

    def _alts(self, rank):
        op = self.pending[rank]
        k = op[0]
        if k in ('event', 'bad', 'iprobe', 'isend', 'irecv', 'test'):
            return [None]
        if k == 'send':
            return [None] if op[1]['taken'] or not op[1]['sync'] else []
        if k in ('recv', 'probe'):
            return [m['id'] for m in self._match(rank, op[1], op[2])]
        if k == 'wait':
            return self._req_alts(rank, op[1])
        if k == 'coll':
            slot = self.slots[op[1]]
            kind, root, _ = slot[rank]
            full = len(slot) == self.n
            if full:
                return [None]
            if self.synccoll or kind in ('barrier', 'allgather'):
                return []
            if kind in ('bcast', 'scatter'):
                return [None] if root in slot else []
            return [None] if rank != root else []
        raise AssertionError(k)

    def _req_alts(self, rank, rid):
        q = self.reqs[rid]
        if q[0] == 'isend':
            return [None] if q[1]['taken'] or not q[1]['sync'] else []
        return [m['id'] for m in self._match(rank, q[1], q[2])]

    def _take(self, mid):
        for i, m in enumerate(self.queue):
            if m['id'] == mid:
                del self.queue[i]
                m['taken'] = True
                return (m['src'], m['tag'], m['data'])
        raise AssertionError

    def _perform(self, rank, alt):
        op = self.pending.pop(rank)
        k = op[0]
        if k == 'bad':
            return ('raise', op[1])
        if k == 'event':
            if op[1] != 'hello':
                self.log.append((rank,) + tuple(op[1:]))
            return ('ok', None)
        if k == 'send':
            return ('ok', None)
        if k in ('isend', 'irecv'):
            rid = len(self.reqs)
            self.reqs[rid] = (k,) + tuple(op[1:])
            return ('ok', rid)
        if k == 'recv':
            v = self._take(alt)
            self.log.append((rank, 'recv', v[0], v[1]))
            return ('ok', v)
        if k == 'probe':
            m = [m for m in self.queue if m['id'] == alt][0]
            return ('ok', (m['src'], m['tag']))
        if k == 'iprobe':
            ms = self._match(rank, op[1], op[2])
            return ('ok', (ms[0]['src'], ms[0]['tag']) if ms else None)
        if k in ('wait', 'test'):
            alts = self._req_alts(rank, op[1])
            isend = self.reqs[op[1]][0] == 'isend'
            if k == 'test':
                if not alts:
                    return ('ok', (False, None))
                return ('ok', (True, None if isend else self._take(alts[0])))
            return ('ok', None if isend else self._take(alt))
        if k == 'coll':
            slot = self.slots[op[1]]
            kind, root, data = slot[rank]
            self.log.append((rank, 'coll', kind, op[1]))
            if kind == 'bcast':
                return ('ok', slot[root][2])
            if kind == 'scatter':
                return ('ok', pickle.dumps(pickle.loads(slot[root][2])[rank]))
            if kind in ('gather', 'allgather'):
                if kind == 'gather' and rank != root:
                    return ('ok', None)
                return ('ok', [slot[i][2] for i in range(self.n)])
            return ('ok', None)
        raise AssertionError(k)

    # ------------------------------------------------------------ main loop
    def run(self, main):
        self.start(main)
        try:
            for r in range(self.n):
                self._await(r)
            steps = 0
            while self.end is None:
                alts = [(r, a) for r in range(self.n) if r in self.pending
                        for a in self._alts(r)]
                if not alts:
                    if len(self.status) == self.n:
                        self.end = 'leftover' if self.queue else 'ok'
                    else:
                        self.end = 'deadlock: ' + '; '.join(
                            '%d in %s' % (r, self._descr(self.pending[r])) for r in sorted(self.pending))
                    break
                steps += 1
                if steps > self.limit:
                    self.end = 'no end after %d steps' % self.limit
                    break
                r, a = self.choose(self, alts)
                try:
                    self.conns[r].send(self._perform(r, a))
                except OSError:
                    pass
                self._await(r)
        finally:
            for pid in self.pids:
                try:
                    if len(self.status) < self.n:
                        os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            for pid in self.pids:
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            for c in self.conns:
                c.s.close()
        return self

    def _descr(self, op):
        if op[0] == 'coll':
            return self.slots[op[1]].__class__ and 'coll %d' % op[1]
        if op[0] == 'send':
            return 'send to %d' % op[1]['dst']
        return ' '.join(str(x) for x in op[:3])

    def _await(self, r):
        ok, _, _ = select.select([self.conns[r].s], [], [], self.timeout)
        if not ok:
            self.end = 'rank %d does not return' % r
            return
        try:
            op = self.conns[r].recv()
        except (EOFError, OSError):
            op = ('exit', 'died')
        if self.watch:
            for k, p in self.watch.diff():
                self.log.append((r, k, p))
        if op[0] == 'exit':
            self.status[r] = op[1]
            self.log.append((r, 'exit', op[1]))
            if op[1].startswith('Abort('):
                self.end = op[1]
                for o in range(self.n):
                    if o not in self.status:
                        self.log.append((o, 'exit', 'killed'))
        else:
            self._post(r, op)


# ------------------------------------------------------------------ schedules
def random_choice(rng):
    return lambda w, alts: rng.choice(alts)


def priorities(rng, n, changes=3, length=120):
    """Ranks have random priorities, changed at a few random steps (PCT)."""
    prio = list(range(n))
    rng.shuffle(prio)
    at = {rng.randint(1, length) for _ in range(changes)}
    st = [0]

    def choose(w, alts):
        st[0] += 1
        if st[0] in at:
            rng.shuffle(prio)
        top = max(prio[r] for r, _ in alts)
        return rng.choice([x for x in alts if prio[x[0]] == top])
    return choose


def holding(rng, p=.2, little=.005):
    """
    A rank may be held until no other can go on, above all when it has just
    made or removed a file (of a World with a Watch).
    """
    seen, held, at = {}, set(), [0]

    def choose(w, alts):
        prob = {}
        for e in w.log[at[0]:]:
            if e[1] in ('new', 'del', 'rep'):
                prob[e[0]] = max(prob.get(e[0], 0), little if e[2].endswith(('.nc', '.xml')) else p)
        at[0] = len(w.log)
        for r, op in w.pending.items():
            if op[0] == 'event' and seen.get(r) is not op:
                seen[r] = op
                if rng.random() < prob.get(r, little / 5):
                    held.add(r)
        free = [x for x in alts if x[0] not in held]
        if not free:
            held.discard(rng.choice(sorted({x[0] for x in alts})))
            free = [x for x in alts if x[0] not in held]
        return rng.choice(free)
    return choose


def by_completion(order, rng):
    """Receive from workers in this order of sources, where possible."""
    left = list(order)

    def choose(w, alts):
        src = {m['id']: m['src'] for m in w.queue}
        anyrecv = [x for x in alts if w.pending[x[0]][0] == 'recv' and w.pending[x[0]][1] == ANY]
        other = [x for x in alts if x not in anyrecv]
        want = left[0] if left else None
        for x in anyrecv:
            if want is None or src.get(x[1]) == want:
                if left:
                    left.pop(0)
                return x
        if other:
            return rng.choice(other)
        if left:
            left.pop(0)
        return rng.choice(alts)
    return choose


class Dfs:
    """Systematic enumeration of the choices, one execution after another."""

    def __init__(self):
        self.path = []           # [index, number of alternatives]
        self.pos = 0
        self.more = True

    def choose(self, w, alts):
        # only choices that matter: a rank's own step that nobody can see
        if self.pos < len(self.path):
            i = self.path[self.pos][0]
            if i >= len(alts):
                i = 0
        else:
            i = 0
            self.path.append([0, len(alts)])
        self.pos += 1
        return alts[i]

    def next(self):
        self.pos = 0
        while self.path and self.path[-1][0] + 1 >= self.path[-1][1]:
            self.path.pop()
        if not self.path:
            self.more = False
            return False
        self.path[-1][0] += 1
        return True


# ------------------------------------------------------------------- observing
def hook_code(fn, replacement):
    """
    Replace the body of a function of the code under test, wherever it has
    been imported, by a call of replacement(args, kwargs).
    """
    while hasattr(fn, '__wrapped__'):
        fn = fn.__wrapped__
    name = '_hook_%d' % id(fn)
    HOOKS[name] = replacement
    src = ('def f(*a, **k):\n'
           '    import fakempi\n'
           '    return fakempi.HOOKS[%r](a, k)\n' % name)
    ns = {}
    exec(src, ns)
    if fn.__code__.co_freevars:
        raise ValueError('closure')
    fn.__code__ = ns['f'].__code__
    fn.__defaults__ = None
    fn.__kwdefaults__ = None


HOOKS = {}
FS_EVENTS = {'os.mkdir': 0, 'os.rmdir': 0, 'os.remove': 0, 'shutil.rmtree': 0, 'os.rename': 0}


def audit_fs(folder, conn):
    """File-system calls in the folder become points where others may run."""
    busy = [False]
    folder = os.path.realpath(folder)

    def hook(event, args):
        if event in FS_EVENTS and not busy[0]:
            busy[0] = True
            try:
                p = args[0]
                p = os.fsdecode(p) if isinstance(p, (str, bytes, os.PathLike)) else ''
                if len(args) > 1 and isinstance(args[1], int) and args[1] >= 0 and event != 'os.mkdir' \
                        and not os.path.isabs(p):
                    try:
                        p = os.path.join(os.readlink('/proc/self/fd/%d' % args[1]), p)
                    except OSError:
                        pass
                q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
                if q == folder or q.startswith(folder + os.sep):
                    conn.call('event', 'fs', event, os.path.relpath(q, folder))
            finally:
                busy[0] = False
    sys.addaudithook(hook)
