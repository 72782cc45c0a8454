"""A controlled scheduler for two threads of real library code.

Every execution runs in a forked child of a process that has imported the
library but never used it, so class tables are in the state of a first use.  A
step is one source line (or one bytecode instruction) of a file of asn1crypto.
A schedule is a list of segment lengths (n0, n1, ...): the first thread runs n0
steps, the other n1 steps, the first again, and so on; after the last segment
the other thread runs to its end, then the remaining one.  A thread that is
blocked (on a lock the other holds) gives way, so code that uses locks is
explored without deadlocks of the harness."""
import os
import pickle
import signal
import sys
import threading

from .common import REPO

BASE = os.path.join(os.path.realpath(REPO), 'asn1crypto') + os.sep


class Sched(object):
    def __init__(self, plan, opcodes):
        self.plan = list(plan)
        self.turn = threading.Condition()
        self.current = 0
        self.left = self.plan.pop(0) if self.plan else None
        self.done = [False, False]
        self.steps = [0, 0]
        self.tid = [None, None]
        self.opcodes = opcodes
        self.blocked = 0
        self.switches = 0

    # ------------------------------------------------------------ inside the threads
    def step(self, me):
        self.steps[me] += 1
        if self.current != me:
            # the other thread took over because it believed this one blocked
            self.wait(me)
            return
        if self.left is None:
            return
        if self.left == 0:
            self.switches += 1
            self.left = self.plan.pop(0) if self.plan else None
            self.handover(me)
            return
        self.left -= 1

    def handover(self, me):
        with self.turn:
            if self.done[1 - me]:
                return
            self.current = 1 - me
            self.turn.notify_all()
        self.wait(me)

    def state_of(self, who):
        try:
            with open('/proc/self/task/%d/stat' % self.tid[who]) as f:
                return f.read().rsplit(')', 1)[1].split()[0]
        except (OSError, IOError, TypeError):
            return '?'

    def wait(self, me):
        other = 1 - me
        idle, last = 0, -1
        with self.turn:
            while self.current != me:
                self.turn.wait(0.001)
                if self.current == me:
                    break
                if self.done[other]:
                    self.current = me
                    break
                if self.steps[other] == last and self.state_of(other) == 'S':
                    idle += 1
                else:
                    idle = 0
                last = self.steps[other]
                if idle >= 3:
                    # it sleeps: it waits for something this thread holds,
                    # and will wait again when it arrives at its next step
                    self.blocked += 1
                    self.current = me
                    self.left = None

    def thread(self, me, f, out, gate):
        self.tid[me] = threading.get_native_id()
        gate.wait()
        if me == 1:
            self.wait(1)
        try:
            IDS[threading.get_ident()] = me
            try:
                out[me] = ('ok', f())
            except Exception as e:
                out[me] = ('err', '%s: %s' % (type(e).__name__, e))
        finally:
            IDS.pop(threading.get_ident())
            with self.turn:
                self.done[me] = True
                if self.current == me:
                    self.current = 1 - me
                    self.left = None
                self.turn.notify_all()


IDS = {}
TOOL = 4


def watch(step, opcodes):
    """step(who) before every line, or instruction, of the library that a registered thread executes"""
    mon = sys.monitoring
    ident = threading.get_ident
    off = mon.DISABLE

    def event(code, where):
        if not code.co_filename.startswith(BASE):
            return off
        me = IDS.get(ident())
        if me is not None:
            step(me)
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'sched')
    ev = mon.events.INSTRUCTION if opcodes else mon.events.LINE
    mon.register_callback(TOOL, ev, event)
    mon.set_events(TOOL, ev)


def unwatch():
    sys.monitoring.set_events(TOOL, 0)


def in_child(f, seconds=60):
    """the value of f() computed in a forked child, or ('died', why)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.alarm(seconds)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                val = f()
            except BaseException as e:
                val = ('died', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as fh:
                fh.write(pickle.dumps(val))
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ('died', 'the process was ended after %d s: the threads made no progress' % seconds)
    return pickle.loads(data)


def run(fs, plan, opcodes=False):
    """to be called in a child: results of both, what they return when run again afterwards, steps, blocked, switches"""
    s = Sched(plan, opcodes)
    out = [None, None]
    gate = threading.Barrier(3)
    watch(s.step, opcodes)
    ts = [threading.Thread(target=s.thread, args=(i, fs[i], out, gate), daemon=True) for i in (0, 1)]
    for t in ts:
        t.start()
    gate.wait()
    for t in ts:
        t.join()
    unwatch()
    again = []
    for f in fs:
        try:
            again.append(('ok', f()))
        except Exception as e:
            again.append(('err', '%s: %s' % (type(e).__name__, e)))
    return ('ran', out, again, s.steps, s.blocked, s.switches)


def count(f, opcodes=False):
    """steps of f alone"""
    n = [0]

    def step(me):
        n[0] += 1
    IDS[threading.get_ident()] = 0
    watch(step, opcodes)
    try:
        out = ('ok', f())
    except Exception as e:
        out = ('err', '%s: %s' % (type(e).__name__, e))
    unwatch()
    return (out, n[0])
