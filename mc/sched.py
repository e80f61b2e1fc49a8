"""A controlled scheduler for two threads.

``Run(fns, plan, prefix)()`` executes two functions in two threads of which
only one runs at a time.  Every line executed, and every return made, in a
source file under ``prefix`` is a scheduling point; with ``opcodes`` every
bytecode instruction is.  ``plan`` lists after how many points the running
thread is preempted: thread 0 runs until it has passed plan[0] points, then
thread 1 until it has passed plan[1], and so on in turn; when the plan is used
up, or a thread ends, the other one runs to its end.  The execution is a
function of the plan alone, unless a thread waits for a lock that the
preempted one holds; then both run.
"""
import _thread
import sys
import threading

WAIT = 0.5          # seconds without progress before both threads run
blocked_runs = 0    # in this process


class Run:
    def __init__(self, fns, plan, prefix, opcodes=False):
        self.fns = fns
        self.plan = list(plan)
        self.prefix = prefix
        self.opcodes = opcodes
        self.points = [0, 0]       # scheduling points passed
        self.since = 0             # points since the last switch
        self.done = [False, False]
        self.results = [None, None]
        self.turn = [_thread.allocate_lock(), _thread.allocate_lock()]
        for lock in self.turn:
            lock.acquire()
        self.switches = 0
        self.blocked = False

    def go(self, who):
        try:
            self.turn[who].release()
        except RuntimeError:
            pass                   # It was free to go already.

    def point(self, me):
        global blocked_runs
        self.points[me] += 1
        self.since += 1
        if self.plan and not self.blocked and self.since >= self.plan[0] and \
                not self.done[1 - me]:
            self.plan.pop(0)
            self.since = 0
            self.switches += 1
            self.go(1 - me)
            seen = None
            wait = WAIT if blocked_runs < 20 else 0.005
            while not self.turn[me].acquire(timeout=wait):
                if seen == self.points[1 - me]:
                    # The other thread makes no progress: it waits for
                    # something that this one holds.  Let both run.
                    self.blocked = True
                    blocked_runs += 1
                    return
                seen = self.points[1 - me]

    def body(self, me):
        prefix = self.prefix
        point = self.point
        opcodes = self.opcodes
        if opcodes:
            def local(frame, event, arg):
                if event in ('opcode', 'return'):
                    point(me)
                return local

            def tracer(frame, event, arg):
                if frame.f_code.co_filename.startswith(prefix):
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                    return local
        else:
            def local(frame, event, arg):
                if event == 'line' or event == 'return':
                    point(me)
                return local

            def tracer(frame, event, arg):
                if frame.f_code.co_filename.startswith(prefix):
                    return local
        self.turn[me].acquire()
        # Nobody is preempted any more: no need to follow what runs.
        if self.plan:
            sys.settrace(tracer)
        try:
            out = ('value', self.fns[me]())
        except Exception as err:
            out = ('error', type(err), str(err))
        finally:
            sys.settrace(None)
        self.results[me] = out
        self.done[me] = True
        self.since = 0
        # Whoever has not finished goes on.
        self.go(1 - me)

    def __call__(self):
        # The caller plays thread 0.
        other = threading.Thread(target=self.body, args=(1,), daemon=True)
        other.start()
        self.go(0)
        self.body(0)
        other.join()
        return self.results


def count(fn, prefix, opcodes=False):
    """Scheduling points of fn on its own."""
    r = Run([fn, lambda: None], [10 ** 9], prefix, opcodes)
    r()
    return r.points[0]


def explore(make, prefix, preemptions, opcodes=False):
    """Every schedule of the two functions returned by ``make()`` with up to
    ``preemptions`` (1 or 2) preemptive switches, thread 0 first.  Yields
    (plan, results, switches made).

    The points of each thread are counted in each execution, so that the
    enumeration is complete even where one function changes what the other
    does."""
    k = 0
    while True:
        k += 1
        r = Run(make(), [k], prefix, opcodes)
        res = r()
        if r.switches == 0:
            # Thread 0 has fewer points than k: the serial execution.
            yield (), res, 0
            return
        yield (k,), res, 1
        if preemptions < 2:
            continue
        j = 0
        while True:
            j += 1
            r = Run(make(), [k, j], prefix, opcodes)
            res = r()
            if r.switches < 2:
                break
            yield (k, j), res, 2
