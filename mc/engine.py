"""Bounded exhaustive exploration of the real paragami code.

A check is a function ``run(ctx)`` that walks a finite choice tree with
``ctx.each`` / ``ctx.shard`` (every option of every choice point is taken),
executes the real API in every node and compares what it observes with an
independent reference model.  Nothing is sampled: the tree is a pure function
of the tier, and every violation records the path of choices that led to it,
so that ``run.py <ID> --replay FILE`` executes exactly that path again.
"""
import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

import numpy as np

MAX_VIOLATIONS_PER_WORKER = 4


class Mismatch(Exception):
    """The implementation disagreed with the reference model."""


class StopExploration(Exception):
    pass


class ReplayDiverged(Exception):
    pass


def show(x, limit=300):
    try:
        if isinstance(x, np.ndarray):
            s = 'array(shape={}, dtype={}, {})'.format(
                x.shape, x.dtype, np.array2string(
                    x, precision=17, threshold=12).replace('\n', ' '))
        else:
            s = repr(x)
    except Exception as err:  # a broken repr must not hide the violation
        s = '<unprintable {}: {}>'.format(type(x).__name__, err)
    s = ' '.join(s.split())
    return s if len(s) <= limit else s[:limit] + '...'


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(b'A' + str(x.dtype).encode() + str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b'D')
        for k, v in x.items():
            _feed(h, k)
            _feed(h, v)
    elif isinstance(x, (list, tuple)):
        h.update(b'L')
        for v in x:
            _feed(h, v)
        h.update(b'E')
    else:
        h.update(repr(x).encode() + b';')


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, parts)
    return h.digest()


class Ctx:
    def __init__(self, prop, tier, worker=0, nworkers=1, replay=None,
                 scratch=None):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.worker = worker
        self.nworkers = nworkers
        self.replay = replay          # list of [label, index] or None
        self.scratch = scratch
        self.path = []
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = collections.Counter()
        self.nodes = collections.Counter()
        self.bounds = {}
        self.violations = []
        self._shard_depth = None

    # ---- choice points -------------------------------------------------
    def _want(self, depth, label, n):
        """Index demanded by the replayed path at this depth, or None."""
        if self.replay is None or depth >= len(self.replay):
            return None
        want_label, want = self.replay[depth][0], self.replay[depth][1]
        if want_label != label or want >= n:
            if want_label != label:
                return -1       # another branch of the check
            raise ReplayDiverged(
                'choice {} has {} options, replay wants {}'.format(
                    label, n, want))
        return want

    def each(self, label, options):
        """Branch over every option."""
        options = list(options)
        depth = len(self.path)
        want = self._want(depth, label, len(options))
        for i, opt in enumerate(options):
            if want is not None and i != want:
                continue
            del self.path[depth:]
            self.path.append((label, i, opt))
            self.nodes[label] += 1
            yield opt
        del self.path[depth:]

    def mine(self, i):
        """Whether item i of a shared-out list belongs to this worker."""
        return ((i * 0x9E3779B1 & 0xffffffff) >> 16) % self.nworkers \
            == self.worker

    def shard(self, label, options):
        """Branch over every option; the workers share the options out."""
        options = list(options)
        depth = len(self.path)
        want = self._want(depth, label, len(options))
        for i, opt in enumerate(options):
            if want is not None:
                if i != want:
                    continue
            elif not self.mine(i):
                continue
            del self.path[depth:]
            self.path.append((label, i, opt))
            self.nodes[label] += 1
            yield opt
        del self.path[depth:]

    # ---- accounting ----------------------------------------------------
    def state(self, *parts):
        """Note a distinct state; True if it had not been seen."""
        d = digest(*parts)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def op(self, n=1):
        self.transitions += n

    def trace(self, sample=None):
        self.traces += 1
        if len(self.samples) < 6 and (
                self.traces in (1, 7, 53, 401, 3001, 20011)):
            self.samples.append({
                'path': [[l, i, show(o, 80)] for l, i, o in self.path][-6:],
                'observed': show(sample, 160) if sample is not None else ''})

    def outcome(self, label):
        self.outcomes[label] += 1

    # ---- verdicts ------------------------------------------------------
    def case(self, what=''):
        return _Case(self, what)

    def expect(self, cond, msg, *args):
        if not cond:
            raise Mismatch(msg.format(*[show(a) for a in args]))

    def raises(self, exc, fn, what):
        """``fn`` must raise ``exc`` (an error of any other type, or none, is
        a mismatch)."""
        self.op()
        try:
            got = fn()
        except exc:
            return True
        except Exception as err:
            raise Mismatch('{}: expected {}, got {}: {}'.format(
                what, _exc_names(exc), type(err).__name__, show(str(err))))
        raise Mismatch('{}: expected {}, but the call returned {}'.format(
            what, _exc_names(exc), show(got)))

    def violate(self, what, detail):
        # The identity of the violation: the case plus the choices taken.
        key = what + ' | ' + ' / '.join(
            '{}={}'.format(l, show(o, 60)) for l, _, o in self.path)
        self.violations.append({
            'key': key, 'what': what, 'detail': detail,
            'path': [[l, i, show(o, 400)] for l, i, o in self.path]})
        if len(self.violations) >= MAX_VIOLATIONS_PER_WORKER:
            raise StopExploration()

    def result(self):
        return {
            'states': self.states, 'transitions': self.transitions,
            'traces': self.traces, 'samples': self.samples,
            'outcomes': self.outcomes, 'nodes': self.nodes,
            'bounds': self.bounds, 'violations': self.violations}


def _exc_names(exc):
    if isinstance(exc, tuple):
        return ' or '.join(e.__name__ for e in exc)
    return exc.__name__


class _Case:
    """One execution.  Any exception escaping it is a violation: either a
    Mismatch, or an error the reference model does not predict."""
    def __init__(self, ctx, what):
        self.ctx = ctx
        self.what = what

    def __enter__(self):
        self.depth = len(self.ctx.path)
        return self

    def __exit__(self, etype, err, tb):
        ctx = self.ctx
        if etype is None:
            ctx.trace()
            return False
        if not issubclass(etype, Exception) or issubclass(
                etype, (StopExploration, ReplayDiverged)):
            return False
        if issubclass(etype, Mismatch):
            detail = str(err)
        else:
            last = traceback.extract_tb(tb)[-1]
            detail = 'unexpected {}: {} at {}:{}'.format(
                etype.__name__, show(str(err)),
                os.path.basename(last.filename), last.name)
        saved = list(ctx.path)
        ctx.violate(self.what, detail)
        del saved
        del ctx.path[self.depth:]
        return True


# ---- operation histories ----------------------------------------------
def histories(ctx, label, make, ops, step, depth, canon=None,
              dedup_from=None):
    """Breadth-first search over operation histories.

    make()            -> (real, model), both fresh
    ops(model)        -> list of enabled operations (printable)
    step(real, model, op, ctx) -> performs op on both, compares every
                         observation, and may raise Mismatch; with real=None
                         it only updates the model
    canon(model)      -> hashable canonical form of the model state

    Every history up to length ``dedup_from`` is executed; deeper ones extend
    only the first history that reaches each distinct model state.  The
    search itself runs on the model; every history in it is then executed on
    fresh real objects and compared with the model after every operation.
    The histories are shared out between the workers.

    While a history runs, ctx.hist_len and ctx.hist_pos tell its length and
    the current position.
    """
    if dedup_from is None:
        dedup_from = depth
    if ctx.replay is not None:
        # The path element that follows holds the indices of the history.
        d = len(ctx.path)
        if d < len(ctx.replay) and ctx.replay[d][0] == label:
            want = ctx.replay[d][1]
            if not isinstance(want, (list, tuple)):
                raise ReplayDiverged('history expected')
            _run_history(ctx, label, make, ops, step, tuple(want), canon)
        return
    frontier = [()]
    seen = set()
    plan = []
    level = 0
    while frontier and level < depth:
        nxt = []
        for hist in frontier:
            base = make()[1]
            for i in hist:
                step(None, base, ops(base)[i], None)
            nops = len(ops(base))
            for i in range(nops):
                h = hist + (i,)
                plan.append(h)
                if level + 1 < dedup_from:
                    nxt.append(h)
                    continue
                model = make()[1]
                for k in h:
                    step(None, model, ops(model)[k], None)
                c = canon(model)
                if c not in seen:
                    seen.add(c)
                    nxt.append(h)
        frontier = nxt
        level += 1
    for n, h in enumerate(plan):
        if ctx.mine(n):
            _run_history(ctx, label, make, ops, step, h, canon)
    ctx.bounds[label] = {
        'history_depth': depth, 'all_histories_up_to': dedup_from,
        'histories': len(plan), 'completed_depth': level,
        'model_states_at_or_beyond_dedup': len(seen),
        'frontier_empty': not frontier}


def _run_history(ctx, label, make, ops, step, hist, canon):
    depth = len(ctx.path)
    names = []
    ctx.path.append((label, list(hist), names))
    result = None
    with ctx.case('history'):
        real, model = make()
        ctx.hist_len = len(hist)
        for pos, i in enumerate(hist):
            op = ops(model)[i]
            names.append(op)
            ctx.hist_pos = pos + 1
            step(real, model, op, ctx)
            ctx.op()
        c = canon(model) if canon is not None else repr(names)
        ctx.state(label, c)
        result = c if c is not None else True
    del ctx.path[depth:]
    return result


# ---- running a check over worker processes ----------------------------
def _worker(conn, fn, prop, tier, w, n, scratch):
    try:
        ctx = Ctx(prop, tier, w, n, scratch=scratch)
        try:
            fn(ctx)
        except StopExploration:
            pass
        except Exception:
            try:
                ctx.violate('unhandled', 'unexpected exception outside a '
                            'case: ' + traceback.format_exc()[-1500:])
            except StopExploration:
                pass
        conn.send(ctx.result())
    except BaseException:
        conn.send({'crash': traceback.format_exc()})
    finally:
        conn.close()


def explore(fn, prop, tier, nworkers, scratch, hang_s):
    """Run the check in worker processes and merge what they covered."""
    mp = multiprocessing.get_context('fork')
    procs = []
    t0 = time.time()
    for w in range(nworkers):
        a, b = mp.Pipe(duplex=False)
        sdir = os.path.join(scratch, 'w{}'.format(w))
        os.makedirs(sdir, exist_ok=True)
        p = mp.Process(target=_worker,
                       args=(b, fn, prop, tier, w, nworkers, sdir))
        p.start()
        b.close()
        procs.append((p, a))
    merged = Ctx(prop, tier)
    for w, (p, a) in enumerate(procs):
        res = None
        left = None if hang_s is None else max(1.0, hang_s - (time.time() - t0))
        try:
            if a.poll(left):
                res = a.recv()
            else:
                merged.violations.append({
                    'key': 'hang', 'what': 'hang', 'path': [],
                    'detail': 'worker {} did not terminate in {} s'.format(
                        w, hang_s)})
                os.kill(p.pid, signal.SIGKILL)
        except EOFError:
            pass
        p.join()
        if res is None:
            if not any(v['key'] == 'hang' for v in merged.violations):
                merged.violations.append({
                    'key': 'crash', 'what': 'crash', 'path': [],
                    'detail': 'worker {} died with exit code {}'.format(
                        w, p.exitcode)})
            continue
        if 'crash' in res:
            merged.violations.append({
                'key': 'crash', 'what': 'crash', 'path': [],
                'detail': res['crash'][-1500:]})
            continue
        merged.states |= res['states']
        merged.transitions += res['transitions']
        merged.traces += res['traces']
        merged.samples += res['samples']
        merged.outcomes.update(res['outcomes'])
        merged.nodes.update(res['nodes'])
        merged.bounds.update(res['bounds'])
        merged.violations += res['violations']
    return merged
