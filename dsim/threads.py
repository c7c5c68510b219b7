"""
Deterministic threads inside one simulated process.

Every task is a real thread, but only the one holding the baton runs. It hands the baton over at the source lines of the
traced folder and at the seams, whenever a seeded generator says so; every decision is an operation of the simulator and
part of the recorded trace.
"""
import random
import sys
import threading

from dsim import seams


class Tasks:
    def __init__(self, seed, rate, folder):
        self.rng = random.Random('tasks/%s' % seed)
        self.rate, self.folder = rate, folder
        self.locks, self.live, self.cur = [], [], None
        self.switches = 0

    def _next(self):
        k = self.rng.choice(self.live)
        if seams.KERNEL is not None:
            seams.KERNEL.op('pick', None, n=k)
        return k

    def _maybe(self, me):
        if len(self.live) < 2 or self.rng.random() >= self.rate:
            return
        k = self._next()
        if k != me:
            self.switches += 1
            self.cur = k
            self.locks[k].release()
            self.locks[me].acquire()

    def run(self, bodies):
        """Runs the bodies to their end, interleaved. An exception of a body is raised at the end."""
        n = len(bodies)
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        done, errors = threading.Semaphore(0), []
        known = {}

        def body(me):
            def local(frame, event, arg):
                if event == 'line' and self.cur == me:
                    self._maybe(me)
                return local

            def glob(frame, event, arg):
                f = frame.f_code.co_filename
                r = known.get(f)
                if r is None:
                    r = known[f] = f.startswith(self.folder)
                return local if r else None
            self.locks[me].acquire()
            sys.settrace(glob)
            try:
                bodies[me]()
            except BaseException as e:
                errors.append(e)
            finally:
                sys.settrace(None)
                self.live.remove(me)
                if self.live:
                    k = self._next()
                    self.cur = k
                    self.locks[k].release()
                else:
                    done.release()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.cur = self._next()
        self.locks[self.cur].release()
        done.acquire()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
