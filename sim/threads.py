"""
Simulated thread schedules: real threads that run strictly one at a time and are switched only at instants of the library
(see monitor.py), as a given list of [thread, number of instants] says. The same list gives the same execution.
"""
import threading

from . import monitor
from .core import HarnessError

BLOCKED_S = 0.5   # a thread that reaches no instant for so long waits for another one (for a lock, say)


class Killed(BaseException):
    """Raised in a thread at the instant at which the scenario stops it."""


class Worker:
    def __init__(self, sched, index, job):
        self.sched, self.index, self.job = sched, index, job
        self.go = threading.Semaphore(0)
        self.budget = 0
        self.done = False
        self.blocked = False
        self.instants = 0
        self.visits = {}
        self.result = self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.sched.by_ident[threading.get_ident()] = self
        self.sched.started.release()
        self.go.acquire()
        try:
            self.result = self.job()
        except BaseException as e:  # pylint: disable=broad-except
            self.error = e
        self.done = True
        self.sched.back.release()


class Scheduler:
    """
    Runs the jobs under the schedule; afterwards .workers hold their results. With rare given, quanta are spent only by
    the first so many visits of a thread to each kind of instant of a function, since most instants are in a few inner loops.
    """

    def __init__(self, jobs, schedule, kills=None, rare=None):
        self.rare = rare
        self.schedule = schedule
        self.kills = {int(k): v for k, v in (kills or {}).items()}   # thread -> instant
        self.killed = []
        self.by_ident = {}
        self.back = threading.Semaphore(0)
        self.started = threading.Semaphore(0)
        self.current = None
        self.switches = 0
        self.inside = 0      # switches away from a thread that was in the middle of its job
        self.points = []     # where threads were preempted
        self.workers = [Worker(self, i, j) for i, j in enumerate(jobs)]

    def hook(self, code, kind):
        w = self.by_ident.get(threading.get_ident())
        if w is None:
            return
        w.instants += 1
        if w is not self.current:
            # it was waiting for another thread and can go on now: it does so when it is next scheduled
            w.blocked = False
            w.go.acquire()
            return
        if self.rare is not None:
            place = code.co_qualname, kind
            w.visits[place] = w.visits.get(place, 0) + 1
        if self.rare is None or w.visits[place] <= self.rare:
            w.budget -= 1
        if w.budget < 0:
            self.points.append((w.index, code.co_qualname, kind))
            self.back.release()
            w.go.acquire()
        if w.index in self.kills and w.instants > self.kills[w.index] and w.index not in self.killed:
            self.killed.append(w.index)
            raise Killed(f"{code.co_qualname} ({kind})")

    def run_one(self, w, quantum):
        self.current = w
        w.budget = quantum
        w.blocked = False
        self.switches += 1
        w.go.release()
        if not self.back.acquire(timeout=BLOCKED_S):
            # no instant reached: it waits for a lock, or is in a long native call
            w.blocked = True
            self.current = None

    def run(self):
        with monitor.Instants(self.hook):
            for w in self.workers:
                w.thread.start()
            for _ in self.workers:
                self.started.acquire()
            for tid, quantum in self.schedule:
                w = self.workers[tid % len(self.workers)]
                if not w.done and not w.blocked:
                    self.run_one(w, quantum)
            idle = 0
            while not all(w.done for w in self.workers):
                ran = False
                for w in self.workers:
                    if not w.done and not w.blocked:
                        ran = True
                        self.run_one(w, 5000)
                if not ran:
                    idle += 1
                    for w in self.workers:
                        w.thread.join(0.2)
                    if idle > 25:
                        return False   # deadlock
            for w in self.workers:
                w.thread.join(5)
                if w.thread.is_alive():
                    raise HarnessError("a finished thread is still alive")
        return True


def gen_schedule(rng, n_threads):
    """A list of [thread, quantum]: from a few long to many short turns, over the beginning or the whole of the work."""
    out = []
    high = rng.choice([2, 5, 20, 200, 2000])
    n = rng.choice([2, 5, 20, 60, 250])
    if high >= 200:
        n = min(n, 60)
    turn = rng.random() < 0.3
    for i in range(n):
        t = i % n_threads if turn else rng.randrange(n_threads)
        out.append([t, int(round(high ** rng.random())) - (1 if rng.random() < 0.3 else 0)])
    if rng.random() < 0.5:
        # first, some threads get into the middle of something
        for t in rng.sample(range(n_threads), rng.randrange(1, n_threads + 1)):
            out.insert(0, [t, rng.randrange(0, 400)])
    return out
