"""Simulated threads: several user sessions inside one process, one running at a time.

Every session is a real thread, but it only runs while it holds the baton.  The baton changes hands at
statements of the code under test, at points chosen by an explicit plan: after given numbers of
statements, and whenever a chosen source line is about to be executed.  The order of everything is a
function of the plan alone.
"""
import threading
from .core import SIM, HarnessError

MAX_SWITCHES = 4000
WAIT = 240


class Baton:
    def __init__(self, bodies, after, gaps, spots, spot_hits=60):
        """bodies: list of functions; after[k]: session that must have ended before k starts (or None);
        gaps: list of (statements, choice); spots: set of (file, line)."""
        self.bodies, self.after = bodies, after
        self.gaps = list(gaps)
        self.spots, self.spot_left = set(spots), spot_hits
        n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.out = [None] * n
        self.cur = None
        self.left = None
        self.switches = 0
        self.lines = 0
        self.trace = []
        self.finished = threading.Event()

    def runnable(self):
        return [k for k in range(len(self.bodies)) if not self.done[k] and (self.after[k] is None or self.done[self.after[k]])]

    def next_gap(self):
        if self.gaps:
            g, c = self.gaps.pop(0)
            return int(g), float(c)
        return None, 0.0

    # -- called in the thread that holds the baton
    def on_line(self, code, line):
        self.lines += 1
        go = False
        if code.co_name == "<module>":
            return            # never while an import lock is held
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                go = True
        if not go and self.spot_left > 0 and (code.co_filename, line) in self.spots:
            self.spot_left -= 1
            others = [k for k in self.runnable() if k != self.cur]
            if others:
                self.give(others[self.spot_left % len(others)], (code, line))
            return
        if go:
            choice = self.choice
            self.left, self.choice = self.next_gap()
            others = [k for k in self.runnable() if k != self.cur]
            if others and self.switches < MAX_SWITCHES:
                self.give(others[int(choice * len(others)) % len(others)], (code, line))

    def give(self, k, where):
        me = self.cur
        self.switches += 1
        if len(self.trace) < 40:
            self.trace.append((me, k, where[0].co_filename.rsplit("/", 1)[-1], where[0].co_qualname, where[1]))
        self.cur = k
        self.sem[k].release()
        if not self.sem[me].acquire(timeout=WAIT):
            raise HarnessError("a simulated thread never got the baton back")

    def body(self, k):
        self.sem[k].acquire(timeout=WAIT)
        try:
            self.out[k] = ("ok", self.bodies[k]())
        except BaseException as e:
            self.out[k] = ("error", e)
        self.done[k] = True
        rest = self.runnable()
        if rest:
            self.cur = rest[int(self.choice * len(rest)) % len(rest)]
            self.sem[self.cur].release()
        else:
            self.finished.set()

    def run(self):
        self.left, self.choice = self.next_gap()
        th = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.bodies))]
        for t in th:
            t.start()
        SIM.lines.scheduler = self
        SIM.lines.enable()
        try:
            self.cur = self.runnable()[0]
            self.sem[self.cur].release()
            if not self.finished.wait(WAIT):
                raise HarnessError("simulated threads did not finish")
        finally:
            SIM.lines.disable()
            SIM.lines.scheduler = None
        for t in th:
            t.join(10)
        for o in self.out:
            if o[0] == "error":
                raise o[1]
        return [o[1] for o in self.out]


class Recorder:
    """Scheduler that only records which lines a session executes."""

    def __init__(self):
        self.seen = {}

    def on_line(self, code, line):
        k = (code.co_filename, line)
        self.seen[k] = self.seen.get(k, 0) + 1
