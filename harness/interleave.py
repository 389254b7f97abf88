"""Deterministic interleaving of Python threads: a thread stops after a given number of byte codes (or
lines) executed in the files under observation, and another one continues."""
import sys, threading, time


class Scheduler:
    def __init__(self, prefix, plan, opcodes=True, stall=0.05):
        """plan: list of (thread, steps); after the plan the threads run to completion in order."""
        self.prefix, self.plan, self.opcodes = prefix, list(plan), opcodes
        self.stall = stall
        self.cv = threading.Condition()
        self.cur = None
        self.left = 0
        self.alive = set()
        self.steps = {}
        self.progress = 0
        self.stalls = 0

    def next_segment(self):
        while self.plan:
            t, n = self.plan.pop(0)
            if t in self.alive:
                self.cur, self.left = t, n
                return
        self.cur, self.left = (min(self.alive) if self.alive else None), float("inf")

    def wait_turn(self, t):
        # called with the lock held
        while self.cur != t:
            seen = self.progress
            if not self.cv.wait(self.stall) and seen == self.progress and self.cur != t:
                # the running thread is blocked (it waits for a lock): let this one run
                self.stalls += 1
                self.cur, self.left = t, float("inf")
                self.cv.notify_all()

    def point(self, t):
        with self.cv:
            self.progress += 1
            self.steps[t] = self.steps.get(t, 0) + 1
            if self.cur == t:
                if self.left <= 0:
                    self.next_segment()
                    self.cv.notify_all()
                    self.wait_turn(t)
                self.left -= 1
            else:
                self.wait_turn(t)

    def trace(self, t):
        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not self.opcodes):
                self.point(t)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                frame.f_trace_opcodes = self.opcodes
                return local
            return None
        return glob

    def run(self, fns):
        out = [None] * len(fns)
        self.alive = set(range(len(fns)))
        started = threading.Barrier(len(fns) + 1)

        def body(t):
            started.wait()
            with self.cv:
                self.wait_turn(t)
            sys.settrace(self.trace(t))
            try:
                out[t] = fns[t]()
            finally:
                sys.settrace(None)
                with self.cv:
                    self.progress += 1
                    self.alive.discard(t)
                    if self.cur == t:
                        self.next_segment()
                    self.cv.notify_all()
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(fns))]
        for th in ths:
            th.start()
        with self.cv:
            self.next_segment()
        started.wait()
        for th in ths:
            th.join(30)
        return out
