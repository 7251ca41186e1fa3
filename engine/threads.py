"""Runs functions in threads that take turns as a schedule says, so that an interleaving is an input like any other.

Each thread is traced: after every line run in the code of interest it may have to give the turn to another one. The schedule is a list of
(thread, number of lines); when it is over each thread runs to its end. A thread that cannot go on in its turn (it waits for a lock of another)
loses it after a while.
"""
import sys
import threading

PATIENCE = 0.05  # seconds


class Turns(object):
    def __init__(self, n, schedule):
        self.alive = set(range(n))
        self.schedule = list(schedule)[::-1]
        self.cond = threading.Condition()
        self.turn = None
        self.left = 0
        self.events = 0
        self.switches = 0
        self.over = False  # each thread runs to its end now
        self.cold = n
        self.advance()

    def advance(self):
        while self.schedule:
            who, lines = self.schedule.pop()
            if who in self.alive:
                self.turn, self.left = who, lines
                break
        else:
            self.over = True
            self.turn, self.left = (min(self.alive) if self.alive else None), float('inf')
        self.cond.notify_all() if self.cond._is_owned() else None

    def wait(self, me):
        """With the condition acquired; returns when it is our turn."""
        seen = None
        while self.turn != me:
            seen = self.events
            self.cond.wait(0.3 if self.over else PATIENCE)
            if self.turn != me and self.events == seen:  # the other one is stuck
                self.turn = me
        self.events += 1

    def warmed(self, me):
        with self.cond:
            self.cold -= 1
            self.cond.notify_all()
            while self.cold:
                self.cond.wait()

    def start(self, me):
        with self.cond:
            self.wait(me)

    def line(self, me):
        with self.cond:
            if self.turn == me:
                self.events += 1
                self.left -= 1
                if self.left > 0:
                    return
                self.advance()
                if self.turn == me:
                    return
                self.switches += 1
            self.wait(me)

    def end(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me or self.turn not in self.alive:
                self.advance()


WARMING = threading.Lock()


def run(functions, schedule, interesting, warm=None):
    """Returns the list with the results of the functions, and the number of times that the turn went to another thread in the middle of something.

    interesting: function from file name to whether its lines count.
    warm: what each thread does first, not interleaved.
    """
    turns = Turns(len(functions), schedule)
    results = [None] * len(functions)
    cache = {}

    def body(me):
        def local(frame, event, arg):
            if event == 'line' and not turns.over:
                turns.line(me)
            return local

        def tracer(frame, event, arg):
            if turns.over:
                sys.settrace(None)
                return None
            name = frame.f_code.co_filename
            if name not in cache:
                cache[name] = bool(interesting(name))
            if cache[name]:
                turns.line(me)
                return local

        if warm is not None:
            with WARMING:
                warm()
            turns.warmed(me)
        turns.start(me)
        sys.settrace(tracer)
        try:
            results[me] = ('ok', functions[me]())
        except Exception as e:
            results[me] = ('raised', type(e).__name__, str(e))
        finally:
            sys.settrace(None)
            turns.end(me)
    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(functions))]
    for t in threads:
        t.daemon = True
        t.start()
    for t in threads:
        t.join(120)
        if t.is_alive():
            raise RuntimeError('the threads do not end')
    return results, turns.switches
