"""A cooperative scheduler: the bodies run in real threads, exactly one at a time, and change hands only at points chosen
by the explorer. Staying with the running thread is the default, a switch away from it counts as a preemption."""
import threading


class Abort(BaseException):
    """The execution was given up"""


class Scheduler:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bodies, self.results, self.errors = [], [], []
        self.wake = threading.Semaphore(0)
        self.go, self.done = [], []
        self.current = None
        self.ident = {}
        self.aborted = False
        self.trace = []

    def add(self, body):
        self.bodies.append(body)
        self.results.append(None)
        self.errors.append(None)
        self.go.append(threading.Semaphore(0))
        self.done.append(False)

    def _main(self, i):
        self.ident[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if not self.aborted:
                self.results[i] = self.bodies[i]()
        except Abort:
            pass
        except BaseException as ex:
            self.errors[i] = ex
        self.done[i] = True
        self.wake.release()

    def point(self, label=""):
        """A scheduling point of the running thread (of other threads: nothing happens)"""
        i = self.ident.get(threading.get_ident())
        if i is None or self.aborted:
            return
        self.trace.append((i, label))
        self.wake.release()
        self.go[i].acquire()
        if self.aborted:
            raise Abort()

    def run(self):
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in threads:
            t.start()
        try:
            while True:
                enabled = [i for i in range(len(self.bodies)) if not self.done[i]]
                if not enabled:
                    break
                staying = self.current in enabled
                if staying:
                    enabled = [self.current] + [i for i in enabled if i != self.current]
                c = self.ctx.choose(len(enabled), "sched", free=not staying) if len(enabled) > 1 else 0
                self.current = enabled[c]
                self.ctx.steps += 1
                self.go[self.current].release()
                self.wake.acquire()
        except BaseException:
            self.aborted = True
            for i in range(len(self.bodies)):
                self.go[i].release()
            raise
        for t in threads:
            t.join(20)
        return self
