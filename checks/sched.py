"""Runs functions as processes whose interleaving is chosen step by step.

Every function runs in its own thread, but only one runs at a time: at each
file-system step the thread hands control back and the next one to run is a
choice of the path (`pick`), so exploring all paths explores all schedules."""
import threading


class Stop(BaseException):
    pass


class Task(object):
    def __init__(self, fn):
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.kill = False
        self.result = self.exc = None
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.result = self.fn()
        except BaseException as ex:
            self.exc = ex
        self.done = True
        self.back.release()


def run(c, fs, fns, name='sched', preempt=None):
    """Results of the functions; `preempt` bounds the number of times a task
    that could go on is made to wait."""
    old = threading.stack_size(64 << 20)
    tasks = [Task(f) for f in fns]
    current = [None]

    def hook(what, n=None):
        t = current[0]
        t.back.release()
        t.go.acquire()
        if t.kill:
            raise Stop()
        return None
    saved, fs.hook = fs.hook, hook
    try:
        for t in tasks:
            t.thread.start()
        k = used = 0
        last = None
        while True:
            alive = [t for t in tasks if not t.done]
            if not alive:
                break
            if preempt is not None and used >= preempt and last in alive:
                t = last
            else:
                t = alive[0] if len(alive) == 1 else alive[c.pick('%s%d' % (name, k), len(alive))]
                if last in alive and t is not last:
                    used += 1
            last = t
            k += 1
            current[0] = t
            t.go.release()
            t.back.acquire()
            if t.done and t.exc is not None:
                raise t.exc
    finally:
        fs.hook = saved
        for t in tasks:
            t.kill = True
            if not t.done:
                t.go.release()
        for t in tasks:
            if t.thread.ident is not None:
                t.thread.join()
        threading.stack_size(old)
    return [t.result for t in tasks]
