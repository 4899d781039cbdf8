"""runs functions in threads, one at a time, switching after given numbers of lines of the code under test"""
import os, sys, threading
WAIT = 0.3          # a thread that cannot hand over (it waits for a lock of the code under test) is not waited for longer


class Abort(BaseException):
    pass


class Schedule:
    def __init__(self, lengths, root):
        self.lengths, self.root = lengths or [10 ** 9], os.path.join(root, '')
        self.cond, self.turn, self.alive, self.k, self.left, self.switches, self.abort, self.free = threading.Condition(), 0, [], 0, lengths[0] if lengths else 10 ** 9, 0, False, False

    def _next(self, me):
        """hand over to the next living thread (lock held)"""
        self.k += 1
        self.left = self.lengths[self.k % len(self.lengths)]
        others = [i for i in self.alive if i > me] + [i for i in self.alive if i < me]
        if others:
            self.turn = others[0]
            self.switches += 1
        self.cond.notify_all()

    def _wait(self, me):
        while self.turn != me and not self.free:
            if self.abort:
                raise Abort
            k = self.k
            if not self.cond.wait(WAIT) and k == self.k and self.stalled():
                self.free = True                      # no more control: whoever holds the turn waits for us
                self.cond.notify_all()

    def stalled(self):
        """the thread whose turn it is made no step since the last look"""
        now = (self.k, self.left)
        old, self.seen = getattr(self, 'seen', None), now
        return old == now

    def _line(self, me):
        if self.abort:
            raise Abort
        if self.free or self.turn != me:
            return
        self.left -= 1
        if self.left <= 0:
            with self.cond:
                self._next(me)
                self._wait(me)

    def run(self, fns):
        """-> list of (result, exception)"""
        out = [(None, None)] * len(fns)

        def body(i):
            def local(frame, event, arg):
                if event == 'line':
                    self._line(i)
                return local

            def trace(frame, event, arg):
                if frame.f_code.co_filename.startswith(self.root):
                    self._line(i)
                    return local
            try:
                with self.cond:
                    self._wait(i)
                sys.settrace(trace)
                try:
                    r = fns[i]()
                finally:
                    sys.settrace(None)
                out[i] = (r, None)
            except BaseException as e:
                out[i] = (None, e)
            finally:
                with self.cond:
                    self.alive.remove(i)
                    if self.turn == i:
                        self._next(i)
        self.alive = list(range(len(fns)))
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        except BaseException:                             # time limit of the case
            self.abort = True
            with self.cond:
                self.cond.notify_all()
            for t in ts:
                t.join(5)
            raise
        return out
