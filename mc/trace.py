"""A controlled scheduler for calls into the library.

Schedule points are the line events of frames of the abcvoting package (``sys.settrace``). A call
can be stopped at any of its points, so that another call runs there, or so that it is interrupted.
"""

import os
import sys
import threading


class Points:
    """Run f and call at(i) at its i-th schedule point."""

    def __init__(self, lines=True, inside=None):
        import abcvoting

        self.inside = inside  # only points below a call of the function with this name

        self.package = os.path.dirname(os.path.abspath(abcvoting.__file__)) + os.sep
        self.lines = lines

    def run(self, f, at):
        count = 0

        def local(frame, event, arg):
            nonlocal count
            if event == "line":
                count += 1
                self.where = (frame.f_code, frame.f_lineno)
                at(count)
            return local

        def glob(frame, event, arg):
            nonlocal count
            if not frame.f_code.co_filename.startswith(self.package):
                return None
            if self.inside is not None and not self.below(frame):
                return None
            if not self.lines:
                count += 1
                self.where = (frame.f_code, 0)
                at(count)
                return None
            return local

        sys.settrace(glob)
        try:
            return f()
        finally:
            sys.settrace(None)

    def below(self, frame):
        frame = frame.f_back
        while frame is not None:
            if frame.f_code.co_name == self.inside:
                return True
            frame = frame.f_back
        return False

    def choose(self, f, limit=None):
        """The points of f; at most the first ``limit`` executions of every line."""
        seen, res = {}, []

        def at(i):
            seen[self.where] = seen.get(self.where, 0) + 1
            if limit is None or seen[self.where] <= limit:
                res.append(i)

        self.run(f, at)
        return res


def in_thread(f):
    """Result or exception of f, run to completion in a thread of its own."""
    box = []

    def go():
        try:
            box.append(("value", f()))
        except Exception as e:
            box.append(("raised", f"{type(e).__name__}: {e}"))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    return box[0]


class Paused:
    """Two preemptions: a call in its own thread that stops at its j-th point until released."""

    def __init__(self, points, f, j):
        self.stopped, self.go_on = threading.Semaphore(0), threading.Semaphore(0)
        self.box = []

        def at(i):
            if i == j:
                self.stopped.release()
                self.go_on.acquire()

        def body():
            try:
                self.box.append(("value", points.run(f, at)))
            except Exception as e:
                self.box.append(("raised", f"{type(e).__name__}: {e}"))
            self.stopped.release()

        self.thread = threading.Thread(target=body)
        self.thread.start()
        self.stopped.acquire()

    def finish(self):
        self.go_on.release()
        self.thread.join()
        return self.box[0]
