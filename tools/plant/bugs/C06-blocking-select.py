PROPERTY = "C06"
NEEDS = "A read timeout that is not a whole number of seconds, or a completion that is not there at the first poll while the process is stalled."
BREAKS = "The descriptor is only asked every second, so completions and timeouts are noticed up to a second late."
EDITS = [("unix.py", "        while not select.select([self.fd], [], [], 0)[0]:\n", "        while not select.select([self.fd], [], [], 0 if expired else 1)[0]:    # let the kernel do the waiting\n")]
HELPERS = []
DEMO = '''
import sys
from infi.asi import unix

class Clock(object):
    now = 100.0
    def time(self): return self.now
    monotonic = time
    def sleep(self, s): self.now += s
class Select(object):
    ready = None
    def select(self, r, w, x, t=None):
        end = clock.now + (t or 0)
        if self.ready is not None and self.ready <= end:
            clock.now = max(clock.now, self.ready)
            return (r, [], [])
        clock.now = end
        return ([], [], [])
class Os(object):
    def read(self, fd, n): return b"x" * n
unix.time = clock = Clock()
unix.select = Select()
unix.os = Os()
for timeout in (0.25, 2, 2.5):
    unix.select.ready = None
    start = clock.now
    try:
        unix.UnixFile(7, timeout).read(5)
        sys.exit("no timeout")
    except IOError:
        pass
    if not timeout <= clock.now - start < timeout + 0.2:
        sys.exit("timed out after %.2f s instead of %s" % (clock.now - start, timeout))
'''
