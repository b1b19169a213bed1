PROPERTY = "C09"
NEEDS = "The sg driver's write() failing with EAGAIN or EINTR-like transient errors after it has taken the command."
BREAKS = "A write that failed is retried, so the device may execute the command twice."
EDITS = [("unix.py", "    def write(self, buffer):\n        return os.write(self.fd, buffer)", 
"""    def write(self, buffer):
        try:
            return os.write(self.fd, buffer)
        except OSError as error:
            if error.errno not in (errno.EAGAIN, errno.EIO):
                raise
            time.sleep(0.01)    # a transient error
            return os.write(self.fd, buffer)"""), ("unix.py", "import os\nimport select", "import errno\nimport os\nimport select")]
HELPERS = []
DEMO = '''
import os, sys, errno
from infi.asi import unix

calls = []
def write(fd, data):
    calls.append(bytes(data))
    raise OSError(code, "failed")

class FakeOs(object):
    def __getattr__(self, name):
        return getattr(os, name)
fake = FakeOs()
fake.write = write
unix.os = fake
for code in (errno.EAGAIN, errno.EIO, errno.ENOMEM, errno.EDOM, errno.EBUSY):
    del calls[:]
    try:
        unix.UnixFile(99).write(b"command")
        sys.exit("no error")
    except OSError:
        pass
    if len(calls) != 1:
        print("errno %d: submitted %d times" % (code, len(calls)))
        sys.exit(1)
'''
