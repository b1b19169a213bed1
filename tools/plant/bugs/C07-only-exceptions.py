PROPERTY = "C07"
NEEDS = "A body left by something other than an ordinary exception: KeyboardInterrupt, a killed greenlet, a closed generator."
BREAKS = "The device stays open."
EDITS = [("executers.py", '''@contextmanager
def linux_sg(device):
    handle = create_os_file(device)
    try:
        executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
        yield executer
    finally:
        handle.close()
''', '''@contextmanager
def linux_sg(device):
    handle = create_os_file(device)
    try:
        executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
        yield executer
    except Exception:
        handle.close()
        raise
    else:
        handle.close()
''')]
HELPERS = []
DEMO = '''
import sys
from infi.asi import executers

class Handle(object):
    closed = 0
    def close(self):
        self.closed += 1
for error in (None, ValueError, KeyboardInterrupt, SystemExit):
    handle = Handle()
    executers.create_os_file = lambda device: handle
    executers.create_platform_command_executer = lambda handle, **kwargs: object()
    try:
        with executers.linux_sg("/dev/sg0"):
            if error:
                raise error()
    except BaseException as e:
        if type(e) is not error:
            raise
    if handle.closed != 1:
        sys.exit("left by %r: closed %d times" % (error, handle.closed))
'''
