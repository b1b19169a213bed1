"""An executer that records commands and answers with prepared data."""
from infi.asi.coroutines.sync_adapter import sync_wait


class Recorder(object):
    def __init__(self, *replies):
        self.commands = []
        self.replies = list(replies)

    def call(self, command):
        self.commands.append(command)
        yield self.replies.pop(0) if self.replies else None


def run(command, device):
    return sync_wait(command.execute(device))
