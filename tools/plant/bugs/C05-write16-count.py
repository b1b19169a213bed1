PROPERTY = "C05"
NEEDS = "A WRITE(16) of 65536 blocks or more."
BREAKS = "Only the low 16 bits of the number of blocks reach the device, so the rest of the data is never written although the write is acknowledged."
EDITS = [("cdb/write.py", '''        assert self.logical_block_address < 2 ** 64, "lba > 2**64"
''', '''        self.transfer_length &= 0xffff    # the field of WRITE(10) is 16 bits wide
        assert self.logical_block_address < 2 ** 64, "lba > 2**64"
''')]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.write import Write16Command

dev = Recorder()
for blocks in (1, 65535, 65536, 65537, 200000):
    run(Write16Command(5, b"x" * blocks, 1), dev)
    count = int.from_bytes(dev.commands[-1].command[10:14], "big")
    if count != blocks:
        sys.exit("wrote %d blocks, the device was told of %d" % (blocks, count))
'''
