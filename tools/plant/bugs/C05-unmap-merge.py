PROPERTY = "C05"
NEEDS = "One UNMAP command whose ranges overlap so that one lies inside an earlier one."
BREAKS = "Ranges are merged before they are sent; a contained range cuts the end of the one that contains it, so blocks that were to be unmapped keep their data."
EDITS = [("cdb/unmap.py", '''        for range in ranges_list:
''', '''        merged = []
        for lba, count in sorted(ranges_list):
            if merged and lba <= merged[-1][0] + merged[-1][1]:
                merged[-1] = (merged[-1][0], lba + count - merged[-1][0])
            else:
                merged.append((lba, count))
        for range in merged:
''')]
HELPERS = ["fakedev.py"]
DEMO = '''
import struct, sys
from fakedev import Recorder, run
from infi.asi.cdb.unmap import UnmapCommand

for ranges in ([(0, 4)], [(0, 4), (4, 4)], [(8, 2), (0, 3)], [(0, 4), (2, 8)], [(0, 10), (2, 3)], [(5, 0), (2, 3)]):
    dev = Recorder()
    run(UnmapCommand(ranges), dev)
    sent = set()
    for c in dev.commands:
        for i in range(8, len(c.data), 16):
            lba, n = struct.unpack(">QI", c.data[i:i + 12])
            sent |= set(range(lba, lba + n))
    asked = set(b for lba, n in ranges for b in range(lba, lba + n))
    if sent != asked:
        sys.exit("%r: asked to unmap %r, told the device %r" % (ranges, sorted(asked), sorted(sent)))
'''
