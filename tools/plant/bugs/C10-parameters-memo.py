PROPERTY = "C10"
NEEDS = "Two reservation commands with the same action and keys but different options (aptpl, all target ports, another transport ID)."
BREAKS = "The second is sent with the options of the first."
EDITS = [("cdb/persist/output.py", '''        parameter_list_buffer = parameter_list_buffer_class(
            reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key, **kwargs)
        self.parameter_list_datagram = parameter_list_buffer.create_datagram()
''', '''        key = (parameter_list_buffer_class, reservation_key, service_action_reservation_key)
        if key not in PARAMETER_LISTS:
            PARAMETER_LISTS.clear()
            PARAMETER_LISTS[key] = parameter_list_buffer_class(
                reservation_key=reservation_key,
                service_action_reservation_key=service_action_reservation_key, **kwargs).create_datagram()
        self.parameter_list_datagram = PARAMETER_LISTS[key]
'''), ("cdb/persist/output.py", '''CDB_OPCODE_PERSISTENT_RESERVE_OUT = 0x5F
''', '''CDB_OPCODE_PERSISTENT_RESERVE_OUT = 0x5F
PARAMETER_LISTS = {}  # the last one, as registering on all paths builds the same again and again
''')]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.persist.output import PersistentReserveOutCommand
for aptpl in (0, 1, 0):
    device = Recorder()
    run(PersistentReserveOutCommand(0, 0, 0x1234, activate_persist_through_power_loss=aptpl), device)
    data = bytes(device.commands[0].data)
    if data[20] & 1 != aptpl:
        sys.exit("aptpl=%d was asked for, %d was sent" % (aptpl, data[20] & 1))
'''
