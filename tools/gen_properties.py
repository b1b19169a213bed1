"""Writes /verif/properties.jsonl (kept as a program so that the file stays valid JSON lines)."""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                        "observe_at": list(observe), "hook_needed": hook}}

A = "src/infi/asi/"
PROPS = [
P("C01", "Every completion reaches the command it belongs to, exactly once",
  "Every command an executer accepts is completed exactly once, through its own callback or call, with the data or "
  "the error the device produced for that command and never for another, whatever order the operating system returns "
  "completions in and however many commands are outstanding. A command sent without a callback completes silently. A "
  "completion that belongs to no outstanding command is reported as an internal error and disturbs no other command.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all interleavings of send, call and wait with completions, all completion orders, queue sizes 1..15, all platforms",
  "No test has two commands outstanding; the existing ones feed one hand-made response to a mock.",
  [A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py"],
  [("packet index given to the OS with each command and looked up when its completion arrives", "CommandExecuterBase.send/_process_pending_response"),
   ("pack_id in sg_io_hdr", "LinuxCommandExecuter._handle_raw_response")],
  [("pending_packets", "commands outstanding, by packet index", "CommandExecuterBase"), ("packet_index", "next index to hand out", "CommandExecuterBase")],
  ["callbacks and results of call() compared with the simulated device's own record"]),
P("C02", "The request queue is bounded, refuses only when full, and never leaks a slot",
  "An executer never has more commands outstanding than its configured maximum: a send or call beyond that raises the "
  "queue-full error and submits nothing, and one below it is never refused. A slot is held exactly from acceptance until "
  "the completion is handed to its callback or call, or the submission fails, and is then usable again, however long the history; a request "
  "that cannot be sent at all holds none. wait() returns "
  "only when nothing is outstanding, and is_queue_full() tells the truth, also through the adapter.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "all histories of sends, completions in any order, refused and failed submissions, waits; queue sizes 1..15; all platforms",
  "No test fills the queue, completes out of order or fails a submission.",
  [A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"coroutines/sync_adapter.py"],
  [("_next_packet_index refuses when len(pending) reaches the maximum", "CommandExecuterBase"), ("send removes the entry when submission raises", "CommandExecuterBase.send"),
   ("wait loops until the table is empty", "CommandExecuterBase.wait")],
  [("pending_packets", "commands outstanding", "CommandExecuterBase"), ("max_queue_size", "the bound", "CommandExecuterBase")],
  ["outstanding count in the simulated kernel, AsiRequestQueueFullError, is_queue_full()"]),
P("C03", "A command that did not succeed is never reported as successful",
  "A command is reported successful if, and only if, the operating system accepted it and the device completed it with GOOD status "
  "and without host, adapter or driver error; every other outcome - CHECK CONDITION, BUSY, RESERVATION CONFLICT, TASK SET "
  "FULL, ACA ACTIVE, TASK ABORTED, a host, adapter or driver error, a timeout, a refused or failed system call - raises an "
  "exception, on each of the supported platforms. A successful read returns exactly the bytes the device transferred, with "
  "nothing else in any untransferred tail but zeros.",
  ["fault_sequences", "configurations", "histories"],
  "every failing outcome of a command on Linux sg, Linux SG_IO, Solaris, AIX (both ioctl bindings) and Windows, anywhere in a history",
  "Tests feed four hand-made sg headers to a mock; no test reaches SG_IO, Solaris, AIX or Windows.",
  [A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"__init__.py"],
  [("status, driver status and host status are examined in turn", "LinuxCommandExecuter._handle_raw_response"),
   ("uscsi_status/uscsi_rqstatus examined", "SolarisCommandExecuter._handle_raw_response"),
   ("status_validity examined, OSError of the ioctl", "AixCommandExecuter"), ("DeviceIoControl result and ScsiStatus", "Win32CommandExecuter")],
  [], ["outcome of every call and callback"]),
P("C04", "Device errors arrive intact: sense bytes, sense key, ASC/ASCQ, status",
  "A command the device ends with CHECK CONDITION raises a check-condition error that carries that command's sense bytes "
  "unchanged and the sense key, the additional sense code and qualifier, the information, flags and descriptors they encode, "
  "for fixed and descriptor format, current and deferred. On Linux a reservation conflict raises the reservation-conflict "
  "error; any other failing status - of the device, the driver or the host adapter - raises a SCSI error that names it, and "
  "no other. Sense data that is missing, truncated or malformed still gives a check-condition error with the raw "
  "bytes, for that command only. A system call that fails, on Linux, Solaris and Windows, raises an error that gives the "
  "operating system's error code.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "all statuses, sense formats, sense lengths, sense keys and codes, on any command of a history, on every platform",
  "Tests decode one fixed-format buffer and check that an error is returned, not what the caller sees through call().",
  [A+"__init__.py", A+"sense/__init__.py", A+"sense/asc.py", A+"errors.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py"],
  [("_check_condition builds the error from the sense buffer the OS filled", "CommandExecuterBase._check_condition"), ("get_sense_object_from_buffer", "sense/__init__.py")],
  [("sense_buffer", "memory the OS writes sense data to", "SGIO, SCSICMD, sc_passthru, SCSIPassThroughDirect")],
  ["type, sense_buffer and sense_obj of the exception a caller gets"]),
P("C05", "Block commands read back what was acknowledged and touch nothing else",
  "Through any history of READ and WRITE (6, 10, 12 and 16 byte forms), WRITE SAME, COMPARE AND WRITE and UNMAP commands of "
  "any address, length and block size, a read returns exactly the bytes the device holds for that range: those of the last "
  "acknowledged write, write-same, successful compare-and-write or unmap. No command changes a block outside its range, a "
  "mismatching compare-and-write changes nothing and raises a miscompare error, and a command that reported failure is never "
  "silently repeated. A request whose address, length or data its command cannot express is refused, with nothing sent.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "all histories of block commands by one or several initiators against a disk that may fail, abort or delay any of them",
  "No test executes any block command; the examples need real hardware.",
  [A+"cdb/read.py", A+"cdb/write.py", A+"cdb/write_same.py", A+"cdb/compare_and_write.py", A+"cdb/unmap.py"],
  [("CDB fields and transfer length computed from address, buffer and block size", "Read*/Write*Command.__init__"), ("parameter list of UNMAP", "UnmapCommand.__init__")],
  [("logical_block_address, transfer_length", "the range a command covers", "each command class")],
  ["contents of the simulated disk against a map of blocks, data returned by reads"]),
P("C06", "Waiting for a completion ends, in time and only when it should",
  "On a Linux sg node, waiting for a completion returns it if it became available within the read timeout, even when the "
  "process itself was stalled meanwhile, and otherwise raises a timeout error within the read timeout plus one polling interval "
  "of elapsed time, whatever the wall clock does. After a timeout the executer stays usable, and the late completion still "
  "goes to its own command only.",
  ["schedules", "fault_sequences", "configurations"],
  "all completion delays, lost completions, wall clock jumps in both directions, stalls of the process, read timeouts",
  "No test runs the polling loop; it needs a clock that can be made to jump and a device that never answers.",
  [A+"unix.py", A+"linux.py", A+"__init__.py"],
  [("poll with select, sleep, compare elapsed time with the read timeout", "UnixFile.read")],
  [("_read_timeout", "seconds to wait for the descriptor", "UnixFile")],
  ["return or exception of call()/wait() and the simulated time it came at"]),
P("C07", "A device handle is closed exactly once, whatever goes wrong inside",
  "Every file descriptor or handle the library opens on a device is closed exactly once by the time its context manager is "
  "left, normally or by any exception at any point - in opening, in creating the executer, in the body, in a command, in "
  "closing - and is never used after it was closed; an exception from the body reaches the caller. The events Windows "
  "asynchronous I/O creates are released once their I/O has completed, not before.",
  ["crash_points", "fault_sequences", "configurations"],
  "an exception, failing system call, failing allocation or interruption at any point of open - execute - close, on every platform",
  "No test uses the context managers.",
  [A+"executers.py", A+"__init__.py", A+"unix.py", A+"win32.py"],
  [("context managers with try/finally", "executers.py"), ("Win32File.close remembers that it closed", "win32.py")],
  [("fd / handle", "the open device", "UnixFile, Win32File")],
  ["open and close calls seen by the simulated kernels"]),
P("C08", "Coroutines behave as the direct-style calls they stand for",
  "Running any nesting of coroutines to completion, synchronously or under the asynchronous reactor, has the effects and the "
  "outcome of the same code written as plain calls: each sub-coroutine's last yielded value, I/O result or exception arrives "
  "at the point that yielded it, once; handlers and finally blocks run exactly once and in order, also when the I/O itself "
  "raises; an exception that was handled does not reappear. The outcome of the outermost coroutine is its last yielded "
  "value's result, and the function given to the synchronous wrapper is called once.",
  ["programs", "fault_sequences", "schedules"],
  "all generator programs of bounded depth over yield, nested coroutine, try/except/finally, raise, and I/O tokens that succeed or fail in any order",
  "Tests run four fixed generator programs, none with handlers that swallow an exception, empty coroutines or failing I/O.",
  [A+"coroutines/sync_adapter.py", A+"win32.py"],
  [("explicit stack of generators driven by send and throw", "Coroutine._next_step")],
  [("stack, args, result", "suspended generators, what to send next, last value", "Coroutine")],
  ["trace of effects and the outcome against a direct-style interpreter of the same program"]),
P("C09", "Each accepted command is submitted once and verbatim; refused ones not at all",
  "Each command an executer accepts reaches the operating system exactly once and unchanged: the CDB bytes and length, the "
  "transfer direction and length, the bytes written, and the configured time limit in the platform's own unit. A command that is "
  "refused, or rejected for its parameters, submits nothing; one that the platform cannot express (too long a CDB, a time limit beyond "
  "its field) is rejected, never cut. No failure of any kind makes the library submit a command "
  "again. What one command carries is never altered by building or running another.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all command sizes, directions, lengths, time limits and queue states, all platforms, with failing system calls and allocations",
  "Tests look at CDB bytes of some commands; nothing looks at what reaches an operating system.",
  [A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"executers.py"],
  [("create() of each platform structure", "SGIO, SCSICMD, sc_passthru, SCSIPassThroughDirect"), ("one write or ioctl per send", "_os_send")],
  [], ["the submissions the simulated kernels parse out of user memory"]),
P("C10", "Reservations seen and made through the library are the device's",
  "Through any history of registrations, reservations, releases, preemptions and clears by several initiators, with unit "
  "attentions and conflicts in between, each PERSISTENT RESERVE OUT, RESERVE and RELEASE has exactly the effect on the device "
  "that its service action, keys, type and flags define, and each PERSISTENT RESERVE IN reports exactly the device's generation, keys, "
  "reservation, capabilities and full status, for any number of registrants that fit the allocation. When they do not fit, the required "
  "allocation length is reported correctly. Keys and types that do not fit their field are refused, with nothing sent.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "all interleavings of reservation commands of up to four initiators, all keys, types, service actions, allocation lengths and faults",
  "Tests pack and unpack a few fixed buffers; none runs two initiators or any history.",
  [A+"cdb/persist/output.py", A+"cdb/persist/input.py", A+"cdb/persist/transport.py", A+"cdb/reserve.py", A+"cdb/release.py"],
  [("CDB and parameter list layout", "PersistentReserveOutCommand"), ("response layout", "PersistentReserveIn*Response")],
  [], ["reservation state of the simulated device against a reference model, decoded responses"]),
P("C11", "Discovery reports the device's identity as the device states it",
  "Standard INQUIRY and the vital product data pages (supported pages, serial number, device identification, ATA information, "
  "block limits, logical block provisioning, Veritas, and pages without a decoder) return exactly the values the device holds when the command runs, for "
  "every device type, page length, designator mix and padding, and whatever changed on the device between commands. Of a page longer than "
  "its command's allocation, what arrived whole is reported and nothing else. A page the device does not have raises the device's error.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all page contents, also longer than the allocation, with identity changes between commands and failing commands, all platforms",
  "Tests unpack one or two captured buffers per page, unpadded.",
  [A+"cdb/inquiry/__init__.py", A+"cdb/inquiry/standard.py", A+"cdb/inquiry/vpd_pages/"],
  [("declarative field layouts", "Buffer classes"), ("designator selected by type, length and NAA", "designators.determine_designator")],
  [], ["every field of the decoded objects against the values the simulated device was given"]),
P("C12", "Executers on different handles do not influence one another",
  "Any number of executers, each on its own handle, used by concurrent threads or greenlets, give each user exactly the results and "
  "errors it would have got alone, in any interleaving of their operations: at every blocking point when they are greenlets, between any two statements of the library when they are threads; each command goes to "
  "its own device, and commands built by one user never change those of another.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings, at every system call and greenlet switch and (threads) at every statement and call of the library, of up to four users on one or several devices, platforms' executers and command classes",
  "Tests are single-threaded and use one executer at a time.",
  [A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"coroutines/sync_adapter.py", A+"cdb/"],
  [("all state lives in the executer, the command and the coroutine objects", "CommandExecuterBase, Coroutine"), ("no shared mutable defaults", "cdb/control.py DEFAULT_CONTROL")],
  [], ["per-user histories, submissions per device"]),
P("C13", "Memory handed to the operating system stays valid until it is done with it",
  "From submission until the operating system has delivered a command's completion, the command's CDB, data and sense "
  "buffers and control structures stay allocated, large enough for the transfer, and in use by that command alone - whatever else "
  "is sent, completed, refused, interrupted or fails in the meantime.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "all interleavings of sends, completions, failures and interruptions, with garbage collection at every completion",
  "Buffer lifetime shows only as memory corruption under real asynchronous DMA; no test does any I/O.",
  [A+"linux.py", A+"win32.py", A+"__init__.py", A+"solaris.py", A+"aix.py"],
  [("the pending table keeps the OS structure and its buffers alive", "CommandExecuterBase.pending_packets"), ("suspended coroutines keep OVERLAPPED and buffers alive", "win32.py")],
  [("pending_packets", "owner of buffers in flight", "CommandExecuterBase")],
  ["addresses in the structures the simulated kernels receive, checked for liveness, bounds and overlap at each completion"]),
P("C14", "Concurrent Windows commands all finish, and results come in argument order",
  "Waiting for several commands on overlapped Windows handles returns one result per command, in argument order, each being that "
  "command's own, for every completion order and timing, including I/O that completes at once. A command whose I/O fails raises its error - "
  "never a success - and no command's error or result is attributed to another; when waiting ends, no I/O is left in flight.",
  ["schedules", "fault_sequences", "configurations"],
  "all completion orders and simultaneous completions of up to 12 overlapped commands on one or several handles, with failures",
  "win32.py is not imported by any test; the example needs Windows.",
  [A+"win32.py", A+"coroutines/sync_adapter.py"],
  [("one event per I/O, WaitForMultipleObjects, results sorted by command", "Win32AsyncReactor.wait_for")],
  [("coroutines", "commands still running", "Win32AsyncReactor.wait_for")],
  ["result list, exceptions, simulated overlapped I/O still pending"]),
P("C15", "An interrupted command does not corrupt the ones that follow",
  "When an exception interrupts a command at any point where the calling greenlet or thread can be interrupted - while it submits, yields "
  "to other greenlets, polls or collects the completion - the exception reaches the caller, and every later command on the same "
  "executer still gets its own result. The interrupted command's late completion is absorbed, its slot becomes free once it has "
  "completed, and wait() still ends.",
  ["crash_points", "schedules", "histories"],
  "a greenlet timeout, kill or keyboard interrupt at any suspension point of any command in a history, all platforms and queue sizes",
  "No test raises anything from the suspension points.",
  [A+"__init__.py", A+"linux.py", A+"unix.py"],
  [("send removes the pending entry only if nothing was submitted", "CommandExecuterBase.send"), ("gevent_friendly yields after the system call", "__init__.py")],
  [("pending_packets", "commands outstanding", "CommandExecuterBase")],
  ["results of the commands after the interruption, slots in use after wait()"]),
P("C16", "Capacity, LUN, path-state, copy-limit and log queries report the device's state",
  "READ CAPACITY (10, 16), REPORT LUNS, REPORT TARGET PORT GROUPS (both data formats), RECEIVE COPY OPERATING PARAMETERS, LOG SENSE and TEST UNIT READY "
  "return exactly what the device's state is when the command runs, for every value the fields can hold and every list that fits the "
  "allocation, however the state changes between commands. LUN numbers in an unsupported addressing format raise, unless allowed.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all device states, state changes between and during commands, list lengths, allocation lengths, failing commands, all platforms",
  "Tests cover REPORT LUNS and one copy-parameters buffer; port groups and capacity are not tested.",
  [A+"cdb/read_capacity.py", A+"cdb/report_luns.py", A+"cdb/rtpg.py", A+"cdb/receive_copy_operating_parameters.py", A+"cdb/log_sense.py", A+"cdb/tur.py"],
  [("declarative field layouts", "Struct and Buffer classes")], [],
  ["every field of the decoded objects against the simulated device's state"]),
P("C17", "Enclosure pages report the enclosure's elements, none invented, none lost",
  "The SES diagnostic pages (supported pages, configuration, enclosure status, element descriptors, the vendor page) decode to exactly "
  "the enclosure's descriptors, element types, element states and texts, for every enclosure layout the pages can express and "
  "any padding after the page, whatever element states change between the configuration query and the status query that uses it. "
  "When the layout itself changes after the configuration query, the later pages still report the enclosure's current generation "
  "code, so that a caller can tell its configuration is stale (what else they then decode to is unspecified).",
  ["inputs", "histories", "fault_sequences"],
  "all enclosure layouts (element types, counts 0..255, subenclosures, text lengths), element state changes and failures between queries",
  "Tests unpack two captured pages.",
  [A+"cdb/diagnostic/__init__.py", A+"cdb/diagnostic/ses_pages/"],
  [("the configuration page drives the decoding of status and descriptor pages", "enclosure_status.py, element_descriptor.py")], [],
  ["every field of the decoded pages against the simulated enclosure"]),
P("C20", "Under gevent, commands give way to the other greenlets",
  "With gevent, every system call that submits a command or collects a response, however it ends, is followed by a turn for the other "
  "greenlets that are ready, before the same greenlet makes another such call and before its caller goes on - on every platform, however many "
  "greenlets issue commands, so that none starves. On a Linux sg node, with the standard library made cooperative, the others also keep running "
  "while a greenlet waits for a slow device: waiting holds nobody up longer than one polling interval.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all histories of several greenlets' commands, device latencies and outcomes, failing system calls; all platforms",
  "Tests only call the decorator; nothing runs two greenlets.",
  [A+"__init__.py", A+"unix.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py"],
  [("gevent_friendly gives the others a turn after the wrapped system call", "__init__.py"), ("UnixFile.read polls and sleeps", "unix.py")],
  [], ["turns of bystander greenlets between the system calls of the ones that issue commands; how late a sleeping greenlet wakes"]),
P("C21", "Nothing of a completed command stays behind, however long the history",
  "What the library holds is bounded by the commands outstanding, not by the length of the history: buffers, callbacks, results and errors of "
  "commands that completed, failed, were refused or were absorbed after an interruption do not accumulate, nor do executers whose handles were "
  "closed, nor entries of any table of the library. Repeating any history of commands and faults, and collecting what completed, does not make it grow.",
  ["histories", "fault_sequences", "schedules", "configurations"],
  "all histories, repeated without end: sends, calls, refusals, failures, timeouts, interruptions, reopened devices; all platforms",
  "No test looks at what remains after a command.",
  [A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"coroutines/sync_adapter.py", A+"unix.py"],
  [("the entry of a packet is popped when its response is processed", "CommandExecuterBase"), ("responses are popped when received", "Solaris, AIX and SG_IO executers")],
  [("pending_packets", "commands outstanding", "CommandExecuterBase"), ("responses", "responses not yet collected", "SolarisCommandExecuter")],
  ["allocations, callbacks, results, errors and executers still reachable with nothing outstanding"]),
P("C22", "What a caller was given stays as it is, and is nobody else's",
  "A result, page object or error keeps the values it had when it was handed out, whatever commands run afterwards - by the same caller, through "
  "the same command object, by other users, after a failure or an interruption. What a caller does to an object it was given, or to its own command "
  "after it ran, changes nothing for any other command or caller, and objects passed in (configuration pages, transport ids, lists of ranges) "
  "come back unchanged.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all histories of queries, state changes, failures and interruptions, repeated commands, several users, changes callers make to their objects; all platforms",
  "Tests look at each result at once, and never touch it.",
  [A+"cdb/", A+"__init__.py", A+"linux.py", A+"solaris.py", A+"aix.py", A+"win32.py", A+"sense/__init__.py"],
  [("a new response object for every execution", "execute() of the command classes"), ("data are copied out of the kernel's buffers", "_handle_raw_response")], [],
  ["all results handed out so far, re-read after each command and after each change a caller makes to one"]),
P("C18", "Encoding and decoding of CDB and response classes are inverse",
  "For every response class with an encoder, decoding what it encodes gives the values back, and encoding what it decodes gives the bytes back.",
  ["inputs"], "all field values",
  "Tests sample one or two values per class.",
  [A+"cdb/"], [("infi.instruct declarative layouts", "Buffer and Struct classes")]),
P("C19", "Names given to codes are those of the standards",
  "The names the library gives to additional sense codes, sense keys, SCSI statuses, VPD pages, device types and versions are those "
  "the SCSI standards assign, and an unassigned code never gets the name of another.",
  ["inputs"], "all code values",
  "Tests look up one code.",
  [A+"sense/asc.py", A+"sense/__init__.py", A+"cdb/inquiry/vpd_pages/__init__.py"], [("lookup tables", "AdditionalSenseCode, SCSI_*_NAME")]),
]

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
