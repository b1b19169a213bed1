"""Write MANIFEST.json from check.PLAN and the notes below."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, "check.py")).read()
plan = re.findall(r'"(C\d\d)": \("([\w+]+)"', src)
TECH = "deterministic simulation with fault injection: seeded search over %s"
WHAT = {
    "transport": "completion orders, device outcomes, system call failures, stalls, interruptions and context switches of the real executers on simulated kernels",
    "coro": "programs, I/O results and I/O exceptions, run by the real coroutine engine and by a direct-style reference",
    "handles": "open, ioctl and close failures and exceptions at every point, on simulated kernels that track every handle",
    "overlapped": "completion orders, failures and synchronous completions of overlapped I/O on a simulated Windows kernel",
    "device": "command histories, device state changes, unit attentions, transfer faults and several initiators against a model of the device",
}
NOTE = {
    "transport": "Every run executes the real executers end to end in one process against simulated kernels; the schedule and all faults come from the seed. Absence of violations over the runs explored, no proof. Trusts the simulated kernels and the oracle.",
    "coro": "The same generated program is run by the real engine and by a reference in direct style and their histories are compared. Absence of violations over the runs explored, no proof.",
    "handles": "A handle ledger kept by the simulated kernels is checked after each run. Absence of violations over the runs explored, no proof.",
    "overlapped": "The real reactor, files and executers run against a simulated kernel32. Absence of violations over the runs explored, no proof.",
    "device": "The real command classes, executers and coroutines run against a device model written from the standards, independently of the code. Absence of violations over the runs explored, no proof. Trusts the device model.",
}
NA = {
    "C18": "Pure functions of their input: no scheduling, time, I/O, faults or state for a simulation to control. Wherever a decoder's result reaches a user it is decided end to end under C10, C11, C16 and C17.",
    "C19": "Constant tables: nothing varies with schedule, time, I/O or faults. The names that depend on what a device returned are decided under C04.",
}
done = dict(plan)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./check --property C04 --digests 1",
     "checks": [{"property": p, "quick_cmd": "./check --property %s --tier quick" % p,
                 "thorough_cmd": "./check --property %s --tier thorough" % p,
                 "technique": TECH % "; ".join(WHAT[x] for x in e.split("+")),
                 "level": "exploration", "level_note": " ".join(NOTE[x] for x in e.split("+"))} for p, e in plan],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in done],
     "notes": "No hooks in /repo: every seam is put in place from outside before infi.asi is imported (sim/seams.py)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
