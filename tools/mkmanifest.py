#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (only properties whose executor exists in sim/)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded search, not proof: it samples histories, schedules and faults. Trusts the reference models and the independent "
          "PE parser in sim/, the build of the library's own sources with clang ASan, and iconv for encoding conversion. ")
SESS = "deterministic simulation: seeded edit/save/crash/restart sessions with allocation faults against a reference model and an independent PE parser"
C = {
 "C01": (SESS, "exploration", ""),
 "C02": (SESS, "exploration", ""),
 "C03": (SESS, "exploration", ""),
 "C04": (SESS, "exploration", ""),
 "C05": ("deterministic simulation: seeded resource editing sessions with crashes, restarts and allocation faults against a map model", "exploration", ""),
 "C06": ("deterministic simulation: seeded typed-resource sessions with restarts and allocation faults against a model and an independent decoder", "exploration", ""),
 "C07": (SESS, "exploration", ""),
 "C08": (SESS, "exploration", ""),
 "C09": ("deterministic simulation: seeded section-edit histories with faults against an address-space model", "exploration", ""),
 "C10": ("deterministic simulation with stream fault injection: every operation of a load may fail, throw or end early; exact-or-error oracle and retry", "fault_enumeration", ""),
 "C11": ("deterministic simulation with stream fault injection: state of lent streams compared before and after every call", "fault_enumeration", ""),
 "C12": ("deterministic simulation with device fault injection: failing, short and full output devices; prefix oracle and retry", "fault_enumeration", ""),
 "C13": ("deterministic simulation: the same session under two environments (memory contents, chunking, noise), and in a second process built with other initial variable contents, must save identical bytes", "exploration", ""),
 "C14": ("deterministic simulation with storage fault injection: damaged files through every reader under sanitizers, step clock and leak accounting", "fault_enumeration", ""),
 "C15": ("deterministic simulation with allocation fault injection: the n-th allocation of every library call fails; state, leak and retry oracles", "fault_enumeration", ""),
 "C16": ("deterministic simulation: seeded histories over several aliased-by-copy images with allocation faults against a never-copied reference", "exploration", ""),
 "C17": ("deterministic simulation: real threads parked and released one at a time by a seeded scheduler; results compared with solo runs", "exploration", ""),
 "C18": ("deterministic simulation with stream fault injection: checksum and entropy over chunked and failing streams against a reference computation", "fault_enumeration", ""),
 "C19": ("deterministic simulation with crash injection: every durable prefix of a save is reloaded and judged", "fault_enumeration", ""),
 "C20": ("deterministic simulation: seeded orders of reads, edits and restarts against an independent decoder of the stored file", "exploration", ""),
}
src = "".join(open(f).read() for f in glob.glob(os.path.join(here, "sim", "*.cpp")))
checks = []
for p, (t, l, n) in C.items():
    if not re.search(r'\{"%s"|SESSION_EXEC\(%s\b|EXEC\(%s\b' % (p, p, p), src):
        continue
    checks.append({"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                   "technique": t, "level": l, "level_note": COMMON + n})
have = {c["property"] for c in checks}
na = [{"property": "C21", "reason": "Pure functions of their arguments: no stream, allocation-dependent outcome, schedule, clock, crash or history for the value to depend on, so a simulator has nothing to decide; sampling arguments would be plain input generation."}]
for p in C:
    if p not in have:
        na.append({"property": p, "reason": "Not claimed yet: the simulator's executor for this property is not finished."})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (streams, allocator, iconv, thread scheduling, step clock) is placed at link or compile time. See DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(sorted(have))
