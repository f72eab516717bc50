#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from /repo's fix commits (run by hand, never by a check)."""
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = """write exactly the sections' own data in rebuild_pe|C13
keep bound imports placed in headers|C07
check record lengths when reading debug|C14
report CodeView 4.0|C20
cdebug|C16
make debug_info assignment safe|C16
read back empty relocation|C04
leave the image unchanged when rebasing|C04
do not read past the DOS stub|C14
refuse to rewrite import tables|C08
write every ordinal import|C02
do not cut section data|C08
read back forwarded exports|C03
rebuild empty export lists|C03
do not point to export name tables|C03
terminate rebuilt bound import|C07
read bound imports which end|C07
refuse bound imports which do not fit|C07
read load config tables|C07
do not write the end of TLS callbacks|C08
do not read TLS raw data|C14
keep section data intact when mapping|C15
keep section sizes consistent|C15
read debug directories which end|C20
keep saving header bound imports|C07
free image properties when loading|C15
hand back input streams|C11
do not load images from streams which failed|C10
read errors when calculating checksum|C18
read errors when calculating entropy|C18
do not allocate more memory for debug|C14
keep exception mask of output|C11
make image assignment safe|C16
resource directory entries safe|C16
keep existing resource when replacing|C15
check byte length of resource names|C14
do not leave incomplete resource|C15
keep heights of cursors|C06
all listed cursors are inside|C14
images of an icon or cursor group in|C06
byte length of strings in string tables|C14
do not refuse small message|C06
byte length of version info strings|C14
translations past their data|C14
version info which lengths|C06
never give IDs of existing|C06
overflow count of icons|C06
remove images which were added|C15
limit nesting level|C14
resource directory can be stored|C05
"""
m = [l.rsplit("|", 1) for l in M.splitlines()]
extra = os.path.join(here, "tools", "findings_map.txt")
if os.path.exists(extra):
    m += [l.rstrip("\n").rsplit("|", 1) for l in open(extra) if l.strip()]
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = [b for a, b in m if a in s]
    if not p: raise SystemExit("no property for: " + s)
    out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = os.path.join(here, "known-findings.txt")
keep = [l for l in open(f).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(f) else ["# finding: property=.. class=.. plan=.. text   (reported, not repaired)", "# fixed: property=.. commit what failed           (repaired; suppresses nothing)"]
open(f, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed entries")
