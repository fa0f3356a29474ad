#!/usr/bin/env python3
"""Regenerates KNOWN_FINDINGS.txt from the fix commits of /repo (run by hand, never by a check)."""
import os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = dict(x.split(":") for x in """ad13c11:C05 e74828e:C05 75272f0:C02 282bc90:C05 e9a173a:C04 3949795:C06 7ee94f2:C10 c502a12:C10 927eb1a:C05 fee2be8:C05 9273271:C04 46410f3:C01 845825c:C01 39aabbd:C01 cb0e050:C01 fc77db2:C11 38bed45:C05 490f02b:C11 b87b419:C11 8e60cfc:C11 8db0151:C02 52666d7:C09 3a0b871:C09 bc27a4e:C09 17ca518:C09 cf1fe4d:C01 27838e0:C01 0f3c31c:C07 55101c2:C04 4b9e841:C03 8caa250:C06 1585df3:C03 c19b5f2:C05 dc6197f:C05 b7beff9:C11 22b96d0:C06 7d9cd6e:C06 be107a5:C09 3684a51:C09 692a97a:C09 73f5824:C06 ffa6605:C01 2d4c1bd:C11 fe2b63e:C11 d713af2:C11 f2afc4b:C11 75c37fe:C11 3a8f12b:C11 5a76f50:C01 a96506c:C01 751dc23:C01 6862b33:C02 f6d76f8:C16""".split())
out = ["# Genuine defects of histbook found while building the checks, one per line.", '# "fixed:" entries suppress nothing. A "finding:" entry would name the exact failing input of an open defect; there are none.']
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s failed before: %s" % (P[h[:7]], h, s[5:]))
open(os.path.join(here, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
