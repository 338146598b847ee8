"""Known findings: genuine defects recorded rather than repaired.

known_findings.txt holds lines
  finding: property=<id> case=<case> what=<exact text> :: <description>
  fixed: property=<id> <commit> <what failed>
Only `finding:` lines suppress anything, and only a violation of that property
with exactly that case name and text.
"""

import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load():
    findings = []
    if os.path.exists(PATH):
        with open(PATH) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) case=(\S+) what=(.*?) :: (.*)$", line.strip())
                if m:
                    findings.append(m.groups())
    return findings


def split(prop, violations):
    rest, found = [], []
    known = [k for k in load() if k[0] == prop]
    for v in violations:
        for _, case, what, text in known:
            if v["case"] == case and v["what"] == what:
                if text not in found:
                    found.append(text)
                break
        else:
            rest.append(v)
    return rest, found
