"""The known findings: KNOWN_FINDINGS, each identified by what exactly fails."""
import os, re
from . import build

# every limb 2^24
CONSTANT_ELEMENT = sum(2**24 << w for w in (0, 26, 51, 77, 102, 128, 153, 179, 204, 230)) % (2**255 - 19)


def constant_random(e):
    return (e["op"] == "mrand" and e.get("kind") == "fe" and e["st"] == "ok" and len(e["vals"]) == e["n"] and
            all(bytes(v) == CONSTANT_ELEMENT.to_bytes(32, "little") for v in e["vals"]))


MATCH = {("P19", "constant-random-field-element"): constant_random}


def listed():
    out = []
    for l in open(os.path.join(build.VERIF, "KNOWN_FINDINGS")):
        m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l)
        if m:
            out.append(dict(property=m.group(1), id=m.group(2), text=m.group(3)))
    return out


def match(prop, e):
    for f in listed():
        if f["property"] == prop and MATCH[f["property"], f["id"]](e):
            return f
    return None
