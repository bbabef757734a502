"""Shared by the Python drivers: one JSON case per line in, one '@ {json}' line per case out."""
import json, sys


def cases():
    for line in sys.stdin:
        if line.strip():
            yield json.loads(line)


def answer(rec):
    sys.stdout.write("\n@ " + json.dumps(rec) + "\n")
    sys.stdout.flush()


def q(v, scale=1.0):
    """Real to integer in 1/scale units, as hcommon.h does."""
    v = float(v)
    if v != v:
        return 2000000001
    s = v * scale
    if s > 1.9e9:
        return 2000000002
    if s < -1.9e9:
        return -2000000002
    return int(round(s))
