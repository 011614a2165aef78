"""Replays a reported violation on the unmodified package: exit 1 and the detail when it fails again."""
import contextlib
import json
import sys
from fractions import Fraction

from . import core, reg


def replay(path):
    d = json.load(open(path))
    e = reg.find(d['property'], d['harness'])
    vals = {k: Fraction(v) for k, v in d['values'].items()}
    r = core.num_run(e.fn, d['cfg'], vals, seed=d.get('seed', 0))
    return r


if __name__ == '__main__':
    with contextlib.redirect_stdout(sys.stderr):  # whatever the code prints is not the verdict
        r = replay(sys.argv[1])
    print(r[0], r[2] if r[0] != 'ok' else '')
    sys.exit(1 if r[0] == 'violation' else 0)
