"""Child process of C06: plans on stdin, result digests on stdout."""
import hashlib
import json
import sys

from . import seams, world


def digest(plan):
    with seams.quiet():
        return hashlib.sha256(repr(world.run_sequence(plan)).encode()).hexdigest()[:24]


if __name__ == '__main__':
    print(json.dumps([digest(p) for p in json.load(sys.stdin)]))
