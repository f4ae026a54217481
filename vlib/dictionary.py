"""A fuzzing dictionary: the constants of the code under test that the pinned tree does not have.

They only steer the generators (a value at or beside a limit that somebody wrote into the code is far more telling than a random
one); no oracle ever looks at them, and on the pinned tree the dictionary is empty."""
import json
import os
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "data", "known_consts.json")


def consts(package):
    ints, strs = set(), set()

    def walk(c):
        if isinstance(c, bool) or c is None or c is Ellipsis:
            return
        if isinstance(c, types.CodeType):
            for x in c.co_consts:
                walk(x)
        elif isinstance(c, (tuple, frozenset)):
            for x in c:
                walk(x)
        elif isinstance(c, int):
            ints.add(c)
        elif isinstance(c, float):
            if c == c and abs(c) < 1e18:
                ints.add(int(c))
                ints.add(int(c * 10 ** 7))
        elif isinstance(c, bytes):
            strs.add(c.decode("latin-1"))
        elif isinstance(c, str):
            strs.add(c)

    for name in sorted(os.listdir(package)):
        if name.endswith(".py"):
            try:
                with open(os.path.join(package, name), "rb") as f:
                    walk(compile(f.read(), name, "exec", dont_inherit=True))
            except (SyntaxError, ValueError):
                pass
    return ints, strs


def fresh(package):
    """(ints, texts) to steer by."""
    try:
        known = json.load(open(KNOWN))
    except (OSError, ValueError):
        return [], []
    ints, strs = consts(package)
    ints -= set(known["ints"])
    strs -= set(known["strs"])
    ok = [s for s in strs if 0 < len(s) <= 40 and "\n" not in s and "\0" not in s and not any(0xd800 <= ord(c) < 0xe000 for c in s)]
    return sorted(ints)[:200], sorted(ok)[:200]
