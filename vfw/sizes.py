"""Enumerated big trees: many siblings, many levels, many attributes.

A case is a small description; nodes(case, leaf) is the spec it stands for. The counts include the
neighbours of the integers named in the code under test (generation only)."""
from __future__ import annotations

import itertools

from .gen import DI, NI

UNITS = {
    "text": [["t", "a<&"]],
    "inline": [["g", "b", False, [], [["t", "y"]]]],
    "block": [["g", "p", True, [], [["t", "x"]]]],
    "empty": [["g", "div", True, [], []]],
    "void": [["g", "br", False, [], []]],
    "mixed": [["t", "u"], ["g", "i", False, [], []], ["g", "ul", True, [], [["t", "1"], ["g", "li", True, [], []]]], ["h", "<h/>"], ["g", "hr", True, [], []], ["r", "<r/>"], ["t", ">"]],
    "tags": [["t", "u"], ["g", "i", False, [], []], ["n", 3], ["g", "ul", True, [], [["t", "1"], ["g", "li", True, [["id", ["s", "&"]]], []]]], ["g", "hr", True, [], []], ["t", ">"]],
}
LEVELS = {"block": [("div", True)], "inline": [("b", False)], "mixed": [("div", True), ("section", True), ("span", False)], "alt": [("p", True), ("em", False)]}
BASE = [8, 10, 16, 17, 20, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025]


def counts(lo, hi, tier="quick"):
    extra = {n + d for n in list(DI) + list(NI) for d in (-1, 0, 1, 2)}
    if tier != "quick":
        extra |= set(range(lo, min(hi, 300)))
    return sorted({n for n in set(BASE) | extra if lo <= n <= hi})


def copies(unit, n):
    u = UNITS[unit]
    return list(itertools.islice(itertools.cycle(u), n))


def wrap(nodes, levels, n):
    ls = LEVELS[levels]
    for i in range(n):
        nm, ws = ls[i % len(ls)]
        nodes = [["g", nm, ws, [], nodes]]
    return nodes


def cases(tier, wide=1100, deep=110, units=tuple(k for k in UNITS if k != "tags"), levels=tuple(LEVELS), attrs=True):
    for n in counts(6, wide, tier):
        for i, u in enumerate(units):
            yield {"shape": "wide", "n": n, "unit": u, "where": ["start", "middle", "end"][(n + i) % 3], "par": [["div", True], ["b", False], None][(n + i) % 3 if n < 300 else 0]}
    for n in counts(6, deep, tier):
        for i, l in enumerate(levels):
            yield {"shape": "deep", "n": n, "levels": l, "side": (n + i) % 3}
    if attrs:
        for n in counts(6, wide, tier):
            yield {"shape": "attrs", "n": n}


def nodes(case, leaf):
    """leaf: list of nodes"""
    n = case["n"]
    if case["shape"] == "wide":
        c = copies(case["unit"], n - len(leaf))
        k = {"start": 0, "middle": len(c) // 2, "end": len(c)}[case["where"]]
        out = c[:k] + leaf + c[k:]
        return out if case["par"] is None else [["g", *case["par"], [], out]]
    if case["shape"] == "deep":
        out = leaf
        half = n // 2
        out = wrap(out, case["levels"], half)
        if case["side"] == 1:
            out = [["t", "before"]] + out
        elif case["side"] == 2:
            out = out + [["g", "i", False, [], [["t", "after"]]]]
        return wrap(out, case["levels"], n - half)
    return [["g", "div", True, [[f"k{i}", ["s", f"v{i}<\""]] for i in range(n)], leaf]]
