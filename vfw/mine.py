"""Fuzzing dictionary: constants of the code under test.

Only steers generation (which strings, names and sizes get tried more often); verdicts never
look at the source.
"""
import ast, json, os

FILES = ("_core.py", "_util.py", "_jsx.py", "__init__.py")


def _docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                out.add(id(n.body[0].value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            out.add(id(n.value))
    return out


def collect(pkgdir):
    strs, ints = set(), set()
    for f in FILES:
        try:
            tree = ast.parse(open(os.path.join(pkgdir, f), encoding="utf-8").read())
        except (OSError, SyntaxError):
            continue
        skip = _docstrings(tree)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in skip:
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 60:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 60:
                    strs.add(v.decode("latin-1"))
                elif isinstance(v, int) and not isinstance(v, bool) and abs(v) <= 100000:
                    ints.add(v)
                elif isinstance(v, float) and v == int(v) and abs(v) <= 100000:
                    ints.add(int(v))
    return strs, ints


_cache = None


def dictionary():
    """(all strings, all ints, novel strings, novel ints), sorted lists."""
    global _cache
    if _cache is None:
        s, i = collect("/repo/htmltools")
        try:
            base = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "base_consts.json")))
        except OSError:
            base = {"str": [], "int": []}
        ok = lambda v: not any(0xD800 <= ord(c) <= 0xDFFF for c in v)
        s = {v for v in s if ok(v)}
        _cache = (sorted(s), sorted(i), sorted(s - set(base["str"])), sorted(i - set(base["int"])))
    return _cache
