"""C12 Dependency URLs and copied files agree (real files, inside a per-case scratch directory)."""
import os
import posixpath
import re
import shutil
import sys
import urllib.parse

from hypothesis import strategies as st

from htmltools import HTMLDependency, HTMLDocument, Tag, TagList, head_content
from packaging.version import Version

from vfw import gen, guard, names, sizes, nest
from vfw.core import Check, expect, expect_eq, fail
from vfw.htmltok import decode, tokens
from vfw.oracle import resolve

ENC = re.compile(r"(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/]|%[0-9A-Fa-f]{2})*\Z")


def write(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data.encode("utf-8") if isinstance(data, str) else data)


def tree(root):
    """{relative path: bytes, or None for a directory}"""
    out = {}
    if not os.path.isdir(root):
        return None if not os.path.lexists(root) else "not a directory"
    for d, ds, fs in os.walk(root, followlinks=True):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


def dirs_of(paths):
    out = {}
    for p in paths:
        d = os.path.dirname(p)
        while d:
            out[d] = None
            d = os.path.dirname(d)
    return out


def norm(p):
    return posixpath.normpath(p)


class Env:
    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.out = os.path.join(tmp, "out")
        os.makedirs(self.out)
        self.srcdirs = []
        for i, s in enumerate(case["sources"]):
            if s["pkg"]:
                name = f"vfpkg_{os.getpid()}_{i}_{abs(hash(tmp)) % 10**9}"
                root = os.path.join(tmp, "site", name)
                write(root, "__init__.py", "")
                d = os.path.join(root, s["sub"])
                spec = {"package": name, "subdir": s["sub"]}
            elif s["rel"]:
                d = os.path.join(tmp, "rel", f"s{i}", s["sub"])
                spec = {"subdir": os.path.join("rel", f"s{i}", s["sub"])}
            else:
                d = os.path.join(tmp, "abs", f"s{i}", s["sub"])
                spec = {"subdir": d}
            os.makedirs(d)
            store = os.path.join(tmp, "store", str(i))
            for j, (rel, data) in enumerate(s["files"]):
                if j in s.get("links", ()):  # the file is a symbolic link
                    write(store, f"f{j}", data)
                    os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
                    os.symlink(os.path.join(store, f"f{j}"), os.path.join(d, rel))
                else:
                    write(d, rel, data)
            if s.get("linkdir"):
                write(store, "dir/sub/x.js", "in a linked directory")
                os.symlink(os.path.join(store, "dir"), os.path.join(d, s["linkdir"]))
            for e in s["empty"]:
                os.makedirs(os.path.join(d, e), exist_ok=True)
            self.srcdirs.append((d, spec))

    def files(self, d):
        """Relative paths the dependency lists, in order: (scripts, stylesheets)."""
        fs = [f for f, _ in self.case["sources"][d["src"] % len(self.case["sources"])]["files"]] if d["kind"] == "local" else ["a.js", "we ird/é%.css", "b/c.js"]
        if not fs:
            return [], []
        pre = "./" if d.get("dot") else ""
        return [pre + fs[i % len(fs)] for i in d["script"]], [pre + fs[i % len(fs)] for i in d["sheet"]]

    def dep(self, d):
        sc, sh = self.files(d)
        kw = {}
        if d["kind"] == "local":
            kw["source"] = dict(self.srcdirs[d["src"] % len(self.srcdirs)][1])
        elif d["kind"] == "url":
            kw["source"] = {"href": d["href"]}
        if sc:
            kw["script"] = {"src": sc[0]} if len(sc) == 1 and d["single"] else [{"src": s, **[{}, {"defer": "defer", "type": "module"}, {"integrity": "sha-1<", "async": "", "data-a": "1", "crossorigin": "x"}][i % 3]} for i, s in enumerate(sc)]
        if sh:
            kw["stylesheet"] = {"href": sh[0]} if len(sh) == 1 and d["single"] else [{"href": s, "media": "all", **({"title": "t", "data-b": "2", "rel": "stylesheet"} if i % 2 else {})} for i, s in enumerate(sh)]
        if d["all"]:
            kw["all_files"] = True
        if d["extra"]:
            kw["meta"] = {"name": "m", "content": "c"} if d["single"] else [{"name": "m", "content": "http://x.org/?a=b"}, {"name": "n", "content": "", "http-equiv": "x"}]
            kw["head"] = "<x-h></x-h>" if d["single"] else [[Tag("x-h", id="<"), Tag("x-i", "t")], Tag("x-h"), TagList("é", Tag("style", "a>b"), Tag("x-h"))][len(d["version"]) % 3]
        return HTMLDependency(d["name"], d["version"], **kw)

    def base(self, d, ver):
        return d["name"] + ("-" + str(Version(d["version"])) if ver else "")

    def copied(self, d):
        """What must be in the target directory of a local dependency."""
        root = self.srcdirs[d["src"] % len(self.srcdirs)][0]
        all_ = tree(root)
        if d["all"]:
            return all_
        sc, sh = self.files(d)
        want = {norm(f): all_[norm(f)] for f in sc + sh}
        return {**want, **dirs_of(want)}


def urls(html_text):
    sc, sh = [], []
    for t in tokens(html_text, raw=("script", "style", "x-raw")):
        if t[0] == "open":
            at = {k: decode(v, True) for k, v in t[2]}
            if t[1] == "script" and "src" in at:
                sc.append(at["src"])
            elif t[1] == "link" and "href" in at:
                sh.append(at["href"])
    return sc, sh


def check_url(url, want_base, path, lab):
    """url = want_base/percent-encoded path"""
    b = want_base if not want_base or want_base.endswith("/") else want_base + "/"
    expect(url.startswith(b), f"{lab}: URL {url!r} does not start with {b!r}")
    tail = url[len(b):]
    expect(ENC.match(tail) is not None, f"{lab}: path not percent-encoded: {tail!r}", path=path)
    expect_eq(urllib.parse.unquote(tail, errors="strict"), path, f"{lab}: URL does not decode to the file's path", url=url)


def expected_urls(env, deps, prefix, ver):
    sc, sh = [], []
    for d in deps:
        a, b = env.files(d)
        base = "" if d["kind"] == "none" else d["href"] if d["kind"] == "url" else posixpath.join(prefix or "", env.base(d, ver))
        sc += [(d, base, f) for f in a]
        sh += [(d, base, f) for f in b]
    return sc, sh


def verify_urls(env, html_text, deps, prefix, ver, lab, outdir=None):
    got = urls(html_text)
    want = expected_urls(env, deps, prefix, ver)
    n = 0
    for g, w, k in zip(got, want, ("script", "stylesheet")):
        expect_eq(len(g), len(w), f"{lab}: number of {k} URLs", got_urls=g)
        for u, (d, base, f) in zip(g, w):
            if d["kind"] == "url":
                b = base if base.endswith("/") else base + "/"
                # "href/path": encoded or as written
                if u != b + f:
                    check_url(u, base, f, lab)
            elif d["kind"] == "local":
                check_url(u, base, f, lab)
                if outdir is not None:
                    p = os.path.normpath(os.path.join(outdir, urllib.parse.unquote(u)))
                    expect(os.path.isfile(p), f"{lab}: URL {u!r} names no copied file", looked_for=p)
                    src = os.path.join(env.srcdirs[d["src"] % len(env.srcdirs)][0], f)
                    expect(open(p, "rb").read() == open(src, "rb").read(), f"{lab}: the file at {u!r} differs from its source")
                    n += 1
    return n


def content(env, case, how, objs):
    body = [Tag("p", "text é"), "x"]
    if how == "flat":
        return body + objs
    if how == "nested":
        return [Tag("div", body, Tag("span", objs[:1], _add_ws=False), objs[1:])]
    if how == "body":
        return [Tag("body", objs, body)]
    if how == "html":
        return [Tag("html", Tag("head", objs[:1], Tag("title", "t")), Tag("body", body, objs[1:]))]
    if isinstance(how, list):  # inside the named element
        el = Tag(how[0], objs[:1], Tag("i", objs[1:]), _add_ws=how[1])
        return [el] if how[2] == 0 else [*body, el] if how[2] == 1 else [Tag("html", Tag("body", Tag("div", el), body))]
    if how == "lazy":
        class L:
            def tagify(self):
                nest.work()
                return TagList(*objs)

        return [Tag("div", L()), *body]
    raise ValueError(how)


def save(env, case, step, objs, file):
    via = case["via"]
    c = content(env, case, case["how"], objs)
    kw = dict(libdir=step["libdir"], include_version=step["ver"])
    if step["libdir"] == "lib" and step["ver"]:
        kw = {}
    if via == "tag":
        x = c[0] if len(c) == 1 and isinstance(c[0], Tag) else Tag("main", c)
        return x, lambda: x.save_html(file, **kw)
    if via == "list":
        x = TagList(*c)
        return x, lambda: x.save_html(file, **kw)
    if via == "append":
        x = HTMLDocument()
        for i in c:
            x.append(i)
    else:
        x = HTMLDocument(*c)
    return x, lambda: x.save_html(file, **kw)


def html_of(x, step):
    d = x if isinstance(x, HTMLDocument) else HTMLDocument(x)
    return d.render(lib_prefix=step["libdir"], include_version=step["ver"])["html"]


def inside(path, root):
    return os.path.realpath(path).startswith(os.path.realpath(root) + os.sep)


def test(case, ctx):
    tmp = ctx.tmp()
    env = Env(case, tmp)
    old = os.getcwd()
    os.chdir(tmp)
    sys.path.insert(0, os.path.join(tmp, "site"))
    mods = set(sys.modules)
    try:
        run(case, ctx, env, tmp)
    finally:
        os.chdir(old)
        sys.path.remove(os.path.join(tmp, "site"))
        for m in set(sys.modules) - mods:
            if m.startswith("vfpkg_"):
                del sys.modules[m]


def run(case, ctx, env, tmp):
    checked = 0
    for si, step in enumerate(case["steps"]):
        fdir = os.path.join(env.out, case["dir"])
        os.makedirs(fdir, exist_ok=True)
        file = os.path.join(fdir, case["file"])
        if case["relfile"]:
            file = os.path.relpath(file, tmp)
        libdir, ver = step["libdir"], step["ver"]
        dest = os.path.normpath(os.path.join(fdir, libdir or ""))
        deps = [case["deps"][i % len(case["deps"])] for i in step["use"]] if case["deps"] else []
        # change the sources between saves
        if si:
            for k, rel, data in step["change"]:
                if env.srcdirs:
                    s = k % len(env.srcdirs)
                    fs = case["sources"][s]["files"]
                    if fs:
                        write(env.srcdirs[s][0], fs[rel % len(fs)][0], data)
        res = resolve(deps)
        local = [d for d in res if d["kind"] == "local"]
        targets = {os.path.join(dest, env.base(d, ver)): d for d in local}
        if len(targets) < len(local):
            return
        # whatever is there before
        for where, rel, data in step["pre"]:
            if where < len(local):
                t = os.path.join(dest, env.base(local[where], ver))
                if os.path.islink(t) or os.path.exists(t) and not os.path.isdir(t):
                    continue
                try:
                    write(t, rel, data)
                except OSError:
                    pass  # a file where a directory is needed, or the like
            else:
                try:
                    write(dest, "other-" + rel, data)
                except OSError:
                    pass
        for i in step["link"]:
            if i < len(local):
                t = os.path.join(dest, env.base(local[i], ver))
                if not os.path.lexists(t):
                    el = os.path.join(tmp, "elsewhere", f"{si}-{i}")
                    write(el, "stale.txt", "old")
                    os.makedirs(dest, exist_ok=True)
                    os.symlink(el, t)
        missing = None
        if step["missing"] is not None and local:
            d = local[step["missing"][0] % len(local)]
            listed = sum(env.files(d), [])
            if listed and not d["all"]:
                f = listed[step["missing"][1] % len(listed)]
                p = os.path.join(env.srcdirs[d["src"] % len(env.srcdirs)][0], f)
                keep = open(p, "rb").read()
                missing = (d, f, p, keep)
        objs = [env.dep(d) for d in deps]
        if missing is None:
            before = {k: v for k, v in (tree(fdir) or {}).items()}
            x, go = save(env, case, step, objs, file)
            r = go()
            expect(os.path.isfile(os.path.join(tmp, file)), "save_html() wrote no file")
            expect(os.path.samefile(os.path.join(tmp, r), os.path.join(tmp, file)), "save_html() does not return the path it wrote", returned=r)
            text = open(os.path.join(tmp, file), encoding="utf-8", newline="").read()
            expect_eq(text, html_of(x, step), "the written file is not the rendered document")
            checked += verify_urls(env, text, res, libdir, ver, "saved file", fdir)
            for t, d in targets.items():
                expect_eq(tree(t), env.copied(d), f"contents of the target directory of {d['name']}", target=t)
            # nothing else appeared or disappeared
            after = tree(fdir) or {}
            known = {os.path.relpath(t, fdir) for t in targets}
            parents = set(dirs_of([os.path.join(k, "x") for k in known])) | set(dirs_of([os.path.join(os.path.relpath(dest, fdir), "x")]))
            f0 = case["file"]

            def others(m):
                return {k: v for k, v in m.items() if k != f0 and k not in parents and not any(k == t or k.startswith(t + "/") for t in known)}

            expect_eq(others(after), others(before), "files outside the target directories changed")
        else:
            d, f, p, keep = missing
            t = os.path.join(dest, env.base(d, ver))
            before = tree(t)
            os.remove(p)
            try:
                users = [c for c in local if env.srcdirs[c["src"] % len(env.srcdirs)][0] == env.srcdirs[d["src"] % len(env.srcdirs)][0] and not c["all"] and norm(f) in [norm(g) for g in sum(env.files(c), [])]]
                befores = [(os.path.join(dest, env.base(c, ver)), tree(os.path.join(dest, env.base(c, ver)))) for c in users]
                for lab, go in (("copy_to", lambda: env.dep(d).copy_to(dest, include_version=ver)), ("save_html", save(env, case, step, objs, file)[1])):
                    try:
                        go()
                    except guard.EscapedDelete:
                        raise
                    except Exception:
                        pass
                    else:
                        fail(f"{lab}: listed file {f!r} of {d['name']} is missing, but nothing was raised")
                    expect_eq(tree(t), before, f"{lab}: the target directory was touched although {f!r} is missing")
                for u, b in befores:
                    expect_eq(tree(u), b, "the target directory of a dependency with a missing file was touched")
            finally:
                write(os.path.dirname(p), os.path.basename(p), keep)
            ctx.label("missing file")
        # each dependency by itself
        for i, d in enumerate(res):
            o = env.dep(d)
            cdir = os.path.join(tmp, f"copies{si}-{i}")
            if step["pre"] and d["kind"] == "local":
                write(os.path.join(cdir, env.base(d, ver)), "stale/x", "old")
            before = tree(cdir)
            o.copy_to(cdir, **({} if ver else dict(include_version=ver)))
            if d["kind"] == "local":
                expect_eq(tree(os.path.join(cdir, env.base(d, ver))), env.copied(d), f"copy_to() of {d['name']}")
                expect_eq(sorted(os.listdir(cdir)), [env.base(d, ver)], "copy_to() wrote elsewhere")
            else:
                expect_eq(tree(cdir), before, f"copy_to() of a {d['kind']} dependency copied something")
            a = {} if (libdir, ver) == ("lib", True) else dict(lib_prefix=libdir, include_version=ver)
            verify_urls(env, str(o.as_html_tags(**a)), [d], libdir, ver, "as_html_tags")
            dd = o.as_dict(**a)
            fake = "".join(f'<script src="{esc(s["src"])}"></script>' for s in dd["script"]) + "".join(f'<link href="{esc(s["href"])}"/>' for s in dd["stylesheet"])
            verify_urls(env, fake, [d], libdir, ver, "as_dict")
            if d["kind"] == "local":
                m = o.source_path_map(**a)
                expect_eq(os.path.realpath(m["source"]), os.path.realpath(env.srcdirs[d["src"] % len(env.srcdirs)][0]), "source_path_map: source")
                expect_eq(m["href"], posixpath.join(libdir or "", env.base(d, ver)), "source_path_map: href")
    ctx.nontrivial(checked > 0 or any(s["missing"] for s in case["steps"]))
    ctx.label("URLs checked" if checked else "no local URL", "via " + case["via"], "%d saves" % len(case["steps"]))


def esc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&apos;").replace("\n", "&#10;").replace("\r", "&#13;")


CHARS = ["a", "b", "x", "1", "A", " ", " ", "%", "%", "#", "?", "é", "中", "😀", "e\u0301", "+", "&", "=", ";", ",", "'", '"', "<", ">", "\\", "~", "!", "@", "$", "(", ")", "[", "]", "{", "}", "^", "`", "|", "*", ":", "%20", "%2F", "%25", "%zz", "&amp;",
         ".", "-", "_", "\n", "\t", "..", "\u2028", "\xa0", "\x7f"]
COMP = gen.weighted((1, st.builds(lambda c, n, e: c * n + e, st.sampled_from(["a", "b1", "long-name.", "x y", "z%"]), gen.sizes(3, 18, 2), st.sampled_from(["", ".js", ".min.css", "é"]))), (7, gen.weighted((3, st.sampled_from(["a.js", "b.css", "main.min.js", "c", "d.js", "x.css", "lib"])), (4, st.lists(st.sampled_from(CHARS), min_size=1, max_size=5).map("".join))))).filter(lambda c: c not in (".", "..") and "/" not in c and "\x00" not in c)
if gen.NOVEL:
    COMP = st.one_of(COMP, st.sampled_from(gen.NOVEL).filter(lambda c: c not in (".", "..", "") and "/" not in c and "\x00" not in c and len(c) < 100))
RELPATH = gen.weighted((4, COMP), (3, st.lists(COMP, min_size=2, max_size=4).map("/".join)), (1, st.lists(COMP, min_size=5, max_size=9).map("/".join)))


def consistent(paths):
    """No path is a directory of another one."""
    out = []
    for p in paths:
        if all(p != q and not p.startswith(q + "/") and not q.startswith(p + "/") for q in out):
            out.append(p)
    return out


CONTENT = st.one_of(gen.SHORT, st.sampled_from(["", "\n", "x" * 5000, "\r\n", "\ufeff//"]))
SOURCE = st.builds(lambda ps, c, pkg, rel, sub, empty, links, ld: {"links": links, "linkdir": ld and "lnk d", "files": [[p, c[i % len(c)] + str(i)] for i, p in enumerate(consistent(ps))], "pkg": pkg, "rel": rel, "sub": sub, "empty": [e for e in empty if not any(p == e or p.startswith(e + "/") or e.startswith(p + "/") for p in ps)]},
                   gen.weighted((6, st.lists(RELPATH, min_size=1, max_size=5)), (1, st.lists(RELPATH, min_size=6, max_size=14))), st.lists(CONTENT, min_size=1, max_size=3), gen.weighted((3, st.just(False)), (1, st.just(True))), st.booleans(), st.sampled_from(["lib", "a b/c", "x%y", "www/é"]),
                   st.lists(st.sampled_from(["empty", "e/f"]), max_size=1), gen.weighted((4, st.just([])), (1, st.lists(st.integers(0, 4), min_size=1, max_size=3))), gen.weighted((7, st.just(False)), (1, st.just(True))))
DNAME = gen.weighted((4, st.sampled_from(["a", "b", "c", "a-1", "my lib", "jq.js", "é", "x+y", "A", "(n)", "..a", "-"])), (1, st.text(st.sampled_from("abz09-_.+ ~!$()é'&=,@"), min_size=1, max_size=6).filter(lambda s: s.strip(". ") != "")))
DVER = st.sampled_from(["1", "1.0", "1.10", "1.9", "2.0.1", "1.0a1", "1.0+l.1", "0.0", "1!2", "1.0-1", "v7"])
DEP = st.builds(lambda n, v, k, s, h, sc, sh, a, sg, ex, dot: {"name": n, "version": v, "kind": k, "src": s, "href": h, "script": sc, "sheet": sh, "all": a, "single": sg, "extra": ex, "dot": dot},
                DNAME, DVER, gen.weighted((8, st.just("local")), (1, st.just("url")), (1, st.just("none"))), st.integers(0, 3), st.sampled_from(["http://x.org/l", "http://x.org/l/", "/l", "l/", "//cdn/é", "."]),
                gen.weighted((5, st.lists(st.integers(0, 9), max_size=3)), (1, st.lists(st.integers(0, 19), min_size=4, max_size=9))), st.lists(st.integers(0, 9), max_size=3), gen.weighted((3, st.just(False)), (1, st.just(True))), st.booleans(), st.booleans(), gen.weighted((9, st.just(False)), (1, st.just(True))))
LIBDIR = gen.weighted((3, st.just("lib")), (2, st.none()), (4, st.sampled_from(["", "a/b", "x y/z", "lib/", "é", ".", "a/b/c/d", "up/../l", "./l", "l-1", "a+b", "_", "a//b", "Lib", "A B/C_d", "É", "q"])))
STEP = st.builds(lambda l, v, u, p, m, ch, ln: {"libdir": l, "ver": v, "use": u, "pre": p, "missing": m, "change": ch, "link": ln},
                 LIBDIR, st.booleans(), st.lists(st.integers(0, 5), min_size=1, max_size=5),
                 gen.weighted((1, st.just([])), (2, st.lists(st.tuples(st.integers(0, 4), gen.weighted((3, RELPATH), (2, st.sampled_from(["stale.js", "old/dir/x.css", ".hidden", "a.js/b", "lib/x"]))), CONTENT).map(list), max_size=4))),
                 gen.weighted((4, st.none()), (1, st.tuples(st.integers(0, 4), st.integers(0, 9)).map(list))), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5), CONTENT).map(list), max_size=2), gen.weighted((6, st.just([])), (1, st.lists(st.integers(0, 2), max_size=2))))


def strategy():
    return st.builds(lambda s, d, st_, via, how, di, f, rf: {"sources": s, "deps": d, "steps": st_, "via": via, "how": how, "dir": di, "file": f, "relfile": rf},
                     st.lists(SOURCE, min_size=1, max_size=3), gen.weighted((6, st.lists(DEP, min_size=1, max_size=4)), (1, st.lists(DEP, min_size=5, max_size=9))), gen.weighted((3, st.lists(STEP, min_size=1, max_size=1)), (2, st.lists(STEP, min_size=2, max_size=4))),
                     st.sampled_from(["doc", "append", "tag", "list"]), st.sampled_from(["flat", "nested", "body", "html", "lazy"]), st.sampled_from(["", "", "sub", "p q/r", "é%20"]), st.sampled_from(["page.html", "in dex.htm", "ü#1.html", "noext"]), st.booleans())


def size_cases(tier):
    """Many files, deep directories, many dependencies, big files."""
    step = {"libdir": "lib", "ver": True, "pre": [[0, "stale/x.js", "old"]], "missing": None, "change": [], "link": []}
    base = {"via": "doc", "how": "flat", "dir": "", "file": "page.html", "relfile": False}
    dep = {"name": "a", "version": "1", "kind": "local", "src": 0, "href": "", "script": [], "sheet": [], "all": False, "single": False, "extra": False, "dot": False}

    def src(files):
        return {"files": files, "pkg": False, "rel": False, "sub": "lib", "empty": ["empty/e"]}

    for n in sizes.counts(6, 130, tier):
        files = [[f"d{i % 3}/f{i}.js" if i % 2 else f"f{i}.js", str(i)] for i in range(n)]
        for all_ in (False, True):
            yield {**base, "sources": [src(files)], "deps": [{**dep, "all": all_, "script": list(range(n)), "sheet": [0, n - 1]}], "steps": [{**step, "use": [0]}, {**step, "use": [0], "missing": None if all_ else [0, n - 1]}]}
        if n < 70:
            yield {**base, "sources": [src([["x.js", "x"]]), src([["y.css", "y"], ["z/w.js", "z"]])], "deps": [{**dep, "name": f"n{i}", "src": i % 2, "script": [1], "sheet": [0]} for i in range(n)], "steps": [{**step, "use": list(range(n))}]}
    for depth in list(range(1, 20)) + [40]:
        p = "/".join(f"d{i}" for i in range(depth))
        for all_ in (False, True):
            yield {**base, "sources": [src([[p + "/deep.js", "x"], ["top.css", "y"], ["d0/mid.txt" if depth > 1 else "mid.txt", "z"]])], "deps": [{**dep, "all": all_, "script": [0], "sheet": [1]}], "steps": [{**step, "use": [0]}]}
    for size in (0, 1, 1023, 1024, 4096, 65535, 65536, 65537, 300000, 1 << 20, (1 << 20) + 1):
        for all_ in (False, True):
            yield {**base, "sources": [src([["big/b.js", "0123456789abcdef" * (size // 16) + "x" * (size % 16)]])], "deps": [{**dep, "all": all_, "script": [0]}], "steps": [{**step, "use": [0]}]}


def name_cases(tier):
    """Dependencies inside every element."""
    step = {"libdir": "lib", "ver": True, "pre": [[0, "stale/x.js", "old"]], "missing": None, "change": [], "link": []}
    dep = {"name": "a", "version": "1", "kind": "local", "src": 0, "href": "", "script": [0], "sheet": [1], "all": False, "single": False, "extra": False, "dot": False}
    src = lambda files: {"files": files, "pkg": False, "rel": False, "sub": "lib", "empty": ["empty/e"]}
    for i, n in enumerate(names.NAMES):
        for j in range(3):
            yield {"via": ["doc", "tag", "list", "append"][(i + j) % 4], "how": [n, i % 2 == 0, j], "dir": "", "file": "page.html", "relfile": False, "sources": [src([["x.js", "x"], ["x.css", "c"]]), src([["y.css", "y"], ["z/w.js", "z"]])],
                   "deps": [{**dep, "all": (i + j) % 2 == 0}, {**dep, "name": "b", "src": 1, "sheet": [0], "script": [1]}], "steps": [{**step, "use": [0, 1]}]}


CHECKS = [
    Check("every element", test, cases=name_cases),
    Check("sizes", test, cases=size_cases),
    Check("save_html", test, strategy=strategy, quick=350, thorough=12000),
]
