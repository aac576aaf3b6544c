"""The command line tools and the README / publish helpers: small entries, analysed with the converters
replaced by a stub that returns an opaque text or fails."""
from .common import *  # noqa

ROOT = Unk(("path", "package root"))


def stub(c):
    def h(I, st, env, node):
        kw = {k: v for k, v in env.items() if isinstance(k, str) and not k.startswith("__")}
        t = kw.get("markup_string", kw.get("html_string", NONE))
        s = st.copy()
        s.trace = s.trace + (("convert", c, t, tuple(sorted(kw.items(), key=lambda x: x[0]))),)
        make_text = I.hooks.get("converted")
        v = make_text(c, t) if make_text else hole(("converted", c, t))
        return [(s, v), (s.copy(), Raise(ExcV("ConversionError", (), ("stub", c, 0), "conversion")))]
    return h


def machine(repo, converted=None):
    I = make(repo)
    for c in CONVERTERS:
        lookup(I, "creole", c)
        I.hooks[("func", "creole", c)] = stub(c)
    I.hooks["io-errors"] = True
    if converted is not None:
        I.hooks["converted"] = converted
    return I


def pathkey(p):
    """one value for the spellings of a path: p, Path(p), str(Path(p))"""
    while True:
        if isinstance(p, Unk) and p.src[0] == "path" and len(p.src) == 2 and not isinstance(p.src[1], (str, tuple)):
            p = p.src[1]
        elif isinstance(p, Str) and len(p.parts) == 1 and isinstance(p.parts[0], Hole) and not p.parts[0].ops and \
                p.parts[0].src[0] == "str" and isinstance(p.parts[0].src[1], Unk):
            p = p.parts[0].src[1]
        else:
            return p


def mode_of(f):
    m = f.src[2]
    return m.v if isinstance(m, Const) and isinstance(m.v, str) else "?"


def writable(mode):
    m = mode.v if isinstance(mode, Const) and isinstance(mode.v, str) else "?"
    return any(c in m for c in "wax+?")


def source_text(v, enc_ok):
    """the file whose complete text the value is, or None"""
    if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and not v.parts[0].ops:
        s = v.parts[0].src
        if s[0] == "content" and strict(s[1].src[6]) and enc_ok(s[1].src[3]):
            return s[1]
        if s[0] == "decoded" and s[1].src[0] == "bytes" and strict(s[3]) and enc_ok(s[2]):
            return s[1].src[1]
    return None


def strict(e):
    return isinstance(e, Const) and e.v in (None, "strict")


def utf8(e):
    return isinstance(e, Const) and isinstance(e.v, str) and e.v.lower().replace("_", "-") in ("utf-8", "utf8")


def written(trace):
    """{path: [mode, encoding, errors, [values written], state]} of the files at the end of the trace"""
    files = {}
    for t in trace:
        if t[0] == "open" and writable(t[2]):
            if t[2] == Const("a") and pathkey(t[1]) in files:
                continue
            files[pathkey(t[1])] = [t[2], t[3], None, []]
        elif t[0] == "write":
            f = files.setdefault(pathkey(t[1].src[1]), [t[1].src[2], t[1].src[3], None, []])
            f[2] = t[1].src[6]
            f[3].append(t[2])
        elif t[0] == "fs":
            name, args = t[1].split(".")[-1], [pathkey(a) for a in t[2]]
            if name in ("replace", "rename", "move", "renames") and len(args) > 1:
                if args[0] in files:
                    files[args[1]] = files.pop(args[0])
                else:
                    files[args[1]] = [NONE, NONE, None, [Unk(("moved", args[0]))]]
            elif name in ("copy", "copyfile", "copy2") and len(args) > 1:
                files[args[1]] = files.get(args[0]) or [NONE, NONE, None, [Unk(("copied", args[0]))]]
            elif name in ("remove", "unlink") and args:
                files.pop(args[0], None)
    return files


def destroys(t, path):
    """does the operation remove or truncate the file?"""
    if t[0] == "open":
        m = t[2].v if isinstance(t[2], Const) and isinstance(t[2].v, str) else "?"
        return pathkey(t[1]) == path and any(c in m for c in "w?")
    if t[0] == "write":
        return pathkey(t[1].src[1]) == path
    if t[0] == "truncate":
        return pathkey(t[1].src[1]) == path
    if t[0] == "fs":
        name, args = t[1].split(".")[-1], [pathkey(a) for a in t[2]]
        if name in ("remove", "unlink", "truncate", "rmdir", "rmtree", "rename", "move", "replace") and args and args[0] == path:
            return True
    return False
