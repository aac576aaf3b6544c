"""Runs the command line tools of pyproject.toml in the abstract interpreter."""
import os
import tomllib

from .small import *  # noqa


def scripts(repo):
    """{tool name: (module, function)} for the converters"""
    with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
        t = tomllib.load(f)
    s = dict(t.get("tool", {}).get("poetry", {}).get("scripts", {}))
    s.update(t.get("project", {}).get("scripts", {}))
    return {k: tuple(v.split(":")) for k, v in s.items() if k in CONVERTERS}


def arguments(I):
    """(source, destination, encoding option) as the parser is set up"""
    pos, enc, default = [], None, None
    for e in I.events.values():
        if e["kind"] == "unkmethod" and e["data"][1] == "add_argument":
            _, _, args, kw = e["data"]
            kw = dict(kw)
            names = [a.v for a in args if isinstance(a, Const) and isinstance(a.v, str)]
            dest = kw.get("dest")
            opts = [n for n in names if n.startswith("-")]
            if names and not opts:
                pos.append(names[0])
            elif any(n == "--encoding" for n in opts):
                enc = dest.v if isinstance(dest, Const) else "encoding"
                default = kw.get("default", NONE)
    return pos, enc, default


def is_arg(v, name):
    v = pathkey(v)
    return isinstance(v, Unk) and v.src[0] == "attr" and v.src[2] == name and "parse_args" in repr(v.src[1])


def arg_of(trace_value):
    return trace_value
