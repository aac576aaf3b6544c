"""A small model of the file system for the README helpers."""
from .small import *  # noqa

KINDS = {"rst": ("update_rst_readme", "assert_rst_readme", "README.rst", "html2rest"),
         "markdown": ("update_markdown_readme", "assert_markdown_readme", "README.md", "html2markdown")}
SOURCE = Unk(("path", "package root", Const("README.creole")))


def path_of(name):
    return Unk(("path", "package root", Const(name)))


def world(repo, kind, readme, generated):
    """an interpreter in which README.creole exists, and the generated file has the content `readme` (None: missing)"""
    target = path_of(KINDS[kind][2])

    def content(I, st, f):
        p = pathkey(f.src[1])
        w = written(st.trace)
        if p in w:
            return join(w[p][3])
        if p == target:
            return readme
        if p == SOURCE:
            return hole(("text of README.creole",))
        return None

    def exists(I, st, p, what):
        p = pathkey(p)
        if p == target:
            return what != "is_dir" and (readme is not None or p in written(st.trace))
        if p == SOURCE:
            return what != "is_dir"
        if p == ROOT:
            return what != "is_file"
        return None

    I = machine(repo, lambda c, t: generated if c == KINDS[kind][3] else hole(("converted", c)))
    I.hooks["file-content"] = content
    I.hooks["file-exists"] = exists
    return I


def join(values):
    parts = []
    for v in values:
        if not is_str(v):
            v = hole(("str", v))
        parts.extend(parts_of(v))
    return mk_str(parts)


def update(repo, kind, readme, generated):
    """[(state, value, content written or None)]"""
    I = world(repo, kind, readme, generated)
    target = path_of(KINDS[kind][2])
    out = []
    for s, v in run(I, "creole.setup_utils", KINDS[kind][0], (ROOT,)):
        w = written(s.trace).get(target)
        out.append((s, v, join(w[3]) if w else None))
    return I, out


def check(repo, kind, readme, generated):
    I = world(repo, kind, readme, generated)
    return I, run(I, "creole.setup_utils", KINDS[kind][1], (ROOT,))
