"""C13: updating and checking the generated README files agree."""
from .readme import *  # noqa

RULE = ("Abstract interpretation of the update and assert functions for README.rst and README.md over a symbolic file system: the generated text is a "
        "template with unknown texts, the README file holds what an update wrote, or that with a character, line or blank changed, "
        "added or removed at any place. Rule: after an update the check accepts and another update writes nothing; for every changed content "
        "and for a missing file the check fails on every path and the update rewrites the file to what the check accepts.")
MINIMUM = {"contents": 20, "outcomes": 100, "updates": 10}
A, B = hole(("generated text", 1)), hole(("generated text", 2))


def text_of(*parts):
    ps = []
    for p in parts:
        ps.extend(parts_of(p) if not isinstance(p, str) else (p,))
    return mk_str(ps)


def variants():
    """(what, generated text, text in the file instead)"""
    x = text_of(A, "x", B)
    yield "changed character", x, text_of(A, "y", B)
    yield "changed case", x, text_of(A, "X", B)
    yield "removed character", x, text_of(A, B)
    yield "added character", x, text_of(A, "xx", B)
    yield "blank instead of a character", x, text_of(A, " ", B)
    l = text_of(A, "\nline\n", B)
    yield "removed line", l, text_of(A, "\n", B)
    yield "added line", l, text_of(A, "\nline\nline\n", B)
    yield "line break instead of a blank", text_of(A, "a b", B), text_of(A, "a\nb", B)
    yield "number of blanks", text_of(A, "a b", B), text_of(A, "a  b", B)
    yield "indentation", text_of(A, "\n  b", B), text_of(A, "\n b", B)
    yield "trailing blank in a line", text_of(A, "a\nb", B), text_of(A, "a \nb", B)
    yield "empty line", text_of(A, "a\n\nb", B), text_of(A, "a\nb", B)
    t = text_of(A, "x")
    yield "last character", t, text_of(A, "y")
    yield "added at the end", t, text_of(A, "xy")
    yield "line added at the end", t, text_of(A, "x\ny")
    yield "line removed at the end", text_of(A, "x\ny"), t
    yield "blank added at the end", t, text_of(A, "x ")
    yield "line break added at the end", t, text_of(A, "x\n")
    h = text_of("x", A)
    yield "first character", h, text_of("y", A)
    yield "added at the start", h, text_of("yx", A)
    yield "line added at the start", h, text_of("y\nx", A)
    yield "line removed at the start", text_of("y\nx", A), h


def replace_head(w, old, new):
    """the file content w, which starts with the text old, with new instead"""
    ps, q = list(w.parts), list(parts_of(old))
    while q:
        x, y = q.pop(0), ps.pop(0)
        if x == y:
            continue
        if isinstance(x, str) and isinstance(y, str) and y.startswith(x) and not q:
            ps.insert(0, y[len(x):])
            continue
        return None
    return mk_str(list(parts_of(new)) + ps)


def rejects(e):
    return exc_name(e) == "AssertionError"


def generate(rep, repo, kind, gen):
    """the contents an update writes if the file is missing"""
    out = []
    I, res = update(repo, kind, None, gen)
    coverage(I, rep)
    for s, v, w in res:
        rep.add("outcomes")
        if isinstance(v, Raise):
            continue
        rep.add("updates")
        if w is None:
            rep.find("update", f"{KINDS[kind][0]}:missing file", f"a missing {KINDS[kind][2]} is not written")
        elif w not in out:
            out.append(w)
    if not out:
        raise LookupError(f"{KINDS[kind][0]} writes nothing")
    return out


def accepts(rep, repo, kind, gen, content, what):
    I, res = check(repo, kind, content, gen)
    ok = False
    for s, v in res:
        rep.add("outcomes")
        if not isinstance(v, Raise):
            ok = True
        elif rejects(v.exc):
            rep.find("assert", f"{KINDS[kind][1]}:{what}", f"{exc_text(v.exc)[:200]}: the check can fail right after an update ({what})")
    if not ok:
        rep.find("assert", f"{KINDS[kind][1]}:{what}", f"the check fails right after an update ({what})")


def task(kind):
    def t(rep, repo):
        upd, asr, name, conv = KINDS[kind]
        gen = hole(("generated text",))
        for w in generate(rep, repo, kind, gen):
            rep.add("contents")
            accepts(rep, repo, kind, gen, w, "unchanged")
            I, res = update(repo, kind, w, gen)
            for s, v, w2 in res:
                rep.add("outcomes")
                if not isinstance(v, Raise) and w2 is not None:
                    rep.find("update", f"{upd}:unchanged", f"an up-to-date {name} is written again")
        I, res = check(repo, kind, None, gen)
        for s, v in res:
            if not isinstance(v, Raise):
                rep.find("assert", f"{asr}:missing file", f"the check accepts a missing {name}")
        I, res = check(repo, kind, EMPTY, gen)
        for s, v in res:
            if not isinstance(v, Raise):
                rep.find("assert", f"{asr}:empty file", f"the check accepts an empty {name}")
        for what, gen, other in variants():
            w = generate(rep, repo, kind, gen)[0]
            bad = replace_head(w, gen, other)
            if bad is None:
                rep.find("update", f"{upd}:content", f"{name} does not start with the generated text: {short(w)}")
                break
            rep.add("contents")
            I, res = check(repo, kind, bad, gen)
            for s, v in res:
                rep.add("outcomes")
                if not isinstance(v, Raise):
                    rep.find("assert", f"{asr}:{what}", f"the check accepts a {name} with another text ({what})")
            I, res = update(repo, kind, bad, gen)
            for s, v, w2 in res:
                rep.add("outcomes")
                if isinstance(v, Raise):
                    continue
                rep.add("updates")
                if w2 is None:
                    rep.find("update", f"{upd}:{what}", f"{upd} leaves a {name} with another text as it is ({what})")
                elif replace_head(w2, gen, gen) is None:
                    rep.find("update", f"{upd}:{what}", f"{upd} writes {short(w2)}")
    return t


tasks = [(k, task(k)) for k in KINDS]
