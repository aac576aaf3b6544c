"""creole2html: the templates of the emitted HTML (shared by C01 and C02)."""
from .common import *  # noqa
from .html import Walker, node_kinds, short
from engine.interp import alts_of


def is_macro_result(v):
    return isinstance(v, Unk) and isinstance(v.src, tuple) and v.src and v.src[0] == "usercall"


def walk_all(rep, repo, kw, escape, balance):
    I = make(repo)
    args = {}

    def rec(I, data, st, node):
        key, env = data
        for p, v in env.items():
            args.setdefault((key[0][:2], p), set()).add(v)
    I.hooks["rec"] = rec
    res = run(I, "creole", "creole2html", (text(),), kw)
    w = Walker(I, rep, args)
    w.find_escape, w.find_balance = escape, balance
    w.trusted = is_macro_result
    for s, v in res:
        for x in walk(v):
            if isinstance(x, Hole):
                for o in x.ops:
                    if o[0] == "replace-by" and isinstance(o[1], str):
                        w.places.add(o[1])
    # the inner ones first: "<p><<toc>></p>" contains "<<toc>>"
    w.places = {p for p in w.places if not any(q != p and q in p for q in w.places)}
    strings = 0
    for s, v in res:
        if isinstance(v, Raise):
            continue
        if is_str(v):
            strings += 1
            w.template(v, "result of creole2html", s)
    rep.add("results", strings)
    while w.todo:
        key = w.todo.pop()
        if key in w.done:
            continue
        w.done.add(key)
        for s, v in I.summ[key].results:
            if isinstance(v, Raise):
                continue
            ks = node_kinds(I, s, key[0][:2])
            for k in ks:
                rep.seen("node kinds", k)
            if is_str(v):
                rep.add("templates")
                w.template(v, f"{key[0][1]} of {'/'.join(ks)[:60]}", s, ks)
            elif isinstance(v, Unk):
                if not is_macro_result(v):
                    rep.note(f"{key[0][1]} returns something unknown: {short(v)}")
    rep.add("holes", w.holes)
    rep.seen("functions", "") if False else None
    for f in I.analysed:
        rep.seen("functions", ".".join(map(str, f[:2])))
    for k, v in I.unmodelled.items():
        rep.note(f"unmodelled: {k} at {v}")
    return I, w
