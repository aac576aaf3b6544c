"""C03: creole2html never raises on any markup string."""
from .common import *  # noqa

RULE = ("Abstract interpretation of creole2html(text, options) from the source for an unknown string, with every exception of "
        "the language and of the library calls modelled (missing attributes and keys, list indices, None operands, "
        "conversions, unbound names, exceptions of macros, ...), to a fixpoint over all recursive calls. Rule: no path ends with "
        "an uncaught exception; with macros given by the caller the only exception is the TypeError for callable macros.")
MINIMUM = {"functions": 40, "node kinds": 20, "results": 2}
OPTIONS = {"strict": unk("strict"), "blog_line_breaks": unk("blog_line_breaks")}


def judge(rep, I, res, allowed=lambda e: False):
    for s, v in res:
        rep.add("results")
        if isinstance(v, Raise):
            e = v.exc
            rep.seen("exceptions seen", exc_construct(e))
            if not allowed(e):
                rep.find("uncaught-exception", exc_construct(e), exc_text(e))
    coverage(I, rep)


def default(rep, repo):
    I = make(repo)
    judge(rep, I, run(I, "creole", "creole2html", (text(),), OPTIONS))


def macros(rep, repo):
    I = make(repo)
    I.hooks["unkcall-model"] = toc_object
    res = run(I, "creole", "creole2html", (text(),),
              dict(OPTIONS, macros=unk("macros"), verbose=Num(("param", "verbose"), 0, 2)))
    judge(rep, I, res, lambda e: exc_name(e) == "TypeError" and e.why == "raise" and "Callable macros" in repr(e.args))


tasks = [("creole2html(text, options)", default), ("creole2html(text, macros=unknown, verbose=0..2)", macros)]
