"""C04: the converters from HTML never raise on any HTML string."""
from .c03 import judge
from .common import *  # noqa

RULE = ("Abstract interpretation of html2creole, html2rest, html2textile and html2markdown from the source for an unknown HTML string "
        "(the callbacks of html.parser.HTMLParser are called with unknown tags, attributes and texts in any order), with every exception of "
        "the language and of the library calls modelled, to a fixpoint. Rule: no path ends with an uncaught "
        "exception, except the Html2restException for one link text with two different targets in a table.")
MINIMUM = {"functions": 60, "node kinds": 12, "results": 4}


def task(fn, kw):
    def t(rep, repo):
        I = make(repo)
        res = run(I, "creole", fn, (text(),), kw)
        judge(rep, I, res, lambda e: exc_name(e) == "Html2restException")
    return t


tasks = [(f"{fn}(html)", task(fn, {})) for fn in ("html2rest", "html2creole", "html2markdown", "html2textile")]
tasks.insert(1, ("html2creole(html, strict=unknown)", task("html2creole", {"strict": unk("strict")})))
