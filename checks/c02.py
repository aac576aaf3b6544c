"""C02: creole2html emits balanced HTML."""
from .c2h import walk_all
from .common import *  # noqa

RULE = ("Abstract interpretation of creole2html from the source, for an unknown markup string: for every kind of node the "
        "parser can create, the string templates HtmlEmitter.emit_node returns are walked through the HTML syntax with a "
        "stack of the open tags. Rule (structural induction): if the markup emitted for the children is balanced, every "
        "template is balanced: each start tag is closed by its end tag in the same template, in order, repetitions "
        "do not change the open tags, quotes and tags are finished, and emitted markup is never cut.")
MINIMUM = {"templates": 25, "holes": 40, "node kinds": 20, "results": 2}


OPTIONS = {"verbose": Num(("param", "verbose"), 0, None), "strict": unk("strict"), "blog_line_breaks": unk("blog_line_breaks")}


def own_macros(rep, repo):
    walk_all(rep, repo, dict(OPTIONS, macros=unk("macros")), False, True)


def default(rep, repo):
    walk_all(rep, repo, OPTIONS, False, True)


tasks = [("creole2html(text, macros=unknown, options=unknown)", own_macros),
         ("creole2html(text, options=unknown)", default)]
