"""C01: creole2html escapes the text of the markup in the HTML it emits."""
from .c2h import walk_all
from .common import *  # noqa

RULE = ("Abstract interpretation of creole2html from the source, for an unknown markup string: for every kind of node the "
        "parser can create, the string templates HtmlEmitter.emit_node returns (constant text, unknown texts with the "
        "operations applied to them, repetitions) are walked through the HTML syntax. Rule: at every place where text of "
        "the markup enters a template, the characters < & (text) or & and the quote character (attribute value) must have been turned "
        "into entities which read back as the same character, or be impossible for the text by the regular expression "
        "it comes from; emitted markup and macro results may only be inserted as text, never inside of a tag.")
MINIMUM = {"templates": 25, "holes": 40, "node kinds": 20, "results": 2}


OPTIONS = {"verbose": Num(("param", "verbose"), 0, None), "strict": unk("strict"), "blog_line_breaks": unk("blog_line_breaks")}


def own_macros(rep, repo):
    walk_all(rep, repo, dict(OPTIONS, macros=unk("macros")), True, False)


def default(rep, repo):
    walk_all(rep, repo, OPTIONS, True, False)


tasks = [("creole2html(text, macros=unknown, options=unknown)", own_macros),
         ("creole2html(text, options=unknown)", default)]
