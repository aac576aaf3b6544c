"""C07: conversions are independent of each other and of their environment."""
import re

from .common import *  # noqa

RULE = ("Abstract interpretation of the five converters from the source for unknown input. Rule: on no path an object which "
        "exists before the conversion is modified - module globals, class attributes, function attributes, default "
        "arguments, objects made at import time - nor an object the caller passes in (macros, block_rules, unknown_emit), "
        "and nothing outside is read or written: no files, environment variables, clock, random numbers, "
        "processes, object identities or hashes.")
MINIMUM = {"functions": 90, "calls outside the package": 20}
OUTSIDE = re.compile(r"(time|datetime|random|secrets|uuid|locale|socket|subprocess|tempfile|shutil|getpass|platform|urllib\.request)\.|"
                     r"os\.(?!path\.(join|split|splitext|basename|dirname|normpath)|linesep|sep|fspath)|builtins\.(open|id|hash|input|globals|vars|exec|eval)$|"
                     r"codecs\.open|io\.open|pathlib\.|sys\.(set|_getframe)|gc\.|threading\.|"
                     r"warnings\.(filter|simple|reset)|importlib\.|atexit\.|signal\.|logging\.(basic|disable)|__builtin")


def judge(rep, I):
    for e in I.events.values():
        k, d = e["kind"], e["data"]
        site = ":".join(map(str, e["site"]))
        fn = e["site"][1]
        if k == "static-write":
            rep.find("shared-state-modified", f"{fn}:{describe(d)}", f"{site}: {short(d)} is modified")
        elif k == "caller-write":
            rep.find("argument-modified", f"{fn}:{describe(d)}", f"{site}: an object of the caller is modified: {short(d)}")
        elif k in ("open", "read", "write", "exec"):
            rep.find("outside", f"{fn}:{k}", f"{site}: {k} {short(d)}")
        elif k == "extcall":
            rep.seen("calls outside the package", d[0])
            if OUTSIDE.match(d[0]):
                rep.find("outside", f"{fn}:{d[0]}", f"{site}: calls {d[0]}")
    coverage(I, rep)


def describe(d):
    if d[0] == "object":
        return "object"
    return ".".join(x if isinstance(x, str) else ".".join(map(str, x)) if isinstance(x, tuple) and all(isinstance(y, str) for y in x)
                    else "arg" for x in d)


def task(fn, kw):
    def t(rep, repo):
        I = make(repo)
        I.hooks["unkcall-model"] = toc_object
        run(I, "creole", fn, (text(),), kw)
        judge(rep, I)
    return t


tasks = [("html2rest(html)", task("html2rest", {})),
         ("creole2html(text, macros=unknown, block_rules=default)", task("creole2html", {"macros": unk("macros")})),
         ("creole2html(text)", task("creole2html", {})),
         ("html2creole(html, strict=unknown)", task("html2creole", {"strict": unk("strict")})),
         ("html2markdown(html)", task("html2markdown", {})),
         ("html2textile(html)", task("html2textile", {}))]
