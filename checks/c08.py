"""C08: conversions print nothing, unless the caller asks for it."""
import re

from .common import *  # noqa

RULE = ("Abstract interpretation of the five converters from the source for unknown input with debug and verbose left at their "
        "defaults. Rule: no path reaches a print(), a write to sys.stdout / sys.stderr (or to the stderr object "
        "given by the caller), a warning, a log message or traceback output. The error texts of macros belong to the result.")
MINIMUM = {"functions": 90, "calls outside the package": 20}
NOISY = re.compile(r"(sys\.(__)?std(out|err)(__)?|logging|warnings\.(warn|show)|traceback\.print|pprint\.pprint|pprint\.pp|builtins\.breakpoint|"
                   r"builtins\.print|os\.(write|system)|syslog)\b")


def judge(rep, I):
    for e in I.events.values():
        k, d = e["kind"], e["data"]
        site = ":".join(map(str, e["site"]))
        fn = e["site"][1]
        if k == "print":
            if isinstance(d[1], Ref):
                continue    # into an object of the conversion
            rep.find("print", fn, f"{site}: prints {short(d)}")
        elif k in ("warn", "uwrite", "write"):
            rep.find(k, fn, f"{site}: {k} {short(d)}")
        elif k == "extcall":
            rep.seen("calls outside the package", d[0])
            if NOISY.match(d[0]):
                rep.find("output", f"{fn}:{d[0]}", f"{site}: calls {d[0]}")
        elif k == "unkmethod" and d[1] in ("debug", "info", "warning", "error", "critical", "exception", "log", "writelines") and \
                "logging" in repr(d[0]):
            rep.find("log", fn, f"{site}: {short(d)}")
    coverage(I, rep)


def task(fn, kw):
    def t(rep, repo):
        I = make(repo)
        I.hooks["unkcall-model"] = toc_object
        run(I, "creole", fn, (text(),), kw)
        judge(rep, I)
    return t


tasks = [("html2rest(html)", task("html2rest", {})),
         ("creole2html(text, macros=unknown)", task("creole2html", {"macros": unk("macros"), "strict": unk("strict")})),
         ("creole2html(text)", task("creole2html", {"blog_line_breaks": unk("blog_line_breaks")})),
         ("html2creole(html, strict=unknown)", task("html2creole", {"strict": unk("strict")})),
         ("html2markdown(html)", task("html2markdown", {})),
         ("html2textile(html)", task("html2textile", {}))]
