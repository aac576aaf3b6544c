"""C12: the command line tools convert the source file with the right converter and encoding."""
from .cli import *  # noqa

RULE = ("Abstract interpretation of the command line entry points named in pyproject.toml with the converters replaced by stubs. Rule, for every path "
        "which ends normally: the one conversion is done by the converter the tool is named after, with its default options, of the complete text of the "
        "source file decoded strictly with --encoding (utf-8 by default), and the destination holds exactly the converted text, encoded strictly with the same encoding.")
MINIMUM = {"tools": 4, "outcomes": 16, "complete conversions": 4}


def task(tool):
    def t(rep, repo):
        mod, fn = scripts(repo)[tool]
        I = machine(repo)
        res = run(I, mod, fn)
        pos, enc, default = arguments(I)
        if len(pos) < 2 or enc is None:
            raise LookupError(f"{fn}: arguments not found")
        if not utf8(default):
            rep.find("default-encoding", fn, f"{tool}: --encoding defaults to {default!r}")
        rep.seen("tools", tool)

        def enc_ok(e):
            return is_arg(e, enc)
        for s, v in res:
            rep.add("outcomes")
            if isinstance(v, Raise):
                continue
            conv = [e for e in s.trace if e[0] == "convert"]
            if len(conv) != 1 or conv[0][1] != tool:
                rep.find("converter", fn, f"{tool}: conversions on a path that ends normally: {[e[1] for e in conv]}")
                continue
            _, c, text_, kw = conv[0]
            f = source_text(text_, enc_ok)
            if f is None or not is_arg(f.src[1], pos[0]):
                rep.find("source", fn, f"{tool}: converts {short(text_)}, not the text of the source file in the chosen encoding")
            opts = {k: x for k, x in kw if k not in ("markup_string", "html_string")}
            want = {"blog_line_breaks": Const(True), "strict": Const(False), "debug": Const(False), "verbose": NONE}
            for k, x in opts.items():
                if x not in (want.get(k, NONE), NONE):
                    rep.find("options", f"{fn}:{k}", f"{tool}: converts with {k}={x!r}")
            done = False
            for p, (mode, e, err, data) in written(s.trace).items():
                if not is_arg(p, pos[1]):
                    continue
                done = True
                text2 = data[0] if len(data) == 1 else NONE
                binary = "b" in str(mode.v) if isinstance(mode, Const) else False
                if binary and isinstance(text2, Unk) and text2.src[0] == "encoded":
                    e, err, text2 = text2.src[2], text2.src[3], text2.src[1]
                elif binary:
                    e = NONE
                if text2 != hole(("converted", c, text_)):
                    rep.find("result", fn, f"{tool}: writes {short(data)}, not the converted text")
                elif not enc_ok(e) or not strict(err):
                    rep.find("encoding", fn, f"{tool}: writes with encoding {short(e)}, errors {short(err)}")
                elif not isinstance(mode, Const) or "w" not in str(mode.v) and "x" not in str(mode.v):
                    rep.find("mode", fn, f"{tool}: opens the destination with mode {mode!r}")
                else:
                    rep.add("complete conversions")
            if not done:
                rep.find("result", fn, f"{tool}: a path ends normally without writing the destination")
        coverage(I, rep)
    return t


tasks = [(f"{c}", task(c)) for c in ("creole2html", "html2creole", "html2rest", "html2textile")]
