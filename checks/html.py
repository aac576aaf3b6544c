"""Walks the string templates the HTML emitter returns, in the HTML syntax.

A template is a sequence of constant text, holes (unknown texts, with the operations applied to them) and
repetitions.  The walker keeps the position in the HTML syntax (text, tag, attribute value) and the open tags
and asks for every hole whether a special character of the source can arrive there."""
import html as htmllib
import re
import re._constants as C

from engine import regex
from engine.interp import alts_of
from engine.ops import probe
from engine.values import *  # noqa

VOID = {"br", "hr", "img", "input", "meta", "link", "col", "area", "base", "wbr", "source", "track", "embed"}
STRIPS = {"strip", "lstrip", "rstrip"}
EVIL = "<>&\"'"


# ------------------------------------------------------------------ regular expressions
def cat_match(cat, ch):
    return {C.CATEGORY_DIGIT: ch.isdigit(), C.CATEGORY_NOT_DIGIT: not ch.isdigit(),
            C.CATEGORY_SPACE: ch.isspace(), C.CATEGORY_NOT_SPACE: not ch.isspace(),
            C.CATEGORY_WORD: ch.isalnum() or ch == "_", C.CATEGORY_NOT_WORD: not (ch.isalnum() or ch == "_"),
            }.get(cat, True)


def in_match(av, ch):
    neg, r = False, False
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            r = r or chr(a) == ch
        elif op is C.RANGE:
            r = r or a[0] <= ord(ch) <= a[1]
        elif op is C.CATEGORY:
            r = r or cat_match(a, ch)
        else:
            return True
    return r != neg


def may_contain(rx, g, ch):
    """may the group g of the regular expression contain the character ch? (lookarounds consume nothing)"""
    info = regex.info(rx.pattern, rx.flags)
    sub = info.tree if g == 0 else info.subs.get(g)
    if sub is None:
        return True

    def go(sub, depth):
        for op, av in sub:
            if op is C.LITERAL:
                if chr(av) == ch:
                    return True
            elif op is C.NOT_LITERAL:
                if chr(av) != ch:
                    return True
            elif op is C.ANY:
                return True
            elif op is C.IN:
                if in_match(av, ch):
                    return True
            elif op is C.GROUPREF:
                if depth > 3 or go(info.subs[av], depth + 1):
                    return True
            elif op in (C.ASSERT, C.ASSERT_NOT, C.AT):
                continue
            elif op is C.CATEGORY:
                if cat_match(av, ch):
                    return True
            else:
                for x in info._children(op, av):
                    if go(x, depth):
                        return True
        return False
    return go(sub, 0)


def through(ops, ch):
    """what the operations make of one character; None: unknown operation"""
    s = ch
    for op in ops:
        if op[0] == "sub-rest" and len(op) > 1 and isinstance(op[1], RxV) and len(s) == 1:
            try:
                if re.compile(op[1].pattern, op[1].flags).fullmatch(s):
                    s = ""
                    continue
            except re.error:
                pass
        s = probe((op,), s) if len(s) < 2 or op[0] in ("replace", "escape", "map", "json", "quote") else s
        if s is None:
            return None
    return s


class Walker:
    def __init__(self, I, rep, resolve_args=None):
        self.I = I
        self.rep = rep
        self.args = resolve_args or {}
        self.todo = []
        self.done = set()
        self.places = set()     # placeholder texts replaced at the end
        self.where = ""
        self.st = None
        self.kinds = ("-",)
        self.find_escape = True
        self.find_balance = True
        self.trusted = lambda v: False
        self.holes = 0
        self.templates = 0

    # -------------------------------------------------------- characters in holes
    def leaks(self, src, ops, ch, depth=0):
        """reason why the character `ch` can arrive unescaped / other than as itself, or None"""
        r = through(ops, ch)
        if r is None:
            self.rep.note(f"unknown operation on a text: {[o[0] for o in ops]} ({self.where})")
            return None
        if r == ch:
            bad = "arrives as it is"
        elif r == "":
            return None
        elif htmllib.unescape(r) != ch:
            bad = f"arrives as {r!r}"
        else:
            return None
        if not self.can_contain(src, ch, depth):
            return None
        return bad

    def can_contain(self, src, ch, depth=0):
        if depth > 8:
            return True
        k = src[0]
        st = self.st
        if k == "num" or k == "chr" and False:
            return False
        if k == "re" and isinstance(src[1], RxV):
            return may_contain(src[1], src[2], ch)
        if k == "kind":
            return any(not isinstance(self.I.records[i][0], Const) for i in self.I.confirmed)
        if k == "arg" and len(src) > 2 and (src[1], src[2]) in self.args:
            return any(self.value_contains(v, ch, depth + 1) for v in self.args[src[1], src[2]])
        if k == "tpl":
            return self.value_contains(src[1], ch, depth + 1)
        if len(src) == 2 and isinstance(src[1], tuple) and src[1] and isinstance(src[1][0], str) and src[1][0].startswith("sym"):
            vals = self.field_values(src[0], src[1])
            if vals is None:
                return True
            return any(self.value_contains(v, ch, depth + 1) for v in vals)
        return True

    def value_contains(self, v, ch, depth):
        if v is None:
            return True
        for p in parts_of(v) if is_str(v) else ():
            if self.part_contains(p, ch, depth):
                return True
        return not is_str(v)

    def part_contains(self, p, ch, depth):
        if isinstance(p, str):
            return ch in p
        if isinstance(p, Hole):
            r = through(p.ops, ch)
            if r is not None and r != ch and not (r and ch in r):
                return False
            return self.can_contain(p.src, ch, depth)
        if isinstance(p, Star):
            return any(self.part_contains(q, ch, depth) for a in p.alts for q in a)
        return False

    def field_values(self, field, nid):
        st = self.st
        idx = sorted(self.I.confirmed)
        if st is not None and nid in st.heap:
            idx = self.I.sym_cands(st, st.heap[nid])
        out = []
        for i in idx:
            out.extend(self.I.raws.get((i, field), ()))
        return out or None

    # -------------------------------------------------------- templates
    def report(self, what, rule, construct, text):
        if what == "escape" and not self.find_escape or what == "balance" and not self.find_balance:
            return
        for k in self.kinds:
            self.rep.find(rule, f"{k}:{construct}", f"{self.where}: {text}")

    def hole_name(self, h):
        src = h.src
        if src[0] in ("re",):
            n = regex.info(src[1].pattern, src[1].flags).names.get(src[2], src[2])
            base = f"group-{n}"
        elif src[0] in ("tpl", "rec", "arg"):
            base = src[0]
        else:
            base = str(src[0])
        return base

    def template(self, v, where, st=None, kinds=("-",)):
        self.where, self.st, self.kinds = where, st, kinds
        self.templates += 1
        cfg = self.walk(parts_of(v), ("T", (), (), ""))
        mode, tag, stack, _ = cfg
        if mode != "T":
            self.report("balance", "unfinished-tag", "end", f"the text ends inside of a tag: {short(v)}")
        elif stack:
            self.report("balance", "unclosed-tag", "+".join(map(tagname, stack)), f"tags stay open: {short(v)}")

    def walk(self, parts, cfg):
        for p in parts:
            if isinstance(p, str):
                cfg = self.literal(p, cfg)
            elif isinstance(p, Hole):
                cfg = self.hole(p, cfg)
            elif isinstance(p, Star):
                for a in sorted(p.alts, key=repr):
                    c = self.walk(a, cfg)
                    if c[0] in ("N", "A") and cfg[0] in ("N", "A") and c[2] == cfg[2]:
                        cfg = ("A",) + tuple(cfg[1:]) if "A" in (c[0], cfg[0]) else cfg
                        continue
                    if c[0] != cfg[0] or c[2] != cfg[2]:
                        self.report("balance", "unbalanced-repetition", "+".join(map(tagname, c[2])) or c[0],
                                    f"a repeated part changes the open tags: {short(Str(a) if a else EMPTY)}")
        return cfg

    def literal(self, text, cfg):
        for pl in self.places:
            text = text.replace(pl, "")
        mode, tag, stack, quote = cfg
        for ch in text:
            if mode == "T":
                if ch == "<":
                    mode = "O"
            elif mode == "O":
                if ch.isalpha() or ch == "/":
                    mode, tag = "N", (ch,)
                elif ch in "!?":
                    mode, tag = "N", (ch,)
                elif ch != "<":
                    mode = "T"
            elif mode in ("N", "A"):
                if ch == ">":
                    mode, tag, stack = self.end_tag(tag, stack)
                elif ch in " \t\n\r" or ch == "/" and mode == "A" or ch == "/" and len(tag) and mode == "N":
                    mode = "A"
                    tag = tag[:1] if False else tag + (" " + ch,) if tag and not str(tag[-1]).startswith(" ") else tag[:-1] + (" " + ch,)
                elif mode == "A":
                    if ch in "\"'":
                        mode, quote = "V", ch
                    tag = tag[:-1] + (" " + ch,)
                else:
                    tag = tag[:-1] + (tag[-1] + ch,) if isinstance(tag[-1], str) else tag + (ch,)
            elif mode == "V":
                if ch == quote:
                    mode = "A"
        return mode, tag, stack, quote

    def end_tag(self, tag, stack):
        name = []
        last = ""
        for t in tag:
            if isinstance(t, str) and t.startswith(" "):
                last = t.strip()
                continue
            name.append(t)
        name = merge(name)
        if name and isinstance(name[0], str) and name[0][:1] in ("!", "?"):
            return "T", (), stack
        if name and isinstance(name[0], str) and name[0].startswith("/"):
            want = merge((name[0][1:],) + name[1:])
            if not stack:
                self.report("balance", "stray-end-tag", tagname(want), "an end tag without a start tag")
            elif stack[-1] != want:
                self.report("balance", "crossing-tags", f"{tagname(stack[-1])}-{tagname(want)}",
                            f"</{tagname(want)}> closes <{tagname(stack[-1])}>")
                stack = stack[:-1]
            else:
                stack = stack[:-1]
        elif last.endswith("/") or len(name) == 1 and name[0].lower() in VOID:
            pass
        else:
            stack = stack + (name,)
        return "T", (), stack

    def hole(self, h, cfg):
        mode, tag, stack, quote = cfg
        self.holes += 1
        src, ops = h.src, h.ops
        if mode == "O":
            mode = "T"
        if src[0] == "tpl" and all(o[0] in STRIPS or o[0] in ("replace-by",) for o in ops):
            return self.walk(parts_of(src[1]), cfg)
        if src[0] == "rec" and self.summary_of(src) is not None and not any(o[0] in ("escape", "json") for o in ops):
            self.todo.append(src[1])
            if mode != "T":
                self.report("escape", "markup-in-attribute", self.hole_name(h), "emitted markup is inserted inside of a tag")
            for o in ops:
                if o[0] not in STRIPS:
                    self.report("balance", "cut-markup", o[0], f"emitted markup is changed by {o[0]}")
            return mode, tag, stack, quote
        if src[0] == "str" and self.trusted(src[1]) and all(o[0] in STRIPS for o in ops):
            if mode != "T":
                self.report("escape", "markup-in-attribute", "macro-result", "the result of a macro is inserted inside of a tag")
            return mode, tag, stack, quote
        if src[0] == "tpl" and mode in ("T", "V"):
            # operations on a composed text: each part on its own
            for p in self.leaves(parts_of(src[1])):
                if isinstance(p, Hole):
                    self.hole(Hole(p.src, p.ops + ops), (mode, tag, stack, quote))
                else:
                    for ch in EVIL:
                        if ch in p and through(ops, ch) == ch and ch in "<":
                            self.rep.note(f"constant markup in a changed text ({self.where})")
            return mode, tag, stack, quote
        if mode == "N":
            t = ("hole", h)
            for ch in " <>\"'/=":
                if self.leaks(src, ops, ch):
                    self.report("escape", "tag-name", self.hole_name(h), f"{h!r:.200} is used as name of a tag")
                    break
            return mode, tag + (t,), stack, quote
        if mode == "T":
            chars = "<&"
        elif mode == "V":
            chars = "&" + quote
        else:
            chars = " <>\"'="
        for ch in chars:
            if mode == "V" and quote == "'" and ch == "'" and through(ops, ch) not in ("'", None):
                continue
            r = self.leaks(src, ops, ch)
            if r:
                self.report("escape", {"T": "unescaped-text", "V": "unescaped-attribute"}.get(mode, "text-in-tag"),
                            f"{self.hole_name(h)}", f"{ch!r} of {short(Str((h,)))} {r} in {'an attribute' if mode != 'T' else 'the text'}")
                break
        return mode, tag, stack, quote

    def leaves(self, parts):
        for p in parts:
            if isinstance(p, Star):
                for a in p.alts:
                    yield from self.leaves(a)
            elif not isinstance(p, Empty):
                yield p

    def summary_of(self, src):
        return self.I.summ.get(src[1])


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def tagname(t):
    return "".join(x if isinstance(x, str) else "?" for x in t)


def short(v, n=160):
    r = repr(v)
    r = re.sub(r"\('rec', .*?\)\)\)", "(emitted", r)
    return r[:n]


def node_kinds(I, st, fid=None):
    """kinds the symbolic argument node of an outcome can have"""
    out = set()
    for nid, o in st.heap.items():
        if isinstance(nid, tuple) and nid and nid[0] == "symarg" and o.meta.get("sym") and "kind" in o.fields:
            if fid is not None and nid[1] != fid:
                continue
            k = o.fields["kind"]
            if isinstance(k, Const):
                out.add(str(k.v))
            else:
                for i in I.sym_cands(st, o):
                    c = I.records[i][0]
                    out.add(str(c.v) if isinstance(c, Const) else "*")
    return tuple(sorted(out)) or ("-",)
