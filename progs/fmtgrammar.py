"""Reference reader of the documented grammar: std::fmt's, with an attribute list
in front of the type (README.md). Says whether a string belongs to it, which
arguments it asks for, and what it is without the attribute lists."""
import re

COLORS = {"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "brightblack", "brightred", "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite", "default"}
TRAITS = ["x?", "X?", "?", "o", "x", "X", "p", "b", "e", "E", "s"]
UNSURE = "unsure"


class No(Exception):
    pass


class Unsure(Exception):
    """outside of what is judged: known findings, leniencies of std that its
    documented grammar does not have, duplicated attributes"""


def ident(s, i):
    """end of the identifier at i: XID_Start or _, then XID_Continue (Unicode 15)"""
    j = i
    while j < len(s) and s[i:j + 1].isidentifier():
        j += 1
    return i if s[i:j] == "_" else j


def count(s, i):
    """end of an integer; parameters are not judged"""
    m = re.compile(r"[0-9]+").match(s, i)
    if m:
        j = m.end()
        if s[j:j + 1] == "$":
            raise Unsure("parameter")
        if int(m.group()) > 65535:
            raise No("too big")
        return j
    j = ident(s, i)
    if j > i and s[j:j + 1] == "$":
        raise Unsure("parameter")
    return i


def attributes(s, i):
    """s[i] is the opening parenthesis"""
    e = s.find(")", i)
    if e < 0:
        raise No("attribute list not closed")
    body = s[i + 1:e]
    if body == "":
        return e + 1, []
    parts = body.split(",")
    if parts[-1] == "":
        parts.pop()
    seen = []
    for p in parts:
        if re.search(r"\s", p) and p.strip() != "" and ok_attr(re.sub(r"\s", "", p)):
            raise Unsure("blanks in an attribute list")
        if not ok_attr(p):
            raise No(f"attribute {p!r}")
        k = p.split("=")[0] if "=" in p else "intensity"
        if k in seen:
            raise Unsure("duplicated attribute")
        seen.append(k)
    return e + 1, parts


def ok_attr(p):
    return p in ("normal", "bold", "faint") or (p[:3] in ("fg=", "bg=") and p[3:] in COLORS)


def spec(s, i):
    """after the colon; gives (end of it, trait, stripped text)"""
    out = ""
    if s[i + 1:i + 2] in ("<", "^", ">") and s[i + 1:i + 2]:
        if s[i] != " ":
            raise Unsure("fill")
        out += s[i:i + 2]
        i += 2
    elif s[i:i + 1] in ("<", "^", ">") and s[i:i + 1]:
        out += s[i]
        i += 1
    if s[i:i + 1] in ("+", "-") and s[i:i + 1]:
        out += s[i]
        i += 1
    if s[i:i + 1] == "#":
        out += s[i]
        i += 1
    if s[i:i + 1] == "0":
        if s[i + 1:i + 2] == "$":
            raise Unsure("parameter")
        out += s[i]
        i += 1
    j = count(s, i)
    out += s[i:j]
    i = j
    if s[i:i + 1] == ".":
        if s[i + 1:i + 2] == "*":
            raise Unsure("parameter")
        j = count(s, i + 1)
        if j == i + 1:
            # std takes a bare point for no precision
            raise Unsure("bare point")
        out += s[i:j]
        i = j
    attrs = None
    if s[i:i + 1] == "(":
        i, attrs = attributes(s, i)
    tr = ""
    for t in TRAITS:
        if s.startswith(t, i):
            tr = t
            break
    i += len(tr)
    if tr != "s":
        out += tr
    return i, tr, out, attrs


def read(s):
    """(placeholders, stripped string); a placeholder is (argument or '', trait, attributes or None).
    Raises No or Unsure."""
    i = 0
    out = ""
    ph = []
    while i < len(s):
        ch = s[i]
        if ch == "{":
            if s[i + 1:i + 2] == "{":
                out += "{{"
                i += 2
                continue
            i += 1
            m = re.compile(r"[0-9]+").match(s, i)
            if m:
                j = m.end()
                if int(m.group()) > 60000:
                    raise Unsure("huge position")
            else:
                j = ident(s, i)
            who = s[i:j]
            if who == "" and s[i:i + 1] == "_":
                raise No("underscore")
            i = j
            tr, attrs, sp = "", None, ""
            if s[i:i + 1] == ":":
                i, tr, sp, attrs = spec(s, i + 1)
                sp = ":" + sp
            ws = i
            while i < len(s) and s[i].isspace():
                i += 1
            if s[i:i + 1] != "}":
                if s[ws:i] and False:
                    pass
                raise No("placeholder not closed")
            out += "{" + who + sp + s[ws:i] + "}"
            ph.append((who, tr, attrs))
            i += 1
        elif ch == "}":
            if s[i + 1:i + 2] == "}":
                out += "}}"
                i += 2
                continue
            raise No("stray }")
        else:
            out += ch
            i += 1
    return ph, out
