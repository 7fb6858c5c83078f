"""Grids of queries."""

from __future__ import annotations

from typing import List


def uniq(qs: List[str]) -> List[str]:
    return list(dict.fromkeys(qs))


SEGMENTS = [".a", "['a']", "[0]", "[-1]", "[*]", "[1:]", "[::-1]", "['a',0]", "[0,0]", "..a", "..[0]", "..*", "[?@.a]"]
SEGMENTS2 = [".*", "[-2]", "[0:2]", "[-1:]", "[1::2]", "[*,*]", "['b','a']", "..['a','b']", "..[*,0]", "..[1:]", "[?@.a,0]", "[?@]", "['a','a']"]


def segments(tier: str) -> List[str]:
    """Every pair of segments."""
    segs = SEGMENTS if tier == "quick" else SEGMENTS + SEGMENTS2
    out = ["$" + a + b for a in segs for b in segs if ".." not in a or ".." not in b]
    out += ["$" + a for a in SEGMENTS + SEGMENTS2]
    if tier != "quick":
        short = [".a", "[0]", "[*]", "[-1:]", "..a"]
        out += ["$" + a + b + c for a in short for b in short for c in short if (a + b + c).count("..") < 2]
    return uniq(out)


def slices(tier: str) -> List[str]:
    vals = ["", "0", "1", "-1"] + (["2", "-2", "10"] if tier != "quick" else [])
    steps = ["", ":", ":1", ":-1", ":2", ":-2"] + ([":0", ":3", ":-3"] if tier != "quick" else [])
    return [f"$[{a}:{b}{c}]" for a in vals for b in vals for c in steps]


NODELISTS = ["@.*", "@['a','a']", "@[0,0]", "@['a','b']", "@[0,'a']", "@[*,*]", "@[1:]", "@[::-1]", "@.a.*", "@.a[0,0]", "@[?@.a]", "@['a',0].b", "$.*", "$['a','a']", "_.*", "@.a"]


def nodelists(tier: str) -> List[str]:
    """Functions and tests of queries that may select several nodes, some of them twice."""
    out = []
    for n in NODELISTS:
        out += [f"$[?count({n})==2]", f"$[?{n}]", f"$[?value({n})==1]"]
        if tier != "quick":
            out += [f"$[?!{n}]", f"$[?count({n})>1]", f"$[?value({n})==null]", f"$[?length(value({n}))==1]", f"$[?count({n})==count(@.*)]", f"$[?value({n})==@.b]"]
    return out


VALUES = ["@.a", "@['b'][0]", "@[0]", "$.b", "@", "1", "'x'", "true", "null", "length(@.a)", "count(@.*)", "value(@.*)"]
VALUES2 = ["@.a.b", "$", "$.b.c", "-1", "0", "1.5", "''", "false", "_.x", "#", "count(@['a','a'])", "length('ab')", "value(@.a)"]
OPS = ["==", "!=", "<", "<=", ">", ">="]


def comparisons(tier: str) -> List[str]:
    """Every comparison of a pair of operands."""
    out = []
    vals = VALUES if tier == "quick" else VALUES + VALUES2
    for i, a in enumerate(vals):
        for j, b in enumerate(vals):
            if tier == "quick":
                ops = ["==", OPS[1 + (i + 2 * j) % 5]]
            else:
                ops = OPS
            out += [f"$[?{a}{op}{b}]" for op in ops]
    return out


TESTS = ["@.a", "!@.a", "@.a==1", "(@.b||@.c)", "!(@.b&&@.c)", "$.x"]


def logic(tier: str) -> List[str]:
    out = []
    for a in TESTS:
        for b in TESTS:
            for op in ("&&", "||"):
                out.append(f"$[?{a}{op}{b}]")
                if tier != "quick":
                    out += [f"$[?{a}{op}{b}&&@.d]", f"$[?@.d||{a}{op}{b}]", f"$[?({a}{op}{b})&&@.d]", f"$[?!({a}{op}{b})]"]
    return out


NAMES = ["", " ", "a b", "'", '"', "\\", "\\'", "/", "~", "~0", "~1", "0", "-1", "01", "1", "+1", "$", "@", "*", "..", "#", "[", "]", "a.b", "é", "日本", "\U0001f600", "\u2028", "\t", "\n", "\r", "\b", "\f", "\x00", "\x1f", "\x7f", "%41", "\\u0041", "and", "true", "null", "undefined", "not", "in", "_", "^", "a-b"]


def quoted(name: str, q: str) -> str:
    out = q
    for c in name:
        if c == q or c == "\\":
            out += "\\" + c
        elif c < " ":
            out += "\\u%04x" % ord(c)
        else:
            out += c
    return out + q


def names(tier: str) -> List[str]:
    out = []
    for n in NAMES:
        out.append(f"$[{quoted(n, chr(39))}]")
        if tier != "quick" or n in ("'", '"', "\\", "\\'", "\n"):
            out.append(f"$[{quoted(n, chr(34))}]")
            out.append(f"$[?@.a=={quoted(n, chr(39))}]")
            out.append(f"$[?@[{quoted(n, chr(34))}]=={quoted(n, chr(34))}]")
    return out
