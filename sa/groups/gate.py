"""What compiles, and what doesn't."""

from __future__ import annotations

from itertools import product as combos
from typing import Any
from typing import Iterable
from typing import List
from typing import Sequence
from typing import Tuple

from .. import interp as I
from .. import pylib
from ..check import Result
from ..check import run_partitions
from ..cmp import Differ
from ..scen import call
from ..scen import env
from ..scen import integer
from ..scen import new
from ..scen import repo
from ..values import Item
from ..values import S
from ..values import Raised


def compiles(e: Any, text: str) -> bool:
    """Does a text compile? If not, it has to be with the package's own error."""
    try:
        p = call(e, "compile", text)
    except Raised as r:
        if not r.exc.cls.is_sub(repo("jsonpath.exceptions.JSONPathError")):
            raise Differ(f"compiling {text!r} raises {r.exc.cls.name}") from None
        return False
    if p is None:
        raise Differ(f"compiling {text!r} gives nothing")
    return True


def gate(name: str, texts: Sequence[Tuple[str, bool]], seconds: float = 60.0, e: Any = None) -> Result:
    """Each text, and whether it is a valid query."""
    e = e or env()
    res = Result(name, "valid queries compile, the others are refused with a JSONPath error")

    def one() -> None:
        text, want = texts[S.fork(0, len(texts))]
        got = compiles(e, text)
        if got != want:
            raise Differ(f"{text!r} is {'refused' if want else 'accepted'}")

    return run_partitions(res, one, 100000, seconds)


def after(name: str, texts: Sequence[Tuple[str, bool]], seconds: float = 60.0, size: int = 60) -> Result:
    """The same after others have been compiled, and refused, by one environment."""
    res = Result(name, "what compiles does not depend on what one environment has compiled or refused before")
    good = [t for t in texts if t[1]] or [("$.a", True)]
    bad = [t for t in texts if not t[1]]
    n = max(1, -(-len(bad) // size))

    def one() -> None:
        e = I.call(repo("jsonpath.env.JSONPathEnvironment"), [], {})
        k = S.fork(0, n)
        b, g = bad[k::n], good[k % len(good) :: n] + good[:1]
        for text, want in [*b, *g, *b[::-1], *g[::-1]]:
            if compiles(e, text) != want:
                raise Differ(f"{text!r} is {'refused' if want else 'accepted'} after others have been compiled")

    return run_partitions(res, one, 100000, seconds)


# --- typing rules ------------------------------------------------------------------------------

# Well-typed tests. Those marked with "c" are comparisons: "!" needs parentheses.
GOOD = [
    "@.a", "$.b", "@", "@.*", "@['a','b']", "@..a", "@[1:]", "@[?@.a]", "match(@.a,'x')", "search(@.a,@.b)", "match(length(@.a),'x')", "search(value(@..a),'b')",
    "c:@.a==1", "c:@.a=='x'", "c:1<@.a", "c:length(@.a)>1", "c:count(@.*)==2", "c:count(@.a)==1", "c:value(@.*)==1", "c:value(@..a)<'x'", "c:length(value(@.*))==count($..*)",
    "c:@.a==@.b", "c:@['a'][0]!=$.b.c", "c:@[-1]<=null", "c:true==@", "c:1==1", "c:count(@[?@.a])>0", "c:length('abc')==3", "c:length(length(@.a))==1", "c:count(@[?match(@.a,'x')])>0", "c:@.a==-0", "c:@.a>=1.5e3",
]
BAD = [
    # Value-typed functions as tests, and literals that are not compared.
    "length(@.a)", "count(@.*)", "value(@.a)", "value(@..a)", "length(value(@.a))", "1", "-1.5", "'x'", '"x"', "true", "false", "null",
    # Not comparable.
    "c:@.*==1", "c:1==@.*", "c:@..a==1", "c:@['a','b']==1", "c:@[1:]=='x'", "c:@[?@.a]==1", "c:@.a.*<1", "c:@..a.b!=1", "c:@.a==@.*", "c:@.*==@.*", "c:@[0,0]==1", "c:$.*==1", "c:1>=$..a", "c:@[*]==true", "c:@.a[:]==1", "c:@.b<=@[?@.a]",
    "c:match(@.a,'x')==true", "c:true==match(@.a,'x')", "c:@.a<search(@.a,'x')", "c:search(@.a,'x')!=search(@.b,'x')", "c:length(@.a)==match(@.a,'x')",
    # Not defined.
    "nosuch(@.a)", "c:nosuch(@.a)==1", "c:1==nosuch()", "c:length(nosuch(@.a))==1", "match(nosuch(),'x')", "c:count(nosuch(@.*))==1",
    # Arguments of the wrong number or kind.
    "c:length()==1", "c:length(@.a,@.b)==1", "c:count()==0", "c:count(@.*,@.*)==1", "c:value()==1", "c:value(@.a,@.b)==1", "match(@.a)", "match()", "match(@.a,'x','y')", "search(@.a)", "search(@.a,'x',1)",
    "c:length(@.*)==1", "c:length(@..a)==1", "c:length(@['a','b'])>1", "c:length(match(@.a,'x'))==1", "c:length(@[1:])<2", "c:length(@.a==1)>1", "c:length(@[?@.a])==1",
    "c:count(1)==1", "c:count('x')>1", "c:count(length(@.a))==1", "c:count(true)==1", "c:count(match(@.a,'x'))==1", "c:count(@.a==1)==1", "c:count(null)!=0", "c:count(value(@.*))==1",
    "c:value('x')==1", "c:value(1)==1", "c:value(length(@.a))==1", "c:value(@.a<1)==1",
    "match(@.*,'x')", "match('x',@.*)", "search(@..a,'x')", "search(@.a,@[1:])", "match(search(@.a,'x'),'x')", "match(@.a=='x','x')", "search('x',match(@.a,'x'))", "match(@[?@.a],'x')",
    "match(length(@.*),'x')", "c:length(value(1))==1", "c:count(@[?length(@.a)])==1",
    # Lists and integers.
    "@[]", "c:@[]==1", "@[0,]", "@['a',]", "c:count(@[*,])==1", "@[01]", "c:@[01]==1", "@[-01]", "c:@[-0]==1", "@[9007199254740992]", "c:@[9007199254740992]==1", "@[-9007199254740992]", "c:count(@[:9007199254740992])==1", "c:$[-9007199254740992]==1", "c:value(@[9007199254740992:])==1",
]
# Where a test can be. "!" takes a test as it is, or a comparison in parentheses.
PLACES = [
    "{}", "!{!}", "({})", "!({})", "{} && @.z", "@.z && {}", "{} || @.z", "@.z || {}", "@.y || @.z && {}", "{} && @.y || @.z", "@.z==1 && {}", "{} || @.z==1", "@.z && !({})", "!{!} || @.z", "(@.z || {})", "!(@.z && {})", "(({}))", "!(!({}))", "@[?{}]", "!@[?{}]", "$.x[?{}]", "@.a[?@.z][?{}]", "@['x',?{}]", "count(@[?{}])>1", "1==count($.x[?{}])", "value(@[?{}])==1", "length(value(@[?{}]))==1", "match(value(@[?{}]),'x')", "search('x',value(@[?{}]))", "@.z && @[?{}]",
]
AROUND = ["$[?{}]", "$.x[?{}]", "$..[?{}]", "$['x',?{}]", "$[?{},0]", "$[?@.z,?{}]", "$[?@.z][?{}]", "$[?{}].x", "$[?{}]..*", "$[ ?{} ]"]


def put(form: str, leaf: str) -> str:
    cmp = leaf.startswith("c:")
    text = leaf[2:] if cmp else leaf
    if "{!}" in form:
        form = form.replace("{!}", "({})" if cmp or infix(text) else "{}")
    return form.replace("{}", text)


def infix(text: str) -> bool:
    depth = 0
    for i, c in enumerate(text):
        depth += c in "([" 
        depth -= c in ")]"
        if not depth and text[i : i + 2] in ("&&", "||", "==", "!=") or not depth and c in "<>":
            return True
    return False


def placed(place: str, leaf: str) -> str:
    """A leaf somewhere, as a test again."""
    inner = put(place, leaf)
    cmp = infix(inner) and not inner.startswith("(")
    return ("c:" if cmp else "") + inner


def typing(places: Iterable[str], around: Sequence[str], good: Sequence[str] = GOOD, bad: Sequence[str] = BAD) -> List[Tuple[str, List[Tuple[str, bool]]]]:
    out = []
    for a, p in combos(around, places):
        texts = [(put(a, placed(p, x)), ok) for ok, xs in ((True, good), (False, bad)) for x in xs]
        out.append((a.replace("{}", p), texts))
    return out


def twice(outer: Iterable[str], inner: Iterable[str], good: Sequence[str], bad: Sequence[str]) -> List[Tuple[str, List[Tuple[str, bool]]]]:
    out = []
    for o, i in combos(outer, inner):
        # Precedence may take what is inside apart, but leaves each test a test.
        texts = [(put("$[?{}]", placed(o, placed(i, x))), ok) for ok, xs in ((True, good), (False, bad)) for x in xs]
        out.append((f"$[?{o}] of {i}", texts))
    return out


# --- spelling ----------------------------------------------------------------------------------

BLANKS = ["", " ", "\t", "\n", "\r", " \n\t\r "]
# "␣" marks where the grammar allows blanks.
SPELLED = [
    "$", "$␣.a", "$␣['a']", "$␣[␣'a'␣]", '$[␣"a"␣]', "$[␣0␣]", "$[␣-1␣]", "$[␣*␣]", "$␣.*", "$␣..a", "$␣..*", "$␣..[␣*␣]", "$␣..[␣'a'␣,␣0␣]", "$[␣1␣:␣2␣]", "$[␣:␣]", "$[␣:␣:␣]", "$[␣1␣:␣]", "$[␣:␣2␣]", "$[␣:␣:␣3␣]", "$[␣1␣:␣2␣:␣3␣]", "$[␣-1␣:␣-2␣:␣-3␣]", "$[␣1␣:␣:␣-1␣]", "$[␣'a'␣,␣\"b\"␣,␣0␣,␣*␣,␣1␣:␣2␣,␣?␣@.a␣]", "$␣.a␣.b␣[0]␣..c", "$[␣?␣@␣.a␣]", "$[␣?␣@␣['a']␣[␣0␣]␣]", "$[?␣@.a␣==␣1␣]", "$[?␣@.a␣&&␣@.b␣||␣@.c␣]", "$[?␣!␣@.a␣]", "$[?␣!␣(␣@.a␣)␣]", "$[?␣(␣@.a␣)␣]", "$[?␣(␣@.a␣==␣1␣)␣&&␣!␣(␣@.b␣||␣@.c␣)␣]", "$[?␣length(␣@.a␣)␣>=␣2␣]", "$[?␣match(␣@.a␣,␣'x'␣)␣]", "$[?␣!␣match(␣@.a␣,␣'x'␣)␣]", "$[?␣count(␣@␣.*␣)␣!=␣count(␣$␣.*␣)␣]", "$[?␣@[?␣@.a␣]␣]", "$[?␣@.a␣<␣'x'␣,␣?␣@.b␣]", "$[?␣(␣(␣@.a␣)␣)␣]", "$[?␣@␣]", "$[?␣$␣]", "$[?␣1␣==␣1␣]", "$[?␣length(␣value(␣@..a␣)␣)␣==␣1␣]", "$[?␣@.a␣<=␣@.b␣]", "$[?␣@.a␣>␣null␣]",
]
NAMES = ["a", "_", "a1", "_1", "A", "aB_9", "é", "☺", "𝄞", "日本", "\u0080", "true", "null", "not", "and", "or", "in", "length", "undefined", "contains", "nil", "none", "missing", "e5", "E", "True", "x1e5"]
LITERALS = [
    "0", "-0", "1", "-1", "10", "0.0", "-0.0", "1.5", "-1.5", "1e2", "1E2", "1e+2", "1e-2", "1.5e2", "-1.5E-2", "0e1", "1e0", "1e400", "-1e400", "9007199254740993", "1.0000000000000000000001", "123456789012345678901234567890", "1e-400", "true", "false", "null",
    "''", '""', "'a'", "'\"'", '"\'"', "'\\''", '"\\""', "'\\\\'", "'\\/'", "'\\b\\f\\n\\r\\t'", "'\\u0041'", "'\\u00e9'", "'\\uD83D\\uDE00'", "'\\ud83d\\ude00'", "'\\u0000'", "'☺𝄞é'", "'\x7f'", "' '", "'$'", "'[?@.a]'", "'//'", "'#'", "'\\uFFFF'", "'\u2028'", "'\\\"'"[:-2] + "'",
]
LITERALS = [x for x in LITERALS if x != "'\\'"]
OPS = ["==", "!=", "<", "<=", ">", ">="]


def valid() -> List[Tuple[str, bool]]:
    """Valid queries, in all their spellings."""
    out: List[str] = []
    for t in SPELLED:
        spots = t.count("␣")
        for b in BLANKS:
            out.append(t.replace("␣", b))
        for i in range(spots):
            parts = t.split("␣")
            for b in BLANKS[1:]:
                out.append("".join(x + (b if j == i else "") for j, x in enumerate(parts)))
    for n in NAMES:
        out += [f"$.{n}", f"$..{n}", f"$.{n}.{n}", f"$.a.{n}[0]", f"$['{n}']", f'$["{n}"]', f"$[?@.{n}]", f"$[?@.{n}==1]", f"$[?@.{n}.{n} && $.{n}]", f"$[?!@.{n}]", f"$[?length(@.{n})==1]", f"$[?count(@..{n})==1]"]
    for v in LITERALS:
        out += [f"$[?@.a{op}{v}]" for op in OPS] + [f"$[?{v}{op}@.a]" for op in OPS] + [f"$[?{v}=={v}]", f"$[?@.a == {v} && @.b]", f"$[?(@.a=={v})]", f"$[?match({v},{v})]", f"$[?length({v})==1]"]
        if v[0] in "'\"":
            out += [f"$[{v}]", f"$..[{v}]", f"$[{v},{v}]", f"$[?@[{v}]]", f"$[?@[{v}]=={v}]"]
    for i in ("0", "1", "-1", "10", "9007199254740991", "-9007199254740991"):
        out += [f"$[{i}]", f"$..[{i}]", f"$[{i}:]", f"$[:{i}]", f"$[::{i}]", f"$[{i}:{i}:{i}]", f"$[{i},{i}]", f"$[?@[{i}]]", f"$[?@[{i}]==1]", f"$[?count(@[{i}:])==1]", f"$[?count(@[:{i}:1])==1]"]
    return [(t, True) for t in dict.fromkeys(out)]


def refused() -> List[Tuple[str, bool]]:
    """Shapes of lists, and integers."""
    out: List[str] = []
    for around in ("$[{}]", "$.a[{}]", "$..[{}]", "$[0][{}]", "$[?@[{}]]", "$[?@.a && $.b[{}]]", "$[?count(@[{}])==1]", "$[?!@[{}]]", "$[?@[?@[{}]]]"):
        for x in ("", " ", "0,", "'a',", "0 ,", "*,", "0,1,", "'a','b' , ", ",", ",0", "0,,1", "?@.a,", "1:2,", "01", "-01", "-0", "00", "-00", "0,01", "01,0", "'a',-0", "9007199254740992", "-9007199254740992", "0,9007199254740992", "99999999999999999999999", "9007199254740992:", ":9007199254740992", "-9007199254740992:", ":-9007199254740992", "0:9007199254740992:1", "9007199254740992:1:-1", "0,9007199254740992:", "?length(@.a)", "?1", "?@.*==1", "0,?'x'"):
            out.append(around.format(x))
    return [(t, False) for t in dict.fromkeys(out)]


# --- limits ------------------------------------------------------------------------------------

LIMITED = [
    ("$[{}]", 1), ("$.a[{}]", 1), ("$..[{}]", 1), ("$['a',{}]", 1), ("$[{},0]", 1), ("$[{}:]", 1), ("$[:{}]", 1), ("$[{0}:{0}]", 1), ("$[?@[{}]]", 1), ("$[?@[{}]==1]", 1), ("$[?1==$[{}].a]", 1), ("$[?count(@[{}:])==1]", 1), ("$[?@.a && !@[:{}]]", 1), ("$[?length(@[{}])==1]", 1), ("$.a | $[{}]", 1), ("$[?@[?@[{}]]]", 1), ("$[{0}:5]", 1), ("$[5:{0}]", 1),
]
INDICES = [0, 1, -1, 5, -5, 100, -100, 2**53 - 1, -(2**53) + 1, 2**53, -(2**53), 10**18]


def limits(forms: Sequence[Any] = LIMITED, indices: Sequence[int] = INDICES, seconds: float = 30.0) -> List[Result]:
    """Limits nobody knows: they may be anything around zero."""
    out = []
    for form, _ in forms:
        res = Result(f"limits {form}", "compiles if and only if every index is within the environment's limits, whatever these are")

        def one(form: str = form) -> None:
            i = indices[S.fork(0, len(indices))]
            e = I.call(repo("jsonpath.env.JSONPathEnvironment"), [], {})
            lo, hi = integer("min_int_index", hi=0), integer("max_int_index", lo=0)
            I.setattr_(e, "min_int_index", lo)
            I.setattr_(e, "max_int_index", hi)
            text = form.format(i)
            got = compiles(e, text)
            every = [i] + ([0] if "0" in form.replace("{0}", "") else []) + ([5] if "5" in form else [])
            want = all(S.le0(I.ladd(lo.term, -x)) and S.le0(I.ladd(x, hi.term, -1)) for x in every)
            if got != want:
                raise Differ(f"{text!r} is {'refused' if want else 'accepted'}")

        out.append(run_partitions(res, one, 4000, seconds))
    return out


# --- functions ---------------------------------------------------------------------------------

ATOMS = [
    ("1", "value"), ("'x'", "value"), ("null", "value"), ("@.a", "singular"), ("$.b", "singular"), ("@", "singular"), ("@.*", "nodes"), ("@..a", "nodes"), ("$[?@.a]", "nodes"), ("@.a==1", "logical"), ("@.a&&@.b", "logical"),
]
FUNCTIONS = {"length": ("V", "V"), "count": ("N", "V"), "value": ("N", "V"), "match": ("VV", "L"), "search": ("VV", "L")}
_FITS = {"V": {"value", "singular", "fn:V"}, "N": {"singular", "nodes"}}


def application(f: str, args: Sequence[Tuple[str, str]]) -> Tuple[str, str]:
    """A function call, and its kind: what it results in, or "ill"."""
    takes, gives = FUNCTIONS[f]
    text = f"{f}({', '.join(a for a, _ in args)})"
    ok = len(args) == len(takes) and all(k in _FITS[t] for t, (_, k) in zip(takes, args))
    return text, f"fn:{gives}" if ok else "ill"


def calls(atoms: Sequence[Tuple[str, str]]) -> List[Tuple[str, str]]:
    out = []
    for f in FUNCTIONS:
        for n in (0, 1, 2):
            out += [application(f, args) for args in combos(atoms, repeat=n)]
        out += [application(f, (a, a, a)) for a in atoms]
    return list(dict.fromkeys(out))


def uses(exprs: Iterable[Tuple[str, str]]) -> List[Tuple[str, bool]]:
    """Function calls as tests and as operands."""
    out = []
    for text, kind in exprs:
        out.append((f"$[?{text}]", kind == "fn:L"))
        out.append((f"$[?@.z && !{text}]", kind == "fn:L"))
        out.append((f"$[?{text} == 1]", kind == "fn:V"))
        out.append((f"$[?@.z || @.a < {text}]", kind == "fn:V"))
    return out


def functions(nested: bool) -> List[Tuple[str, List[Tuple[str, bool]]]]:
    if not nested:
        return [(f"calls of {f}", uses([c for c in calls(ATOMS) if c[0].startswith(f)])) for f in FUNCTIONS]
    few = [ATOMS[i] for i in (1, 3, 6, 9)]
    inner = calls(few)
    out = []
    for c in inner:
        texts = []
        for f in FUNCTIONS:
            texts += [application(f, (c,)), application(f, (c, few[0])), application(f, (few[1], c)), application(f, (few[2], c)), application(f, (c, c))]
        out.append((f"calls of {c[0]}", uses(texts)))
    return out


SIGNATURES = [(p, r) for p in ("V", "N", "VV", "VN", "NV", "NN") for r in "VLN"]


def declared(signatures: Iterable[Tuple[str, str]], seconds: float = 60.0) -> List[Result]:
    """A function of one's own, declared with some signature."""
    types = repo("jsonpath.function_extensions.ExpressionType")
    kinds = {"V": "VALUE", "N": "NODES", "L": "LOGICAL"}
    out = []
    for takes, gives in signatures:
        e = I.call(repo("jsonpath.env.JSONPathEnvironment"), [], {})
        f = new("jsonpath.function_extensions.Count")
        I.setattr_(f, "arg_types", I.new_list([Item(I.getattr_(types, kinds[t])) for t in takes]))
        I.setattr_(f, "return_type", I.getattr_(types, kinds[gives]))
        pylib.setitem(I.getattr_(e, "function_extensions"), "own", f)
        texts = []
        for n in (0, 1, 2, 3):
            for args in combos(ATOMS if n < 2 else ATOMS[1::2] if n == 2 else ATOMS[3:7:3], repeat=n):
                text = f"own({', '.join(a for a, _ in args)})"
                ok = len(args) == len(takes) and all(k in _FITS[t] for t, (_, k) in zip(takes, args))
                texts.append((text, f"fn:{gives}" if ok else "ill"))
        every = uses(texts)
        for text, kind in texts:
            if kind == "fn:N":
                every = [(t, ok or t in (f"$[?{text}]", f"$[?@.z && !{text}]")) for t, ok in every]
            every.append((f"$[?length({text})==1]", kind == "fn:V"))
            every.append((f"$[?count({text})==1]", kind == "fn:N"))
            every.append((f"$[?match(@.a, {text})]", kind == "fn:V"))
        out.append(gate(f"a function of {takes} to {gives}", every, seconds, e))
    return out
