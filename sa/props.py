"""Which obligations decide which property."""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Tuple

from . import about
from . import queries as Q

Job = Tuple[str, Callable[[], Any]]

EXPLAIN: Dict[str, str] = {}
_JOBS: Dict[str, Callable[[str], List[Job]]] = {}


TECH: Dict[str, str] = {}
NOTES: Dict[str, str] = {}
NOT_APPLICABLE: Dict[str, str] = {}
NOTE = (
    "Every partition of the abstract inputs of the listed obligations is decided from the source: "
    "documents of unknown contents, lengths and member names, nested up to the stated depth; "
    "queries from a fixed grammar-covering list. Partitions the domains can't decide are reported "
    "as undecided in the evidence and raise no alarm."
)


def prop(pid: str, explain: str) -> Callable[[Any], Any]:
    def deco(f: Any) -> Any:
        EXPLAIN[pid] = explain + about.HOW[pid] + "Bounds: " + about.BOUNDS[pid]
        _JOBS[pid] = f
        return f

    return deco


def jobs(pid: str, tier: str) -> List[Job]:
    return _JOBS[pid](tier)


BASE = (
    "Abstract interpretation of the package's current source (parsed, never imported or run). "
    "Each obligation compares what the package computes for an abstract input with what the "
    "reference model, analysed the same way, computes for it, in every partition of the input. "
)


def chunks(xs: List[Any], n: int) -> List[List[Any]]:
    return [xs[i : i + n] for i in range(0, len(xs), n)]


# --- C01 ----------------------------------------------------------------------------------

C01_QUERIES = [
    "$",
    "$ .a",
    "$ ..a",
    "$.a ..b",
    "$ ..[0]",
    "$\n..*",
    "$ .true",
    "$.a\t.in",
    "$.a",
    "$['a']",
    "$['a']['b']",
    "$.a.b.c",
    "$[0]",
    "$[-1]",
    "$[2]['x']",
    "$.*",
    "$[*]",
    "$[*].a",
    "$[*][*]",
    "$.a[1:3]",
    "$[::2]",
    "$[-1:0:-1]",
    "$[::-1]",
    "$[1:]",
    "$[:-1]",
    "$[0,1]",
    "$[0,0]",
    "$['a','b']",
    "$['b','a','b']",
    "$['a',0]",
    "$[*,0]",
    "$[1:3,0,'a']",
    "$[*,*]",
    "$..a",
    "$..*",
    "$..[0]",
    "$..['a','b']",
    "$..[*]",
    "$..[0,'a']",
    "$..[1:]",
    "$..a.b",
    "$.a..b",
    "$.a..[0]",
    "$[0]..*",
    "$..a[0]",
    "$..a..b",
    "$['a\\'b']",
    "$['\\u263a']",
    "$['\\ud83d\\ude00']",
    "$['a\\nb\\t']",
    "$['']",
    "$['a b']",
    "$['$']",
    "$['..']",
    "$['*']",
    "$['\\\\']",
    "$['\"']",
    "$['a/b~']",
]


@prop("C01", BASE)
def c01(tier: str) -> List[Job]:
    from .groups import sel
    from .groups import whole

    a = ("obj",)
    out: List[Job] = [("sel", lambda: sel.single(a))]
    for c in chunks(Q.uniq(C01_QUERIES + Q.segments(tier) + Q.slices(tier) + Q.names(tier)), 8):
        out.append(("whole", lambda c=c: whole.evaluate(c, a, seconds=60)))
    return out


# --- C02 ----------------------------------------------------------------------------------

OPERANDS = ["@.a", "@['b']", "@[0]", "$.b", "$.b.c", "@", "1", "1.5", "-2", "0", "'x'", "''", "true", "false", "null", "length(@.a)", "count(@.*)", "value(@.a)"]
C02_CMP = (
    [f"$[?@.a{op}@.b]" for op in ("==", "!=", "<", "<=", ">", ">=")]
    + [f"$[?@.a{op}{v}]" for op in ("==", "!=", "<", "<=", ">", ">=") for v in ("1", "'x'", "true", "null")]
    + [f"$[?{v}{op}@.a]" for op in ("==", "<", ">=", "!=") for v in ("1", "'x'", "null", "false", "1.5", "0")]
    + ["$[?@==1]", "$[?@=='x']", "$[?@==true]", "$[?@==null]", "$[?@!=false]", "$[?@<2]", "$[?@>='b']", "$[?@==@]", "$[?@==$]", "$[?@!=$.a]"]
    + ["$[?@.a==1.5]", "$[?@.a==-2]", "$[?@.a==0]", "$[?@.a=='']", "$[?@.a==false]", "$[?@.a<-1.5]", "$[?@.a==1e2]", "$[?@.a==100]"]
    + ["$[?@.a==$.b]", "$[?@.a!=$.b]", "$[?@.a<$.b]", "$[?$.a==$.b]", "$[?@.a==$.b.c]", "$[?@[0]==@[1]]", "$[?@[-1]>1]", "$[?@.a.b==@.c]", "$[?@['a']['b']<=$['c']]"]
    + ["$[?1==1]", "$[?1<2]", "$[?'a'<'b']", "$[?1=='1']", "$[?true==1]", "$[?null==false]", "$[?1==1.0]"]
)
C02_TESTS = [
    "$[?@.a]", "$[?!@.a]", "$[?@]", "$[?@.*]", "$[?@[*]]", "$[?@['a','b']]", "$[?@[0,1]]", "$[?@[1:]]", "$[?@..a]", "$[?!@..*]", "$[?$.a]", "$[?!$.a]", "$[?$.a.b]", "$[?$[0]]", "$[?@.a.b]", "$[?@[0]]", "$[?@[-1]]", "$[?@[::2]]",
]
C02_LOGIC = [
    "$[?@.a&&@.b]", "$[?@.a||@.b]", "$[?@.a||@.b&&@.c]", "$[?@.a&&@.b||@.c]", "$[?(@.a||@.b)&&@.c]", "$[?!@.a&&@.b]", "$[?!(@.a&&@.b)]", "$[?!(@.a||@.b)]", "$[?!@.a||!@.b]", "$[?@.a==1||@.b]", "$[?@.a&&@.b==1]", "$[?!(@.a==1)]", "$[?!(!@.a)]", "$[?@.a&&@.b&&@.c]", "$[?@.a||@.b||@.c]", "$[?((@.a))]", "$[?!(@.a==@.b)]", "$[?@.a&&!@.b||!@.a&&@.b]",
]
C02_FNS = [
    "$[?length(@.a)==2]", "$[?length(@)>1]", "$[?length('abc')==3]", "$[?length(@.a)==length(@.b)]", "$[?length($.a)>length(@)]", "$[?2<=length(@.a)]", "$[?length(@.a)!=length(@.b)]",
    "$[?count(@.*)>1]", "$[?count(@.*)==0]", "$[?count(@['a','b'])==2]", "$[?count(@.a)==1]", "$[?count($.*)>2]", "$[?count(@[?@.a])>1]", "$[?count(@[1:])==1]", "$[?1==count(@.*)]",
    "$[?match(@.a,'x+')]", "$[?match(@.a,'a|b')]", "$[?!match(@.a,'[a-c]x?')]", "$[?search(@.a,'b')]", "$[?search(@.a,'a|b')]", "$[?match(@.a,@.b)]", "$[?search(@.a,$.p)]", "$[?match(@,'ab')&&@!='x']", "$[?match(@.a,'')]", "$[?match('ab',@.p)]",
    "$[?value(@.a)==1]", "$[?value(@.*)==1]", "$[?value(@['a','b'])=='x']", "$[?value($.*)==@.a]", "$[?value(@.a)==value(@.b)]", "$[?length(value(@.*))==2]",
]
C02_NESTED = [
    "$[?@[?@.a]]", "$[?@[?@.a==1]]", "$[?@[?@==1]]", "$[?!@[?@.a]]", "$[?@.x[?@.a]]", "$[?@[?@.a==1&&@.b]]", "$[?@[?$.a]]", "$.a[?@.b]", "$.a[?@.b==1]", "$[?@.a][?@.b]", "$[?@.a].b", "$[?@.a,?@.b]", "$['a',?@.b]", "$[?@.a,0]", "$.a[?@.b==$.a]", "$[?@.a]['x','y']", "$[*][?@.a==$.x]",
]
C02_LOGIC += ["$[?@.a==null||@.b==true&&@.c=='x']", "$[?@.a==1&&@.b||@.c]", "$[?(@.a==1||@.b)&&!(@.c=='x')]"]
C02_SLOW = ["$[?@.a==1&&@.b==2||@.c==3]", "$[?@.a==1||@.b==2&&@.c==3]", "$[?@[?@.b==$.c]&&@.a==$.c]", "$[?(@.a==1||@.b==2)&&!(@.c==3)]", "$[?@.a<@.b&&@.b<@.c]", "$[?@[?@.b==$.c]]", "$[?$..a]"]
C02_DEEP = ["$..[?@.a]", "$..[?@.a==1]", "$..[?@==1]", "$[?value(@..a)==1]", "$[?count(@..*)>1]", "$[?@..[?@.a]]"]


@prop("C02", BASE)
def c02(tier: str) -> List[Job]:
    from .groups import whole

    a = ("obj",)
    out: List[Job] = []
    qs = C02_CMP + C02_TESTS + C02_LOGIC + C02_FNS + C02_NESTED
    qs += Q.nodelists(tier) + Q.logic(tier) + Q.comparisons(tier)
    for c in chunks(Q.uniq(qs), 4):
        out.append(("whole", lambda c=c: whole.evaluate(c, a, seconds=60)))
    if tier != "quick":
        for q in C02_SLOW:
            out.insert(0, ("slow", lambda q=q: whole.evaluate([q], a, seconds=300)))
    for q in C02_DEEP:
        out.insert(0, ("deep", lambda q=q: whole.evaluate([q], a, seconds=100, doc_depth=2)))
    return out


# --- C03 ----------------------------------------------------------------------------------

C03_MORE = ["$[?@.a]", "$[?@==1]", "$[?@[?@.a]]", "$.a[?@.b][0]", "$[?@.a][?@.b]", "$[?$.a]['b']", "$..[?@.a]", "$[*][?@.a==1].b", "$[?@.a,0,*]", "$[?count(@.*)>1]"]
CORE = ["$", "$.a", "$[0]", "$[-1]", "$.*", "$[1:3]", "$[::-1]", "$['a',0]", "$[*].a", "$.a[0]['b']", "$..a", "$..*", "$..[0]", "$[?@.a]"]


@prop("C03", BASE)
def c03(tier: str) -> List[Job]:
    from .groups import locate

    qs = Q.uniq(C01_QUERIES + C03_MORE + Q.segments(tier) + Q.slices(tier)[::3] + Q.names(tier))
    out: List[Job] = []
    for c in chunks(qs, 8):
        out.append(("location", lambda c=c: locate.sound(c)))
    for c in chunks(qs, 8):
        out.append(("pointer", lambda c=c: locate.pointers(c)))
    for c in chunks(qs, 8):
        out.append(("pointer text", lambda c=c: locate.pointer_text(c)))
    return out


# --- extensions ---------------------------------------------------------------------------

EXTENSIONS = [
    "$.~", "$[~]", "$.a[~]", "$..~", "$[*][~]", "$[~,'a']", "$.a.~", "$..[~,0]",
    "$[?@[~]]", "$[?count(@[~])>1]", "$[?count(@.~)==0]", "$[?length(value(@[~]))==1]",
    "$[?#=='a']", "$[?#==1]", "$[?#>1]", "$[?#!='a']", "$[?@.a[?#==1]]", "$[?#==@.a]", "$[?match(#,'a')]", "$.a[?#=='b']", "$[?length(#)==1]", "$[?#==1 && @.a]", "$..[?#=='a']",
    "^[?@.a]", "^[?@[0]]", "^[?@.a.b]", "^[?@.a==1]", "^[?count(@.*)>1]", "^[?!@.a]", "^[0]", "^[0].a", "^..a", "^[*]", "^[?#==0]",
    "$[?@.a==_.x]", "$[?_.x]", "$[?@.a==_.x.y]", "$[?@[?@.a==_.x]]", "$[?_.x==1]", "$[?@.a in _.x]", "$[?!_.x]", "$[?count(_.*)>1]", "$[?@==_.x && $.a]", "$..[?@.a==_.x]",
    "$[?@.a in @.b]", "$[?@.b contains @.a]", "$[?'x' in @.a]", "$[?1 in @.a]", "$[?@.a in 'abc']", "$[?@.a contains 'x']", "$[?@.a contains 1]", "$[?@.a in $.b]", "$[?null in @.a]", "$[?@ contains 'a']", "$[?@.a in ['x','y']]", "$[?@.a in [1,'y',null]]", "$[?['x','y'] contains @.a]", "$[?@.a in []]", "$[?# in ['a','b']]", "$[?!(@.a in ['x'])]", "$[?true in @.a]",
    "$[?@.a =~ /x+/]", "$[?@.a =~ /a|b/]", "$[?@.a =~ /X/i]", "$[?@.a =~ /a.b/s]", "$[?@ =~ /ab*/]", "$[?!(@.a =~ /x/)]", "$[?# =~ /a./]", "$[?@.a =~ /[a-c]+/ && @.b]", "$[?@.a =~ /\\d/a]", "$[?@.a =~ /x/im]", "$[?@.a =~ /a|ab/]", "$[?@.a =~ /x*?/]", "$[?@.a =~ /(x|xy)z?/]", "$[?@.a =~ /.$/]",
    "$[?@.a <> 1]", "$[?@.a <> @.b]", "$[?@.a <> 'x' || @.b]", "$[?@ <> null]",
    "$[?@.a == undefined]", "$[?@.a != undefined]", "$[?undefined == @.a]", "$[?@.a == missing]", "$[?@.a.b != missing]", "$[?$.a == undefined]", "$[?@.a == undefined && @.b]",
    "$[?@.a and @.b]", "$[?@.a or @.b]", "$[?not @.a]", "$[?@.a and @.b or @.c]", "$[?@.a or @.b and @.c]", "$[?not (@.a and @.b)]", "$[?@.a==1 and not @.b]",
    "$[?@.a==nil]", "$[?@.a==none]", "$[?@.a==None]", "$[?@.a==Null]", "$[?@.a==True]", "$[?@.a==False]", "$[?@.a==Nil]", "$[?@.a!=none]",
]
# extension spelling, and the standard one
ALIASES = [
    ("a", "$['a']"), ("a.b", "$['a']['b']"), ("a[0]", "$['a'][0]"), (".a", "$['a']"), ("['a']", "$['a']"), ("[0]", "$[0]"), ("*", "$[*]"), ("..a", "$..['a']"), ("[*].a", "$[*]['a']"), ("..*", "$..[*]"), (".*", "$[*]"), ("[?@.a]", "$[?@['a']]"),
    ("$[a]", "$['a']"), ("$[a,b]", "$['a','b']"), ("$[a,0]", "$['a',0]"), ("$..[a]", "$..['a']"), ("$[*][a]", "$[*]['a']"), ("[a]", "$['a']"), ("$[?@[a]]", "$[?@['a']]"), ("$[?@[a]==1]", "$[?@['a']==1]"), ("$[a][b]", "$['a']['b']"), ("a..b", "$['a']..['b']"), ("$[a,*]", "$['a',*]"),
    ("$[?@.a<>@.b]", "$[?@.a!=@.b]"), ("$[?@.a<>1]", "$[?@.a!=1]"), ("$[?(@.a<>1)]", "$[?@.a!=1]"),
    ("$[?@.a and @.b]", "$[?@.a&&@.b]"), ("$[?@.a or @.b]", "$[?@.a||@.b]"), ("$[?not @.a]", "$[?!@.a]"), ("$[?not (@.a or @.b)]", "$[?!(@.a||@.b)]"), ("$[?@.a or @.b and @.c]", "$[?@.a||@.b&&@.c]"), ("$[?(@.a or @.b) and @.c]", "$[?(@.a||@.b)&&@.c]"), ("$[?@.a==1 and @.b<2 or not @.c]", "$[?@.a==1&&@.b<2||!@.c]"), ("$[?not @.a and @.b]", "$[?!@.a&&@.b]"), ("$[?not @.a == 1]", "$[?!@.a == 1]"), ("$[?(not @.a)]", "$[?!@.a]"),
    ("$[?@.a==undefined]", "$[?!@.a]"), ("$[?@.a!=undefined]", "$[?@.a]"), ("$[?@.a==missing]", "$[?!@.a]"), ("$[?undefined!=@.a]", "$[?@.a]"), ("$[?@.a.b==undefined]", "$[?!@.a.b]"), ("$[?$.a!=missing]", "$[?$.a]"),
    ("$[?@.a==nil]", "$[?@.a==null]"), ("$[?@.a==none]", "$[?@.a==null]"), ("$[?@.a==None]", "$[?@.a==null]"), ("$[?@.a==Nil]", "$[?@.a==null]"), ("$[?@.a==Null]", "$[?@.a==null]"), ("$[?@.a==True]", "$[?@.a==true]"), ("$[?@.a==False]", "$[?@.a==false]"), ("$[?@.a!=Nil]", "$[?@.a!=null]"), ("$[?nil==@.a]", "$[?null==@.a]"), ("$[?True!=@.a]", "$[?true!=@.a]"),
    ("$[?@.a in ['x',None]]", "$[?@.a in ['x',null]]"), ("$[?(@.a)]", "$[?@.a]"), ("$[?(@.a==1)]", "$[?@.a==1]"), ("$[?@.b contains @.a]", "$[?@.a in @.b]"), ("$[?$.b contains #]", "$[?# in $.b]"),
]


@prop("C13", BASE)
def c13(tier: str) -> List[Job]:
    from .groups import agree
    from .groups import whole

    out: List[Job] = []
    for c in chunks(EXTENSIONS, 6):
        out.append(("whole", lambda c=c: whole.evaluate(c, ("obj",), "extension", seconds=40)))
    for c in chunks(ALIASES, 8):
        out.append(("alias", lambda c=c: agree.aliases(c, aspects=("obj", "parts"))))
    return out


# --- C08 ----------------------------------------------------------------------------------

COMPOUNDS = ["$.a | $.b", "$.a & $.b", "$.* | $.a", "$.* & $.a", "$.a & $.*", "$[0] | $.a & $.b", "$.a & $.b | $.c", "$..a | $[*]", "$.* & $[0]", "$.a | $.b | $.c"]


def light(qs: List[str]) -> List[str]:
    return [q for q in qs if q not in C02_DEEP]


@prop("C08", BASE)
def c08(tier: str) -> List[Job]:
    from .groups import agree

    out: List[Job] = []
    qs = C01_QUERIES + C02_CMP[::3] + C02_TESTS + C02_LOGIC[::2] + C02_FNS + C02_NESTED[:8] + EXTENSIONS
    qs += Q.nodelists(tier)
    if tier == "quick":
        qs += Q.segments(tier)[::3]
    else:
        qs += Q.segments(tier) + Q.comparisons("quick") + Q.logic(tier) + C02_SLOW
    for c in chunks(Q.uniq(qs), 6):
        out.append(("async", lambda c=c: agree.twins(c, seconds=30, doc_depth=2)))
    for c in chunks(COMPOUNDS, 2):
        out.append(("async", lambda c=c: agree.twins(c, seconds=30, doc_depth=2)))
    for c in chunks(CORE + COMPOUNDS, 4):
        out.append(("async", lambda c=c: agree.twins_all(c, seconds=30)))
    for c in chunks(GETTERS, 4):
        out.append(("getter", lambda c=c: agree.getters(c, seconds=30)))
    return out


GETTERS = [
    "$.a[0]", "$.a[1].b", "$.a[-1]", "$.a[-3]", "$.a[9]", "$.a[-4]", "$.zz", "$.a.b", "$.a[1:]", "$.a[::-1]", "$.a[0:0]", "$.a[2:0:-2]", "$['b','a']", "$.b.a[0].a", "$.b[0]", "$.a[0,-1,1]",
    "$.*", "$..b", "$..a[0]", "$..[0]", "$..['a','b']", "$.a[?@.b]", "$.a[?@.c==1]", "$.a[?@.b==$.c].b", "$[?@[1].c==1]", "$[?@['a'][0].a]", "$[?@[-1]==$.a[2]]", "$.a[?count(@.*)==2]", "$.b.~", "$.a[?length(@)==2]", "$[?@[0:1]]", "$..[?@.a]", "$[?value(@..b)==$.c]",
]


# --- C10 ----------------------------------------------------------------------------------


@prop("C10", BASE)
def c10(tier: str) -> List[Job]:
    from .groups import tokens

    out: List[Job] = []
    qs = C01_QUERIES + C02_CMP[::2] + C02_TESTS + C02_LOGIC + C02_FNS + C02_NESTED[:8] + EXTENSIONS
    qs += Q.slices(tier) + Q.names(tier) + Q.logic(tier)
    if tier == "quick":
        qs += Q.segments(tier)[::4]
    else:
        qs += Q.segments(tier) + Q.comparisons("quick") + C02_SLOW
    for c in chunks(Q.uniq(qs), 6):
        out.append(("str", lambda c=c: tokens.strings(c, seconds=30)))
    for c in chunks(COMPOUNDS, 2):
        out.append(("str", lambda c=c: tokens.strings(c, seconds=30)))
    return out


# --- C11 ----------------------------------------------------------------------------------

BUILT = [("$.a", (("|", "$.b"),)), ("$.a", (("&", "$.*"),))]


@prop("C11", BASE)
def c11(tier: str) -> List[Job]:
    from .groups import entry

    out: List[Job] = []
    for c in chunks(CORE, 2):
        out.append(("entry", lambda c=c: entry.agreement(c)))
    for c in chunks([q for q in COMPOUNDS if tier != "quick" or not q.startswith("$[0] |")], 1):
        out.append(("entry", lambda c=c: entry.agreement(c, seconds=30)))
    for c in chunks(COMPOUNDS, 1):
        out.append(("compound", lambda c=c: entry.compounds(c)))
    for c in chunks(["$", "$.a", "$[0]", "$.*", "$..a", "$[?@.a]"], 1):
        out.append(("form", lambda c=c: entry.forms(c, ("findall", "match", "query", "env.findall", "env.finditer", "env.match", "env.query", "jsonpath.findall", "jsonpath.finditer", "jsonpath.match", "jsonpath.query"))))
    return out


# --- C17 ----------------------------------------------------------------------------------

TOKEN_QUERIES = [
    "$.a", "$[0]", "$.*", "$..a", "$[?@.a]", "$[?@.a==$.b]", "$[?!@.a]", "$[?@.a==_.x]", "$[?#=='a']", "$[~]", "$.~", "$..[~]", "^[?@.a]", "^[0]", "$[?@[?#==1]]", "$[?count(@[~])>1]", "$[?@.a && $.b || _.c]", "$[?(@.a || @.b) && @.c]",
    "$[?match(@.a,$.p)]", "$[?# in _.x]", "$.a | $.b", "$.a & $.*", "$[?@.a==1] | ^[0]", "$[?@.a || @.b] & $[0]", "$[?@ == $]", "$[?@['a','b']]",
]
CLASSES = ["Single", "Prefixed", "Swapped", "Extending", "Long"]


@prop("C17", BASE)
def c17(tier: str) -> List[Job]:
    from .groups import tokens

    out: List[Job] = []
    for cls in CLASSES:
        for c in chunks(TOKEN_QUERIES, 5):
            out.append(("tokens", lambda c=c, cls=cls: tokens.respelled(cls, c)))
    return out


# --- C04, C14, C16: pointers -----------------------------------------------------------------


def known(p: str) -> List[Job]:
    """The inputs listed in known_findings.txt."""
    from .groups import findings

    return [("known finding", lambda: findings.OF[p]())]


@prop("C04", BASE)
def c04(tier: str) -> List[Job]:
    from .groups import pointers

    n = 4 if tier == "quick" else 6
    out: List[Job] = [("pointer", lambda i=i: pointers.resolution((i,), seconds=100)) for i in range(n)]
    return out + known("C04")


@prop("C14", BASE)
def c14(tier: str) -> List[Job]:
    from .groups import pointers

    n = 3 if tier == "quick" else 4
    return [
        ("pointer text", lambda: pointers.text_and_tokens(n + 1, seconds=100)),
        ("navigation", lambda: pointers.navigation(n - 1, seconds=100)),
        *known("C14"),
    ]


@prop("C16", BASE)
def c16(tier: str) -> List[Job]:
    from .groups import relative

    n = 2 if tier == "quick" else 3
    return [
        ("relative", lambda o=o, s=s: relative.applying(n, (o,), (s,), seconds=100))
        for o in relative.OFFSETS
        for s in (relative.SUFFIXES if tier == "quick" else (*relative.SUFFIXES, 3))
    ] + [
        ("long pointers", lambda o=o, s=s, i=i: relative.applying(i, (o,), (s,), seconds=100, least=i, brief=True))
        for o in relative.OFFSETS
        for s in (0, 1)
        for i in range(n + 1, 6 if tier == "quick" else 8)
    ]


# --- C05, C15, C20: patches --------------------------------------------------------------------

SINGLE = (
    [("add", n) for n in range(3)]
    + [("remove", n) for n in range(3)]
    + [("replace", n) for n in range(3)]
    + [("test", n) for n in range(3)]
    + [(op, n, m) for op in ("copy", "move") for n in range(3) for m in range(3) if n + m < 4]
)
# Tokens that are given: what one operation does, another one finds.
PAIRS = [
    [("add", ("a",)), ("add", ("a", "b"))],
    [("add", ("a",)), ("remove", ("a",))],
    [("add", ("0",)), ("add", ("0",))],
    [("add", ("1",)), ("remove", ("0",))],
    [("add", ("-",)), ("add", ("-",))],
    [("remove", ("0",)), ("replace", ("0",))],
    [("remove", ("a",)), ("add", ("a",))],
    [("remove", ("0",)), ("add", ("1",))],
    [("copy", ("b",), ("a",)), ("add", ("b", "x"))],
    [("copy", ("b",), ("a",)), ("remove", ("a", "x"))],
    [("copy", ("b",), ("a",)), ("replace", ("a", "0"))],
    [("copy", ("0",), ("1",)), ("add", ("0", "x"))],
    [("copy", ("-",), ("0",)), ("remove", ("0", "x"))],
    [("copy", ("1",), ()), ("add", ("0", "x"))],
    [("move", ("b",), ("a",)), ("add", ("b", "x"))],
    [("move", ("b",), ("a",)), ("test", ("a",))],
    [("move", ("0",), ("1",)), ("remove", ("0",))],
    [("move", ("1",), ("0",)), ("add", ("1", "x"))],
    [("test", ("a",)), ("remove", ("a",))],
    [("replace", ("a",)), ("add", ("a", "b"))],
    [("add", ()), ("add", ("a",))],
    [("replace", ()), ("remove", ("0",))],
    [("move", (), ("a",)), ("add", ("b",))],
    [("copy", (), ("a",)), ("add", ("b",))],
    [("add", 1), ("remove", 1)],
    [("remove", 1), ("add", 1)],
    [("add", 1), ("add", 1)],
    [("move", ("0",), ("-",)), ("move", ("-",), ("0",)), ("add", ("0",))],
    [("add", ("a",)), ("copy", ("b",), ("a",)), ("add", ("a", "x"))],
]
LONG_PAIRS = [
    [("add", 1), ("add", 2)],
    [("copy", 1, 1), ("remove", 2)],
    [("copy", 1, 1), ("add", 2)],
    [("copy", 1, 1), ("replace", 1)],
    [("move", 1, 1), ("test", 1)],
    [("move", 1, 1), ("add", 1)],
    [("add", 1), ("test", 1)],
    [("remove", 2), ("add", 2)],
    [("replace", 1), ("add", 2)],
    [("copy", 1, 2), ("remove", 1)],
]
EXTRA = [("addne", n) for n in range(3)] + [("addap", n) for n in range(3)]
EDITED = [
    "$", "$.a", "$.*", "$['a']['b']", "$['1']", "$['a~b']", "$['x/y']", "$['']", "$['#a']", "$['-1']", "$['-']", "$['é']", "$['a'][0]", "$[0]", "$[-1]", "$[0][1]", "$[*]", "$[*][*]", "$.*['1']", "$[1:3]", "$[::-1]", "$['a',0]", "$..a", "$..[0]", "$..*", "$..['1']", "$[?@.a]", "$[?@.a].b", "$[?@ == 1]", "$.*[?@.b]", "$[0]['0']", "$['0'][0]",
]


@prop("C05", BASE)
def c05(tier: str) -> List[Job]:
    from .groups import patches

    singles = [*SINGLE] if tier == "quick" else [*SINGLE, ("add", 3), ("remove", 3), ("replace", 3), ("test", 3), ("copy", 2, 2), ("move", 2, 2), ("move", 1, 3), ("move", 3, 1), ("copy", 3, 1), ("copy", 1, 3)]
    secs = 40.0 if tier == "quick" else 300.0
    out: List[Job] = [("one operation", lambda s=s: patches.applied([[s]], seconds=secs)) for s in singles]
    out += [("several operations", lambda s=s: patches.applied([s], seconds=secs)) for s in (PAIRS if tier == "quick" else PAIRS + LONG_PAIRS)]
    out += [("new values", lambda s=s: patches.applied([[s]], identity=True, seconds=secs)) for s in singles if s[0] in ("add", "replace", "copy")]
    out.append(("module function", lambda: patches.function([[("add", 1)], [("test", 1)], [("move", 1, 1)]])))
    return out + known("C05")


@prop("C15", BASE)
def c15(tier: str) -> List[Job]:
    from .groups import patches

    secs = 40.0 if tier == "quick" else 300.0
    out: List[Job] = []
    shapes = [[s] for s in (*SINGLE, *EXTRA)]
    for way in patches.REPORTS:
        for s in shapes:
            if way == "document" or s[0][1] == 1:
                out.append((f"one operation, {way}", lambda s=s, way=way: patches.faithful([s], way, 2, seconds=secs)))
        for s in (PAIRS if way == "document" or tier != "quick" else PAIRS[:4]):
            out.append((f"several operations, {way}", lambda s=s, way=way: patches.faithful([s], way, 2, seconds=secs)))
    if tier != "quick":
        for s in LONG_PAIRS:
            out.append(("several operations", lambda s=s: patches.faithful([s], "document", 2, seconds=secs)))
        for s in shapes:
            out.append(("three times", lambda s=s: patches.faithful([s], "document", 3, seconds=secs)))
    return out + known("C15")


@prop("C20", BASE)
def c20(tier: str) -> List[Job]:
    from .groups import patches

    qs = EDITED if tier == "quick" else EDITED + [q for q in C01_QUERIES if q not in EDITED]
    secs = 30.0 if tier == "quick" else 120.0
    return [("edits", lambda c=c: patches.at_matches(c, seconds=secs)) for c in chunks(qs, 4 if tier == "quick" else 2)]


# --- C12: query iterators ----------------------------------------------------------------------


@prop("C12", BASE)
def c12(tier: str) -> List[Job]:
    from itertools import product as combos

    from .groups import streams

    every = [*streams.NARROW, "take", *streams.NO_COUNT]
    tees = [("tee", n) for n in (-1, 0, 1, 2, 3)]
    out: List[Job] = []

    def add(what: str, shapes: Any, size: int, **k: Any) -> None:
        for c in chunks(list(shapes), size):
            out.append((what, lambda c=c: streams.chains(c, **k)))

    add("one operation", [[x] for x in [*every, *tees]], 4, views=streams.VIEWS)
    add("two operations", combos(every, repeat=2), 24)
    add("two operations", [[a, b] for a in [*tees, "take"] for b in [*tees, "take", "other"]], 12, views=("items",))
    kinds = streams.BASIC if tier != "quick" else ("limit", "drop", "tail", "take", "first_one")
    add("three operations", combos(kinds, repeat=3), 8)
    add("forks", [[f, *x] for f in ("tee", "take") for x in combos(("limit", "next", "other", "tail"), repeat=2)], 8, views=("pointers",))
    if tier != "quick":
        add("three operations", [x for x in combos(every, repeat=3) if not set(x) <= set(kinds)], 24)
        add("four operations", combos(("limit", "drop", "tail", "take", "tee", "other"), repeat=4), 8, seconds=60.0)
    return out


# --- C19: projections --------------------------------------------------------------------------


@prop("C19", BASE)
def c19(tier: str) -> List[Job]:
    from .groups import projections

    secs = 30.0 if tier == "quick" else 120.0
    return [
        ("projections", lambda c=c: [projections.project(*a, seconds=secs) for a in c])
        for c in chunks(projections.everything(tier), 16)
    ]


# --- C09: repeatability ------------------------------------------------------------------------


@prop("C09", BASE)
def c09(tier: str) -> List[Job]:
    from .groups import purity

    secs = 30.0 if tier == "quick" else 120.0
    out: List[Job] = []

    def add(texts: Any, n: int, *a: Any) -> None:
        for c in chunks(list(texts), n):
            out.append(("evaluations", lambda c=c: purity.repeated(c, secs, *a)))

    plain = [q for q in C01_QUERIES if q not in purity.CACHED]
    if tier == "quick":
        quick = [q for q in purity.CACHED if q not in purity.SLOW]
        add(purity.SLOW[:1], 1, 2, True, True)
        add(quick, 2, 2, True, True)
        add(quick, 3, 2, False, False)
        add(purity.MIXED, 3, 2, True, False)
        add(purity.ASYNC, 2, 2, True, True, "finditer_async")
        add(plain[::3], 6, 2, True, True)
    else:
        both = Q.uniq(purity.CACHED + purity.MIXED + C02_TESTS + C02_LOGIC + C02_FNS + C02_NESTED)
        for how in ("finditer", "finditer_async"):
            add(both, 2, 2, True, True, how)
            add(both, 2, 2, False, False, how)
            add(plain, 4, 3, True, True, how)
    for c in chunks(purity.PAIRS, 8):
        out.append(("compiled again", lambda c=c: purity.recompiled(c, secs)))
    return out


# --- C18: the command line ----------------------------------------------------------------------

TECH["C18"] = "abstract interpretation of the program's source, from its command line to what it writes, compared with the library interpreted on the same unknown document"
NOTES["C18"] = (
    "Command lines and expressions are enumerated; the document is any text at all, decodable or not. "
    "The standard library's argparse and its streams are modelled (spec/argparsing.py, spec/cli.py); "
    "JSON texts are represented by the value they were made from and the options given."
)


@prop("C18", BASE)
def c18(tier: str) -> List[Job]:
    from .groups import cli

    deep = tier != "quick"
    secs = 600.0 if deep else 60.0
    out: List[Job] = []

    def add(name: str, command: str, texts: Any, size: int, **kw: Any) -> None:
        for i, c in enumerate(chunks(texts, size)):
            out.append((name, lambda c=c, i=i: [cli.runs(f"{name} ({i + 1})", command, c, seconds=secs, doc_depth=3 if deep else 2, **kw)]))

    for command, good, bad, own in (
        ("path", cli.QUERIES, cli.BAD_QUERIES, cli.PATH_FLAGS),
        ("pointer", cli.POINTERS, cli.BAD_POINTERS, cli.URI_FLAGS),
        ("patch", cli.PATCHES, cli.BAD_PATCHES, cli.URI_FLAGS),
    ):
        flags = cli.ALL_FLAGS if deep else cli.FLAGS
        given = ("inline",) if command == "patch" else ("inline", "long", "file", "fileline")
        outs = ("stdout", "new", "old", "dash")
        docs = ("file", "long", "stdin", "dash")
        add(f"{command}: options", command, [*good, *bad], 4, flags=flags, own=own)
        add(f"{command}: failures", command, bad if deep else bad[::2], 1, flags=flags[:3], given=given, doc=docs if deep else docs[::2], out=outs if deep else outs[:1], way=cli.WAYS if deep else cli.WAYS[:1])
        add(f"{command}: files", command, good if deep else good[1:3], 1, given=given, doc=docs, out=outs, flags=flags if deep else flags[:2], own=own if deep else own[:1], way=cli.WAYS if deep else cli.WAYS[:1])
        add(f"{command}: python -m", command, [*good[:4], *bad[:4]], 4, flags=flags[:3], way=cli.WAYS[1:])
    return out


# --- C06: errors -------------------------------------------------------------------------------

TECH["C06"] = "abstract interpretation of the package's source: which exception classes escape, for every token sequence of a systematic list and for unknown documents, pointers and patches"
NOTES["C06"] = (
    "Query texts are enumerated (sequences of tokens in every syntactic place, valid queries with every "
    "small change); what they are applied to, pointers' tokens and patches' members are unknown. "
    "Non-termination is reported where parsing takes absurdly many steps; loops over documents are "
    "summarised, and a loop that can't be summarised is undecided."
)


@prop("C06", BASE)
def c06(tier: str) -> List[Job]:
    from .groups import errors

    deep = tier != "quick"
    secs = 600.0 if deep else 60.0
    out: List[Job] = []

    def texts(what: str, named: Any, size: int, evaluated: bool = True, how: str = "findall") -> None:
        for name, ts in named:
            for i, c in enumerate(chunks(ts, size)):
                out.append((what, lambda name=name, c=c, i=i: [errors.queries(f"{name} ({i + 1})", c, evaluated=evaluated, how=how, seconds=secs if deep else 20.0)]))

    texts("tokens", errors.soups(1), 100)
    two = errors.soups(2) if deep else [(n, ts[i % 9 :: 9]) for i, (n, ts) in enumerate(errors.soups(2))]
    texts("tokens", two, 400)
    if deep:
        texts("tokens", errors.soups(3, errors.AROUND[3:9], errors.TOKENS[::2]), 1500, False)
    texts("changes", errors.mutated(every=1 if deep else 4), 800, False)
    if deep:
        texts("changes", errors.mutated(every=2), 100)
    sel = errors.selections(2) if deep else errors.selections(1) + [(n, ts[i % 7 :: 7]) for i, (n, ts) in enumerate(errors.selections(2)[len(errors.SELECTORS) + 1 :])]
    texts("selections", sel, 25)
    texts("selections", sel[::1 if deep else 6], 25, how="async")
    fs = errors.applications() if deep else [(n, ts[i % 25 :: 25]) for i, (n, ts) in enumerate(errors.applications())]
    texts("functions", fs, 25)
    os = errors.operations() if deep else [(n, ts[i % 23 :: 23]) for i, (n, ts) in enumerate(errors.operations())]
    texts("operators", os, 27)
    if deep:
        texts("operators", [(n, ts[i % 5 :: 5]) for i, (n, ts) in enumerate(errors.operations())], 27, how="async")

    def pointers(name: str, ts: Any, size: int) -> None:
        for i, c in enumerate(chunks(ts, size)):
            out.append(("pointers", lambda c=c, i=i: [errors.pointers(f"{name} ({i + 1})", lambda c=c: c, seconds=secs)]))

    pointers("odd pointers", errors.pointer_texts(1), 100)
    pointers("odd pointers of two pieces", errors.pointer_texts(2)[:: 1 if deep else 23], 200)
    for n in range(4 if deep else 3):
        out.append(("pointers", lambda n=n: [errors.unknown_pointers(n, secs)]))
    for o in errors.ORIGINS if deep else errors.ORIGINS[:12:2]:
        out.append(("relative pointers", lambda o=o: errors.relatives([o], errors.MODES if deep else errors.MODES[::3], errors.BASES if deep else errors.BASES[::2], seconds=secs)))
    for n in range(4 if deep else 3):
        out.append(("relative pointers", lambda n=n: errors.unknown_relatives(n, secs, deep or n < 2)))
    for f in errors.made(secs):
        out.append(("pointers made otherwise", lambda f=f: [f()]))
    for c in chunks([*errors.patches(secs, 2 if deep else 1), *errors.odd_patches(secs)], 3):
        out.append(("patches", lambda c=c: [f() for f in c]))
    pairs = [(a, b) for a in errors.NAMES for b in errors.NAMES]
    for f in errors.patches_at(pairs if deep else pairs[1:40:9], secs):
        out.append(("patches in turn", lambda f=f: [f()]))
    if deep:
        for f in errors.patches_in_turn(seconds=secs):
            out.append(("patches in turn", lambda f=f: [f()]))
    return out


# --- C07: what compiles ------------------------------------------------------------------------


@prop("C07", BASE)
def c07(tier: str) -> List[Job]:
    from .groups import gate

    secs = 60.0 if tier == "quick" else 600.0
    out: List[Job] = []

    def add(what: str, named: Any, n: int) -> None:
        for c in chunks(list(named), n):
            out.append((what, lambda c=c: [gate.gate(name, texts, secs) for name, texts in c]))

    add("spellings", [(f"spellings {i}", c) for i, c in enumerate(chunks(gate.valid(), 320))], 1)
    add("lists", [("lists and integers", gate.refused())], 1)
    add("typing", gate.typing(gate.PLACES, gate.AROUND[:1] if tier == "quick" else gate.AROUND), 4)
    if tier == "quick":
        add("typing", gate.typing(gate.PLACES[:12], gate.AROUND[1:], gate.GOOD[::4], gate.BAD[::3]), 12)
    few = (gate.GOOD[::6], gate.BAD[::7]) if tier == "quick" else (gate.GOOD, gate.BAD)
    add("typing", gate.twice(gate.PLACES[1:], gate.PLACES[1:], *few), 32)
    add("functions", gate.functions(False), 1)
    add("functions", gate.functions(True)[:: 1 if tier != "quick" else 3], 8)
    histories = [*gate.functions(False), *gate.typing(gate.PLACES[:: 6 if tier == "quick" else 1], gate.AROUND[:1]), ("lists and integers", gate.refused()[:: 3 if tier == "quick" else 1])]
    for c in chunks(histories, 3):
        out.append(("histories", lambda c=c: [gate.after(f"{name}, after others", texts, secs) for name, texts in c]))
    for c in chunks(gate.SIGNATURES, 2):
        out.append(("signatures", lambda c=c: gate.declared(c, secs)))
    for c in chunks(gate.LIMITED, 4):
        out.append(("limits", lambda c=c: gate.limits(c, seconds=secs)))
    return out
