"""Inputs on which the package breaks a property, and is not repaired.

Every obligation here is about one specific input, is listed in known_findings.txt,
and is reported as a KNOWN-FINDING for as long as it fails.
"""

from __future__ import annotations

from typing import Any
from typing import Callable
from typing import Dict
from typing import List

from .. import interp as I
from ..check import Result
from ..check import product
from ..cmp import Cmp
from ..scen import json
from ..scen import repo
from ..scen import spec

BIG = str(2**53)


def _asdicts(p: Any) -> Any:
    return I.call(I.getattr_(p, "asdicts"), [])


def _patch(ops: Any) -> Any:
    return I.call(repo("jsonpath.patch.JSONPatch"), [ops])


def c04() -> List[Result]:
    return [
        product(
            "the member 9007199254740992",
            "'/9007199254740992' resolves to the member of that name",
            lambda: json("v"),
            lambda v: I.call(spec("findings.resolved"), [v, BIG]),
            lambda v: I.call(spec("findings.value"), [v]),
            Cmp,
        )
    ]


def c14() -> List[Result]:
    return [
        product(
            "the pointer /9007199254740992",
            "'/9007199254740992' is printed as it was given",
            lambda: None,
            lambda v: I.call(spec("findings.printed"), ["/" + BIG]),
            lambda v: ("text", "/" + BIG),
            Cmp,
        )
    ]


def c05() -> List[Result]:
    return [
        product(
            "replace at /9007199254740992",
            "'/9007199254740992' is the target of a patch",
            lambda: json("v"),
            lambda v: I.call(spec("findings.replaced"), [v, BIG]),
            lambda v: I.call(spec("findings.expected"), [v, BIG]),
            lambda: Cmp(identity=False),
        )
    ]


def c15() -> List[Result]:
    return [
        product(
            "a patch of the path '/a\\\\\\\\b'",
            "the patch's own list of dicts gives a patch that prints the same",
            lambda: None,
            lambda v: I.call(spec("findings.again"), ["/a\\\\b"]),
            lambda v: True,
            Cmp,
        )
    ]


OF: Dict[str, Callable[[], List[Result]]] = {"C04": c04, "C05": c05, "C14": c14, "C15": c15}
