"""Queries in environments with their own identifier spellings."""

from __future__ import annotations

from typing import Any
from typing import Dict
from typing import List
from typing import Sequence

from .. import interp as I
from .. import refparse
from ..check import Result
from ..scen import FCTX
from ..scen import call
from ..scen import env
from ..scen import spec
from . import agree

NAMES = {
    "$": "root_token",
    "@": "self_token",
    "^": "fake_root_token",
    "_": "filter_context_token",
    "~": "keys_selector_token",
    "#": "key_token",
    "|": "union_token",
    "&": "intersection_token",
}


def style(e: Any) -> refparse.Style:
    toks: Dict[str, str] = {k: I.getattr_(e, v) for k, v in NAMES.items()}
    return refparse.Style(tokens=toks)


def respelled(cls: str, texts: Sequence[str], seconds: float = 20.0, strings: bool = True) -> List[Result]:
    e = env(spec("tokens." + cls))
    st = style(e)
    out = []
    for t in texts:
        src = st.show(refparse.parse(t))
        out.append(
            agree.pair(
                f"{cls} {src} as {t}",
                f"`{src}` with {cls}'s spellings against `{t}`",
                (src, t),
                agree.sync_matches,
                agree.sync_matches,
                ("obj",) if "~" in t else ("obj", "parts"),
                env_=e,
                renv=env(),
                seconds=seconds,
                doc_depth=2 if ".." in t else 3,
            )
        )
        if "|" in t or "&" in t:
            for how in ("findall", "findall_async", "match", "finditer_async"):

                def go(p: Any, d: Any, how: str = how) -> Any:
                    r = call(p, how, d, filter_context=FCTX)
                    if how.endswith("_async"):
                        r = agree.awaited(r)
                    return agree.seq(r, True) if how == "finditer_async" else r

                out.append(
                    agree.pair(
                        f"{cls} {how} {src} as {t}",
                        f"{how} of `{src}` with {cls}'s spellings against `{t}`",
                        (src, t),
                        go,
                        go,
                        ("obj",),
                        env_=e,
                        renv=env(),
                        seconds=seconds,
                        doc_depth=2,
                    )
                )
        if strings:
            out.append(reprinted(e, src, f"{cls} str {src}", seconds))
    return out


def reprinted(e: Any, text: str, name: str, seconds: float = 20.0, aspects: Any = ("obj", "parts")) -> Result:
    """The string form of a query, compiled again, against the query."""

    def again(p: Any, d: Any) -> Any:
        s = I.call(I.pylib.builtin("str"), [p])
        q = call(e, "compile", s)
        s2 = I.call(I.pylib.builtin("str"), [q])
        return (s2, agree.sync_matches(q, d))

    def plain(p: Any, d: Any) -> Any:
        return (I.call(I.pylib.builtin("str"), [p]), agree.sync_matches(p, d))

    return agree.pair(
        name,
        f"`{text}` printed and compiled again",
        text,
        again,
        plain,
        aspects,
        env_=e,
        seconds=seconds,
        doc_depth=2 if ".." in text else 3,
    )


def strings(texts: Sequence[str], seconds: float = 20.0) -> List[Result]:
    return [reprinted(env(), t, f"str {t}", seconds) for t in texts]
