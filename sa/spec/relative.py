"""Relative JSON Pointers, over lists of unescaped reference tokens."""

from jsonpath.exceptions import RelativeJSONPointerError

from spec.pointer import is_index
from spec.pointer import text


def spelled(steps, offset, suffix):
    """The text of a relative pointer; _suffix_ is `"#"` or a list of tokens."""
    out = str(steps)
    if offset > 0:
        out = out + "+" + str(offset)
    elif offset < 0:
        out = out + "-" + str(0 - offset)
    if suffix == "#":
        return out + "#"
    return out + text(suffix)


def apply(tokens, steps, offset, suffix):
    if steps > len(tokens):
        return ("refused",)
    keep = list(tokens[: len(tokens) - steps])
    if offset != 0:
        if not keep or not is_index(keep[-1]):
            return ("unspecified",)
        index = int(keep[-1]) + offset
        if index < 0:
            return ("refused",)
        keep[-1] = str(index)
    if suffix == "#":
        if not keep:
            return ("refused",)
        keep[-1] = "#" + keep[-1]
        return ("pointer", text(keep))
    return ("pointer", text(keep + list(suffix)))


def applied(f, tokens, steps, offset, suffix):
    """The outcome of a call that applies a relative pointer."""
    if apply(tokens, steps, offset, suffix)[0] == "unspecified":
        return ("unspecified",)
    try:
        return ("pointer", str(f()))
    except RelativeJSONPointerError:
        return ("refused",)
