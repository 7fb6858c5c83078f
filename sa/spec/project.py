"""Projections, from what is selected."""

from . import ref


def located(obj, trees, ctx):
    """What queries select, as pairs of a relative location and a value."""
    out = []
    for t in trees:
        for n in ref.query(t, obj, obj, ctx):
            out.append((n[1], n[0]))
    return out


def built(nodes):
    """A value with just the given nodes, arrays without gaps."""
    whole = [v for parts, v in nodes if not parts]
    if whole:
        return whole[0]
    heads = []
    for parts, _ in nodes:
        if parts[0] not in heads:
            heads.append(parts[0])
    if isinstance(heads[0], int):
        return [built([(p[1:], v) for p, v in nodes if p[0] == i]) for i in sorted(heads)]
    return {k: built([(p[1:], v) for p, v in nodes if p[0] == k]) for k in heads}


def projection(node, trees, style, ctx):
    obj = node[0]
    if not isinstance(obj, (list, dict)):
        return None
    nodes = located(obj, trees, ctx)
    if not nodes:
        return None
    if style == "FLAT":
        return [v for _, v in nodes]
    if style == "ROOT":
        nodes = [(node[1] + parts, v) for parts, v in nodes]
    return built(nodes)


def selected(doc, match, trees, style):
    out = []
    for node in ref.query(match, doc, doc, {}):
        p = projection(node, trees, style, {})
        if p is not None:
            out.append(p)
    return out
