"""Query iterator operations, on lists."""


def view(q, how):
    if how == "values":
        return list(q.values())
    if how == "locations":
        return list(q.locations())
    if how == "items":
        return list(q.items())
    if how == "pointers":
        return [p.parts for p in q.pointers()]
    return [(m.obj, m.path) for m in q]


def show(xs, how):
    if how == "values":
        return [x[0] for x in xs]
    if how == "locations":
        return [x[1] for x in xs]
    if how == "items":
        return [(x[1], x[0]) for x in xs]
    if how == "pointers":
        return [x[2] for x in xs]
    return [(x[0], x[1]) for x in xs]


def narrowed(q, name, n):
    if name == "limit":
        return q.limit(n)
    if name == "head":
        return q.head(n)
    if name == "first":
        return q.first(n)
    if name == "drop":
        return q.drop(n)
    if name == "skip":
        return q.skip(n)
    if name == "tail":
        return q.tail(n)
    return q.last(n)


def one(q, name):
    if name == "first_one":
        m = q.first_one()
    elif name == "one":
        m = q.one()
    else:
        m = q.last_one()
    return None if m is None else (m.obj, m.path)


def run(q, ops, how, late):
    """What a chain of operations gives, in the order it is looked at."""
    out = []
    others = []
    for name, n in ops:
        try:
            if name == "take":
                others.append(q.take(n))
            elif name == "tee":
                qs = q.tee() if n is None else q.tee(n)
                if not qs:
                    return [*out, *[view(x, how) for x in others]]
                q = qs[0]
                for x in qs[1:]:
                    others.append(x)
            elif name == "other":
                if others:
                    out.append(one(others[-1], "first_one"))
            elif name == "next":
                for m in q:
                    out.append((m.obj, m.path))
                    break
            elif name in ("first_one", "one", "last_one"):
                out.append(one(q, name))
            else:
                q = narrowed(q, name, n)
        except ValueError:
            out.append("refused")
    if late:
        out.append(view(q, how))
        return [*out, *[view(x, how) for x in others]]
    for x in others:
        out.append(view(x, how))
    out.append(view(q, how))
    return out


def kept(xs, name, n):
    if name in ("limit", "head", "first"):
        return xs[:n]
    if name in ("drop", "skip"):
        return xs[n:]
    return xs[len(xs) - n :] if n < len(xs) else xs


def expected(xs, ops, how, late):
    out = []
    others = []
    for name, n in ops:
        if n is not None and n < 0:
            out.append("refused")
        elif name == "other":
            if others:
                ys = others.pop()
                out.append((ys[0][0], ys[0][1]) if ys else None)
                others.append(ys[1:])
        elif name == "next":
            if xs:
                out.append((xs[0][0], xs[0][1]))
            xs = xs[1:]
        elif name == "take":
            others.append(xs[:n])
            xs = xs[n:]
        elif name == "tee" and n == 0:
            return [*out, *[show(x, how) for x in others]]
        elif name == "tee":
            for _ in range((2 if n is None else n) - 1):
                others.append(xs)
        elif name in ("first_one", "one"):
            out.append((xs[0][0], xs[0][1]) if xs else None)
            xs = xs[1:]
        elif name == "last_one":
            out.append((xs[-1][0], xs[-1][1]) if xs else None)
            xs = []
        else:
            xs = kept(xs, name, n)
    if late:
        out.append(show(xs, how))
        return [*out, *[show(x, how) for x in others]]
    for x in others:
        out.append(show(x, how))
    out.append(show(xs, how))
    return out


def located(doc):
    """The matches of `$[*]` for an array, or an object."""
    if isinstance(doc, list):
        return [(x, "$[" + str(i) + "]", (i,)) for i, x in enumerate(doc)]
    return []
