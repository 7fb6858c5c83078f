"""What parts of the standard library do, for the analysis to look into."""

from collections import OrderedDict


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def filterfalse(pred, it):
    for x in it:
        if not (bool(x) if pred is None else pred(x)):
            yield x


def starmap(fn, it):
    for x in it:
        yield fn(*x)


def compress(it, selectors):
    for x, s in zip(it, selectors):
        if s:
            yield x


def accumulate(it, func=None, *, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        else:
            total = total + x if func is None else func(total, x)
        yield total


def repeat(x, times):
    for _ in range(times):
        yield x


def pairwise(it):
    before = None
    first = True
    for x in it:
        if not first:
            yield (before, x)
        before = x
        first = False


def product(*its, repeat=1):
    pools = [tuple(it) for it in its] * repeat
    result = [()]
    for pool in pools:
        result = [(*x, y) for x in result for y in pool]
    yield from result


def groupby(it, key=None):
    group = []
    current = None
    for x in it:
        k = x if key is None else key(x)
        if group and k == current:
            group.append(x)
            continue
        if group:
            yield (current, iter(group))
        group = [x]
        current = k
    if group:
        yield (current, iter(group))


def zip_longest(*its, fillvalue=None):
    lists = [list(it) for it in its]
    n = max([len(x) for x in lists], default=0)
    for i in range(n):
        yield tuple(x[i] if i < len(x) else fillvalue for x in lists)


class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        value = self.default_factory()
        self[key] = value
        return value


def fromkeys(keys, value=None):
    d = {}
    for k in keys:
        d[k] = value
    return d


def divmod(a, b):
    return (a // b, a % b)


def op_add(a, b):
    return a + b


def op_sub(a, b):
    return a - b


def op_mul(a, b):
    return a * b


def op_mod(a, b):
    return a % b


def op_floordiv(a, b):
    return a // b


def op_truediv(a, b):
    return a / b


def op_and_(a, b):
    return a & b


def op_or_(a, b):
    return a | b


def op_xor(a, b):
    return a ^ b


def op_neg(a):
    return -a


def op_not_(a):
    return not a


def op_truth(a):
    return True if a else False


def op_is_(a, b):
    return a is b


def op_is_not(a, b):
    return a is not b


def op_contains(a, b):
    return b in a


def op_setitem(a, b, c):
    a[b] = c


def op_delitem(a, b):
    del a[b]


def op_index(a):
    return a


class methodcaller:
    def __init__(self, name, *args, **kwargs):
        self.name = name
        self.args = args
        self.kwargs = kwargs

    def __call__(self, obj):
        return getattr(obj, self.name)(*self.args, **self.kwargs)


class cmp_key:
    def __init__(self, fn, obj):
        self.fn = fn
        self.obj = obj

    def __lt__(self, other):
        return self.fn(self.obj, other.obj) < 0

    def __gt__(self, other):
        return self.fn(self.obj, other.obj) > 0

    def __eq__(self, other):
        return self.fn(self.obj, other.obj) == 0


def cmp_to_key(fn):
    return lambda obj: cmp_key(fn, obj)


def total_ordering(cls):
    if "__lt__" in cls.__dict__:
        raise NotImplementedError
    return cls


class singledispatch:
    def __init__(self, fn):
        self.fn = fn
        self.registry = []

    def register(self, cls, fn=None):
        if fn is not None:
            self.registry.append((cls, fn))
            return fn

        def deco(f):
            self.registry.append((cls, f))
            return f

        return deco

    def dispatch(self, cls):
        for base in cls.__mro__:
            for c, f in self.registry:
                if c is base:
                    return f
        return self.fn

    def __call__(self, *args, **kwargs):
        return self.dispatch(type(args[0]))(*args, **kwargs)


def popitem(d):
    if not d:
        raise KeyError("popitem(): dictionary is empty")
    k = list(d)[-1]
    return (k, d.pop(k))


_ = OrderedDict
