"""What the standard library's argparse does with the options of a command line."""

import sys

SUPPRESS = "==SUPPRESS=="
OPTIONAL = "?"
ZERO_OR_MORE = "*"
ONE_OR_MORE = "+"
REMAINDER = "..."
PARSER = "A..."


class ArgumentTypeError(Exception):
    pass


class ArgumentError(Exception):
    def __init__(self, argument, message):
        self.argument_name = argument
        self.message = message

    def __str__(self):
        return self.message


class HelpFormatter:
    pass


class RawDescriptionHelpFormatter(HelpFormatter):
    pass


class RawTextHelpFormatter(RawDescriptionHelpFormatter):
    pass


class ArgumentDefaultsHelpFormatter(HelpFormatter):
    pass


class MetavarTypeHelpFormatter(HelpFormatter):
    pass


class Namespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __contains__(self, key):
        return hasattr(self, key)


class FileType:
    def __init__(self, mode="r", bufsize=-1, encoding=None, errors=None):
        self._mode = mode
        self._bufsize = bufsize
        self._encoding = encoding
        self._errors = errors

    def __call__(self, string):
        if string == "-":
            if "r" in self._mode:
                return sys.stdin.buffer if "b" in self._mode else sys.stdin
            return sys.stdout.buffer if "b" in self._mode else sys.stdout
        try:
            return open(string, self._mode, self._bufsize, self._encoding, self._errors)
        except OSError:
            raise ArgumentTypeError("can't open '" + string + "'")


class Action:
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs
        self.const = const
        self.default = default
        self.type = type
        self.choices = choices
        self.required = required
        self.help = help
        self.metavar = metavar
        self.kind = "custom"
        self.subs = None
        self.version = None

    def __call__(self, parser, namespace, values, option_string=None):
        raise NotImplementedError()


_FLAGS = ("store_true", "store_false", "store_const", "append_const", "count", "version", "help")


def _dest(names):
    for n in names:
        if n.startswith("--"):
            return n[2:].replace("-", "_")
    return names[0].lstrip("-").replace("-", "_")


def _action(names, action="store", nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None, dest=None, version=None):
    options = [n for n in names if n.startswith("-")]
    if dest is None:
        dest = _dest(names)
    if not isinstance(action, str):
        a = action(options, dest, nargs=nargs, const=const, default=default, type=type, choices=choices, required=required, help=help, metavar=metavar)
        return a
    a = Action(options, dest, nargs, const, default, type, choices, required, help, metavar)
    a.kind = action
    a.version = version
    if action == "store_true":
        a.const = True
        if default is None:
            a.default = False
    elif action == "store_false":
        a.const = False
        if default is None:
            a.default = True
    elif action in ("version", "help"):
        a.default = SUPPRESS
        a.dest = SUPPRESS
    if not options:
        a.required = nargs not in ("?", "*")
    return a


class Group:
    def __init__(self, parser, exclusive=False, required=False):
        self.parser = parser
        self.exclusive = exclusive
        self.required = required
        self.members = []

    def add_argument(self, *names, **kw):
        a = self.parser.add_argument(*names, **kw)
        self.members.append(a)
        return a

    def add_mutually_exclusive_group(self, *, required=False):
        return self.parser.add_mutually_exclusive_group(required=required)

    def add_argument_group(self, *a, **kw):
        return self.parser.add_argument_group(*a, **kw)

    def set_defaults(self, **kw):
        self.parser.set_defaults(**kw)


class SubParsers:
    def __init__(self, parser, cls):
        self.parser = parser
        self.cls = cls
        self.choices = {}

    def add_parser(self, name, *, aliases=(), help=None, **kw):
        p = self.cls(**kw)
        self.choices[name] = p
        for a in aliases:
            self.choices[a] = p
        return p


class ArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, epilog=None, parents=(), formatter_class=None, prefix_chars="-", fromfile_prefix_chars=None, argument_default=None, conflict_handler="error", add_help=True, allow_abbrev=True, exit_on_error=True):
        self.prog = prog
        self.usage = usage
        self.description = description
        self.epilog = epilog
        self.argument_default = argument_default
        self._actions = []
        self._exclusive = []
        self._defaults = {}
        if add_help:
            self.add_argument("-h", "--help", action="help")
        for p in parents:
            self._actions.extend([a for a in p._actions if a.kind != "help"])
            self._exclusive.extend(p._exclusive)
            self._defaults.update(p._defaults)

    def add_argument(self, *names, **kw):
        if self.argument_default is not None and "default" not in kw:
            kw = {**kw, "default": self.argument_default}
        if len(names) == 0:
            names = (kw["dest"],)
        a = _action(names, **kw)
        if a.dest in self._defaults:
            a.default = self._defaults[a.dest]
        self._actions.append(a)
        return a

    def add_argument_group(self, title=None, description=None, **kw):
        return Group(self)

    def add_mutually_exclusive_group(self, *, required=False):
        g = Group(self, True, required)
        self._exclusive.append(g)
        return g

    def add_subparsers(self, *, title=None, description=None, prog=None, parser_class=None, action=None, dest=SUPPRESS, required=False, help=None, metavar=None):
        a = Action([], dest, required=required)
        a.kind = "parsers"
        a.subs = SubParsers(self, parser_class if parser_class is not None else type(self))
        if dest == SUPPRESS:
            a.default = SUPPRESS
        self._actions.append(a)
        return a.subs

    def set_defaults(self, **kw):
        self._defaults.update(kw)
        for a in self._actions:
            if a.dest in kw:
                a.default = kw[a.dest]

    def get_default(self, dest):
        for a in self._actions:
            if a.dest == dest and a.default is not None:
                return a.default
        return self._defaults.get(dest)

    def format_usage(self):
        return "usage\n"

    def format_help(self):
        return "help\n"

    def print_usage(self, file=None):
        (sys.stdout if file is None else file).write(self.format_usage())

    def print_help(self, file=None):
        (sys.stdout if file is None else file).write(self.format_help())

    def exit(self, status=0, message=None):
        if message:
            sys.stderr.write(message)
        raise SystemExit(status)

    def error(self, message):
        self.print_usage(sys.stderr)
        self.exit(2, str(self.prog) + ": error: " + message + "\n")

    def parse_args(self, args=None, namespace=None):
        if args is None:
            args = sys.argv[1:]
        if namespace is None:
            namespace = Namespace()
        self._parse(list(args), namespace)
        return namespace

    def _value(self, a, text):
        if a.type is not None:
            try:
                text = a.type(text)
            except (ArgumentTypeError, TypeError, ValueError):
                self.error("argument " + str(a.dest) + ": invalid value")
        if a.choices is not None and text not in a.choices:
            self.error("argument " + str(a.dest) + ": invalid choice")
        return text

    def _take(self, a, value, ns, option):
        if a.kind == "custom":
            a(self, ns, value, option)
        elif a.kind == "append":
            old = getattr(ns, a.dest)
            setattr(ns, a.dest, [*(old if old is not None else []), value])
        elif a.kind == "count":
            old = getattr(ns, a.dest)
            setattr(ns, a.dest, (old if old is not None else 0) + 1)
        elif a.kind == "version":
            sys.stdout.write(str(a.version) + "\n")
            self.exit(0)
        elif a.kind == "help":
            self.print_help()
            self.exit(0)
        elif a.kind in ("store_true", "store_false", "store_const"):
            setattr(ns, a.dest, a.const)
        else:
            setattr(ns, a.dest, value)

    def _find(self, flag):
        for a in self._actions:
            if flag in a.option_strings:
                return a
        return None

    def _parse(self, args, ns):
        names = []
        for a in self._actions:
            if a.dest != SUPPRESS and a.default != SUPPRESS:
                if not hasattr(ns, a.dest):
                    setattr(ns, a.dest, a.default)
                names.append(a.dest)
        for k, v in self._defaults.items():
            if not hasattr(ns, k):
                setattr(ns, k, v)
            names.append(k)
        seen = []
        waiting = [a for a in self._actions if not a.option_strings]
        i = 0
        plain = False
        while i < len(args):
            text = args[i]
            i += 1
            if text == "--" and not plain:
                plain = True
                continue
            if text.startswith("-") and text != "-" and not plain:
                flag, eq, value = text.partition("=") if text.startswith("--") else (text, "", "")
                a = self._find(flag)
                if a is None:
                    self.error("unrecognized arguments: " + text)
                if a.kind in _FLAGS or a.nargs == 0:
                    if eq:
                        self.error("ignored explicit argument")
                    seen.append(a)
                    self._take(a, [], ns, flag)
                    continue
                if not eq:
                    if i < len(args) and not (args[i].startswith("-") and args[i] != "-"):
                        value = args[i]
                        i += 1
                    elif a.nargs == "?":
                        seen.append(a)
                        self._take(a, a.const, ns, flag)
                        continue
                    else:
                        self.error("expected one argument")
                seen.append(a)
                value = self._value(a, value)
                self._take(a, [value] if isinstance(a.nargs, int) or a.nargs in ("*", "+") else value, ns, flag)
                continue
            if not waiting:
                self.error("unrecognized arguments: " + text)
            a = waiting.pop(0)
            seen.append(a)
            if a.kind == "parsers":
                if text not in a.subs.choices:
                    self.error("invalid choice: " + text)
                if a.dest != SUPPRESS:
                    setattr(ns, a.dest, text)
                    names.append(a.dest)
                sub = Namespace()
                for k in a.subs.choices[text]._parse(args[i:], sub):
                    setattr(ns, k, getattr(sub, k))
                    names.append(k)
                i = len(args)
            elif a.nargs in ("*", "+"):
                values = [text]
                while i < len(args) and not args[i].startswith("-"):
                    values.append(args[i])
                    i += 1
                self._take(a, [self._value(a, v) for v in values], ns, None)
            else:
                self._take(a, self._value(a, text), ns, None)
        for a in self._actions:
            if not any(a is s for s in seen):
                if a.required:
                    self.error("the following arguments are required: " + str(a.dest))
                if isinstance(a.default, str) and a.default != SUPPRESS and a.type is not None:
                    setattr(ns, a.dest, self._value(a, a.default))
        for g in self._exclusive:
            n = len([a for a in g.members if any(a is s for s in seen)])
            if n > 1:
                self.error("not allowed with another argument")
            if g.required and n == 0:
                self.error("one of the arguments is required")
        return names
