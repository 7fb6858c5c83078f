"""A process with standard streams, files and a command line; and what the library does."""

import json
from io import IOBase

import jsonpath
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPathError
from jsonpath.exceptions import JSONPointerError


class Bytes:
    """The contents of a file, as bytes."""

    def __init__(self, text, broken):
        self.text = text
        self.broken = broken

    def as_json_text(self):
        if self.broken:
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        return self.text

    def decode(self, encoding="utf-8", errors="strict"):
        if self.broken and errors == "strict":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        return self.text


class Stream(IOBase):
    def __init__(self, text="", broken=False, binary=False, readable=False, name="stream"):
        self.text = text
        self.broken = broken
        self.binary = binary
        self.can_read = readable
        self.name = name
        self.closed = False

    @property
    def buffer(self):
        return Stream(self.text, self.broken, True, self.can_read, self.name)

    def read(self, size=-1):
        if not self.can_read:
            raise OSError("not readable")
        text = self.text
        self.text = ""
        if self.binary:
            return Bytes(text, self.broken)
        if self.broken:
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        return text

    def readline(self):
        line, sep, rest = self.text.partition("\n")
        self.text = rest
        return line + sep

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, text):
        if self.can_read:
            raise OSError("not writable")
        if self.binary:
            raise TypeError("a bytes-like object is required, not 'str'")
        self.text = self.text + text
        return 1

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        return 1

    def isatty(self):
        return False

    def readable(self):
        return self.can_read

    def writable(self):
        return not self.can_read

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True
        return False


class World:
    pass


WORLD = World()
WORLD.argv = []
WORLD.stdin = Stream("", False, False, True, "<stdin>")
WORLD.stdout = Stream(name="<stdout>")
WORLD.stderr = Stream(name="<stderr>")
WORLD.files = {}


def sys_attr(name):
    return getattr(WORLD, name)


def opened(name, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    binary = "b" in mode
    if "r" in mode:
        if name not in WORLD.files:
            raise FileNotFoundError(2, "No such file or directory")
        f = WORLD.files[name]
        # JSON files may be in any of the encodings json.load() knows, with a byte order
        # mark; expressions are in the encoding that text files are usually in.
        text = f.text
        if f.binary and not binary:
            text = "\ufeff" + text
        return Stream(text, f.broken, binary, True, name)
    if "x" in mode and name in WORLD.files:
        raise FileExistsError(17, "File exists")
    f = Stream(WORLD.files[name].text if "a" in mode and name in WORLD.files else "", False, binary, False, name)
    WORLD.files[name] = f
    return f


def printed(*values, sep=" ", end="\n", file=None, flush=False):
    (WORLD.stdout if file is None else file).write((" " if sep is None else sep).join([str(v) for v in values]) + ("\n" if end is None else end))


# --- a run of the program ------------------------------------------------------------------------


def run(program, argv, stdin, files, out, one_line, layout):
    """How it ended, and what it wrote where."""
    WORLD.argv = argv
    WORLD.stdin = stdin
    WORLD.stdout = Stream(name="<stdout>")
    WORLD.stderr = Stream(name="<stderr>")
    WORLD.files = files
    traceback = False
    status = 0
    try:
        status = program()
    except SystemExit as e:
        status = e.args[0] if e.args else None
        if status is not None and not isinstance(status, int):
            WORLD.stderr.write(str(status) + "\n")
            status = 1
    except Exception:
        traceback = True
        status = 1
    if status is None:
        status = 0
    debug = "--debug" in argv
    err = WORLD.stderr.text
    if status == 0:
        if traceback or err != "":
            return ("wrote to standard error, and exited with status 0",)
        if out is None:
            text = WORLD.stdout.text
        else:
            if WORLD.stdout.text != "":
                return ("wrote to standard output, not to the output file",)
            text = WORLD.files[out].text
        try:
            value = json.loads(text)
        except ValueError:
            return ("wrote what isn't JSON",)
        return ("written" + layout(text, "--pretty" in argv), value)
    if debug and status == 1:
        return ("failed",)
    if traceback:
        return ("failed with a traceback",)
    if status != 1:
        return ("exited with status " + str(status),)
    if WORLD.stdout.text != "":
        return ("failed, and wrote to standard output",)
    if not one_line(err):
        return ("failed with a message that isn't one line",)
    return ("failed",)


# --- what the library does -----------------------------------------------------------------------

REJECTED = (JSONPathError, JSONPointerError, JSONPatchError, ValueError)


def found(query, options, doc):
    try:
        env = jsonpath.JSONPathEnvironment(
            unicode_escape="--no-unicode-escape" not in options,
            well_typed="--no-type-checks" not in options,
        )
        return ("written", env.compile(query).findall(doc))
    except REJECTED:
        return ("failed",)
    except Exception:
        # What escapes from the library isn't for the program to handle.
        return ("unspecified",)


def resolved(pointer, options, doc):
    uri = "-u" in options or "--uri-decode" in options
    try:
        return (
            "written",
            jsonpath.pointer.resolve(pointer, doc, unicode_escape="--no-unicode-escape" not in options, uri_decode=uri),
        )
    except REJECTED:
        return ("failed",)
    except Exception:
        # What escapes from the library isn't for the program to handle.
        return ("unspecified",)


def patched(patch, options, doc):
    uri = "-u" in options or "--uri-decode" in options
    try:
        ops = json.loads(patch.as_json_text())
        if not isinstance(ops, list):
            return ("failed",)
        return (
            "written",
            jsonpath.patch.apply(ops, doc, unicode_escape="--no-unicode-escape" not in options, uri_decode=uri),
        )
    except REJECTED:
        return ("failed",)
    except Exception:
        # What escapes from the library isn't for the program to handle.
        return ("unspecified",)
