"""
Simulated renderer, disk and display for the drawings of cluster graphs.

The `dot` program is replaced by a stub (at subprocess.run / Popen) whose PNG encodes the DOT source that it was given, so
that every image in the system can be traced back to the exact drawing it shows. It fails as told: error exit, not
installed, killed, no output, torn output. Files opened for writing can run out of space after a number of bytes, and
creating a directory can fail. Every step of a rendering is an instant at which another thread can be scheduled.
"""
import builtins
import errno
import hashlib
import io
import os
import subprocess
import threading
import types

from PIL import Image

from .core import HarnessError, Violation

SIDE = 16
POINT = types.SimpleNamespace(co_qualname="studio", co_filename="studio")
FAULTS = ["dot-error", "dot-missing", "dot-killed", "dot-no-output", "dot-torn", "enospc-source", "enospc-dir"]


class Limited:
    """A file on a disk that fills up."""

    def __init__(self, real, room, studio):
        self.real, self.room, self.studio = real, room, studio

    def write(self, data):
        if len(data) > self.room:
            if self.room:
                self.real.write(data[:self.room])
            self.room = 0
            self.studio.fired("enospc")
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        self.room -= len(data)
        return self.real.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.real.close()
        return False

    def __getattr__(self, name):
        return getattr(self.real, name)


class FakePopen:
    """For renderings through pipes."""

    def __init__(self, studio, cmd, kwargs):
        self.args, self.studio, self.kwargs = cmd, studio, kwargs
        self.stdin = io.BytesIO() if not kwargs.get("encoding") else io.StringIO()
        self.returncode = None

    def communicate(self, *_args, **_kw):
        data = self.stdin.getvalue()
        proc = self.studio.dot(self.args, dict(self.kwargs, input=data))
        self.returncode = proc.returncode
        return proc.stdout, proc.stderr


class Studio:
    def __init__(self):
        self.sources = {}         # digest -> DOT source
        self.faults = {}          # thread ident -> [countdown, fault, fired]
        self.files = {}           # path suffix -> room (for GIF files)
        self.shown = {}           # thread ident -> images displayed
        self.hook = None          # called at every step of a rendering
        self.renderings = 0
        self.on_fault = lambda name: None

    # --- installation ---------------------------------------------------------------------------------------------

    def __enter__(self):
        import IPython.core.display
        import IPython.display
        self.saved = [(subprocess, "run", subprocess.run), (subprocess, "Popen", subprocess.Popen), (builtins, "open", builtins.open),
                      (os, "mkdir", os.mkdir)]
        for mod in (IPython.core.display, IPython.display):
            if hasattr(mod, "display"):
                self.saved.append((mod, "display", mod.display))
                mod.display = self.display
        run, popen = subprocess.run, subprocess.Popen
        self.open_, self.mkdir_ = builtins.open, os.mkdir

        def is_dot(cmd):
            return not isinstance(cmd, (str, bytes)) and os.path.basename(os.fspath(cmd[0])) == "dot"

        subprocess.run = lambda cmd, *a, **k: self.dot(cmd, k) if is_dot(cmd) else run(cmd, *a, **k)
        subprocess.Popen = lambda cmd, *a, **k: FakePopen(self, cmd, k) if is_dot(cmd) else popen(cmd, *a, **k)
        builtins.open = self.open
        os.mkdir = self.mkdir
        return self

    def __exit__(self, *exc):
        for mod, name, value in self.saved:
            setattr(mod, name, value)
        return False

    # --- faults ----------------------------------------------------------------------------------------------------

    def arm(self, countdown, fault):
        """The countdown-th rendering of this thread from now meets the fault."""
        self.faults[threading.get_ident()] = [countdown, fault, False]

    def disarm(self):
        """Whether the fault has happened."""
        f = self.faults.pop(threading.get_ident(), None)
        return bool(f and f[2])

    def fired(self, name):
        f = self.faults.get(threading.get_ident())
        if f:
            f[2] = True
        self.on_fault(name)

    def due(self, *names):
        f = self.faults.get(threading.get_ident())
        if f and not f[2] and f[0] <= 0 and f[1] in names:
            return f[1]
        return None

    def point(self, kind):
        if self.hook:
            self.hook(POINT, kind)

    # --- the disk ----------------------------------------------------------------------------------------------------

    def open(self, file, mode="r", *args, **kwargs):
        real = self.open_(file, mode, *args, **kwargs)
        if isinstance(mode, str) and set(mode) & set("wxa") and isinstance(file, (str, bytes, os.PathLike)):
            name = os.fsdecode(file)
            if name.endswith(".gv") or name.endswith(".dot"):
                self.point("source opened")
                if self.due("enospc-source"):
                    return Limited(real, 20, self)
            for suffix, room in self.files.items():
                if name.endswith(suffix):
                    return Limited(real, room, self)
        return real

    def mkdir(self, path, *args, **kwargs):
        if self.due("enospc-dir"):
            self.fired("enospc-dir")
            raise OSError(errno.ENOSPC, "No space left on device (injected)", os.fspath(path))
        return self.mkdir_(path, *args, **kwargs)

    def display(self, *objs, **_kw):
        for o in objs:
            data = getattr(o, "data", None)
            if isinstance(data, bytes):
                self.shown.setdefault(threading.get_ident(), []).append(Image.open(io.BytesIO(data)).copy())

    # --- the renderer --------------------------------------------------------------------------------------------------

    def dot(self, cmd, kwargs):
        cmd = [os.fspath(c) for c in cmd]
        self.renderings += 1
        self.point("dot started")
        fault = self.due("dot-error", "dot-missing", "dot-killed", "dot-no-output", "dot-torn")
        f = self.faults.get(threading.get_ident())
        if f:
            f[0] -= 1
        if fault:
            self.fired(fault)
        if fault == "dot-missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory (injected)", cmd[0])
        if fault in ("dot-error", "dot-killed"):
            return subprocess.CompletedProcess(cmd, 1 if fault == "dot-error" else -9, b"", b"injected")
        cwd = os.fspath(kwargs.get("cwd") or ".")
        text = kwargs.get("input")
        path = None
        if text is None:
            path = os.path.join(cwd, cmd[-1])
            with self.open_(path, "rb") as src:
                text = src.read()
        if isinstance(text, str):
            text = text.encode()
        self.point("source read")
        out = io.BytesIO()
        self.encode(text.decode()).save(out, format="PNG")
        data = out.getvalue()
        if fault == "dot-torn":
            data = data[:len(data) // 2]
        if fault == "dot-no-output":
            return subprocess.CompletedProcess(cmd, 0, b"", b"")
        if "-o" in cmd:
            target = os.path.join(cwd, cmd[cmd.index("-o") + 1])
        elif "-O" in cmd:
            target = path + ".png"
        else:
            return subprocess.CompletedProcess(cmd, 0, data, b"")
        with self.open_(target, "wb") as dst:
            dst.write(data)
        self.point("dot finished")
        return subprocess.CompletedProcess(cmd, 0, b"", b"")

    def encode(self, text):
        digest = hashlib.sha256(text.encode()).digest()
        self.sources[digest] = text
        im = Image.new("RGB", (SIDE, SIDE))
        im.putdata([(255, 255, 255) if digest[i // 8] >> (i % 8) & 1 else (0, 0, 0) for i in range(SIDE * SIDE)])
        return im

    def source(self, image):
        """The DOT source that an image shows."""
        if image.size != (SIDE, SIDE):
            raise Violation("strange-image", f"image of size {image.size}")
        bits = [1 if p > 127 else 0 for p in image.convert("RGB").convert("L").getdata()]
        digest = bytes(sum(bits[8 * k + b] << b for b in range(8)) for k in range(32))
        if digest not in self.sources:
            raise Violation("strange-image", "an image that the renderer never made")
        return self.sources[digest]


# --- DOT -------------------------------------------------------------------------------------------------------------------

def tokens(line):
    """IDs and punctuation of a line of DOT."""
    i, out = 0, []
    while i < len(line):
        c = line[i]
        if c.isspace() or c in ";,":
            i += 1
        elif c == '"':
            j, text = i + 1, ""
            while j < len(line) and line[j] != '"':
                if line[j] == "\\" and j + 1 < len(line) and line[j + 1] == '"':
                    j += 1
                text += line[j]
                j += 1
            if j >= len(line):
                raise ValueError("unterminated string")
            out.append(("id", text))
            i = j + 1
        elif line.startswith("--", i):
            out.append(("op", "--"))
            i += 2
        elif c in "[]={}:":
            out.append(("op", c))
            i += 1
        else:
            j = i
            while j < len(line) and not line[j].isspace() and line[j] not in '[]={}:;,"' and not line.startswith("--", j):
                j += 1
            out.append(("id", line[i:j]))
            i = j
    return out


def parse(source):
    """(nodes: name -> attributes, edges: list of (a, b, attributes)) of a drawing."""
    nodes, edges = {}, []
    try:
        toks = tokens(source)
        at = [k for k, t in enumerate(toks) if t == ("op", "{")][0] + 1
        while toks[at] != ("op", "}"):
            kind, name = toks[at]
            assert kind == "id"
            at += 1
            other = None
            if toks[at] == ("op", "--"):
                other = toks[at + 1][1]
                assert toks[at + 1][0] == "id"
                at += 2
            attrs = {}
            if toks[at] == ("op", "["):
                at += 1
                while toks[at] != ("op", "]"):
                    assert toks[at][0] == "id" and toks[at + 1] == ("op", "=") and toks[at + 2][0] == "id"
                    attrs[toks[at][1]] = toks[at + 2][1]
                    at += 3
                at += 1
            if other is None:
                nodes.setdefault(name, {}).update(attrs)
            else:
                edges.append((name, other, attrs))
        return nodes, edges
    except (IndexError, AssertionError, ValueError) as e:
        raise Violation("broken-drawing", f"not a drawing: {source[:600]}") from e


class Drawing:
    """Colours and structure of a drawing of a cluster graph."""

    def __init__(self, source, clusters):
        nodes, edges = parse(source)
        self.fill = {n: nodes.get(n, {}).get("fillcolor") for n in clusters}
        self.border = {n: nodes.get(n, {}).get("color") for n in clusters}
        missing = [n for n in clusters if n not in nodes]
        if missing:
            raise Violation("wrong-drawing", f"clusters {missing} are not drawn")
        around, colours = {}, {}
        for a, b, attrs in edges:
            if a in clusters and b in clusters:
                raise Violation("wrong-drawing", f"clusters {a} and {b} are joined directly")
            c, s = (a, b) if a in clusters else (b, a)
            around.setdefault(s, []).append(c)
            colours.setdefault(s, []).append(attrs.get("color"))
        self.edge = {}
        for s, cs in around.items():
            if len(cs) != 2 or cs[0] == cs[1]:
                raise Violation("wrong-drawing", f"separator {s} is joined to {cs}")
            self.edge[frozenset(cs)] = tuple(sorted(map(str, colours[s])))
        plain = {n: {k: v for k, v in at.items() if k != "fillcolor"} for n, at in nodes.items()}
        self.rest = (plain, sorted((a, b, sorted((k, v) for k, v in at.items() if k != "color")) for a, b, at in edges))
        self.labels = {frozenset(around[s]): nodes.get(s, {}).get("label") for s in around}


def lit(drawing, neutral):
    """What is highlighted with respect to the neutral drawing: set of cluster names and pairs of them."""
    if drawing.rest != neutral.rest or set(drawing.edge) != set(neutral.edge):
        raise Violation("wrong-drawing", f"not the drawing of this graph (or more than colours changed): {drawing.rest}, neutral {neutral.rest}")
    out = {n for n in neutral.fill if drawing.fill[n] != neutral.fill[n]}
    for e, col in neutral.edge.items():
        if drawing.edge[e] != col:
            if len(set(drawing.edge[e])) != 1 or set(drawing.edge[e]) & set(col):
                raise Violation("wrong-drawing", f"edge between {sorted(e)} is only partly highlighted")
            out.add(e)
    return out
