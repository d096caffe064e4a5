"""Library contract of files and JSON: what is dumped to a file is what is loaded from it, up to the JSON image of a value
(tuples become lists, integer keys become their decimal strings)."""
import os
import z3
from fractions import Fraction
from .values import *


class Blob:
    """marshalled bytes of plain data"""
    def __init__(self, value):
        self.value = value


class Text:
    """the JSON text of a value; tree: its immutable JSON image"""
    def __init__(self, tree):
        self.tree = tree


def _exc(cls, *a):
    return PyExc(ExcInst(cls, a))


def map_segs(it, s, f):
    out = []
    for g in s.segs:
        if isinstance(g, Unit):
            out.append(Unit(f(g.v)))
        elif isinstance(g, Comp):
            it.index_vars.append(g.idx)
            base = it.nref
            try:
                out.append(Comp(g.n, g.idx, [(c, it.freeze(map_segs(it, Seq(p), f), base).segs) for c, p in g.cases]))
            finally:
                it.index_vars.pop()
        else:
            raise Unsupported("JSON of a partly built sequence")
    return Seq(out)


def key(it, k):
    if isinstance(k, str) or isinstance(k, SU):
        return k
    if isinstance(k, bool) or k is None:
        raise Unsupported("JSON key")
    if isinstance(k, int):
        return str(k)
    if isinstance(k, z3.ArithRef):
        return it.builtins["str"].fn(it, [k], {})
    raise _exc(TypeError, "keys must be str, int, float, bool or None")


def image(it, v, default=None):
    if v is None or isinstance(v, (bool, int, float, Fraction, str, SU, z3.BoolRef, z3.ArithRef)):
        return v
    if isinstance(v, tuple):
        return Frozen("VList", None, Seq.of([image(it, x, default) for x in v]))
    if isinstance(v, Seq):
        return Frozen("VList", None, map_segs(it, v, lambda x: image(it, x, default)))
    if isinstance(v, VList):
        return Frozen("VList", None, map_segs(it, it.heap[v.ref], lambda x: image(it, x, default)))
    if isinstance(v, VDict):
        c = it.heap[v.ref]
        if isinstance(c, tuple):
            return Frozen("dict", None, tuple((key(it, k), image(it, x, default)) for k, x in c))
        return Frozen("dict", None, map_segs(it, c, lambda kv: (key(it, kv[0]), image(it, kv[1], default))))
    if isinstance(v, Frozen):
        return image(it, it.thaw(v), default)
    if default is not None:
        return image(it, default(v), default)
    if isinstance(v, (VArr, SArr, SC, complex, VObj, VSet)):
        raise _exc(TypeError, "Object is not JSON serializable")
    raise Unsupported(f"JSON of {v!r}")


def revive(it, t, hook=None):
    """a fresh value from a JSON image"""
    if isinstance(t, Frozen) and t.kind == "VList":
        if hook is None:
            return it.thaw(t)
        return it.new_list(map_segs(it, t.data, lambda x: revive(it, x, hook)))
    if isinstance(t, Frozen) and t.kind == "dict":
        if hook is None:
            return it.thaw(t)
        if isinstance(t.data, tuple):
            return hook(it.new_dict([(k, revive(it, x, hook)) for k, x in t.data]))
        return hook(VDict(it.alloc(map_segs(it, t.data, lambda kv: (kv[0], revive(it, kv[1], hook))))))
    return t


def install(it, B, m):
    def table():
        return it.heap.get("files", {})

    def fname(x):
        if isinstance(x, str):
            return x
        if isinstance(x, SU):
            return x.term.sexpr()
        raise Unsupported("file name")

    def write(it, s, a, k):
        name, mode = s.iface.file
        if "w" not in mode and "a" not in mode:
            raise _exc(OSError, "not writable")
        t = table()
        if t.get(name) is not None or not isinstance(a[0], Text) or "b" in mode:
            raise Unsupported("file written in pieces")
        it.heap["files"] = {**t, name: a[0]}

    def content(s):
        name, mode = s.iface.file
        t = table().get(name)
        if not isinstance(t, Text) or "b" in mode:
            raise Unsupported("content of an unknown file")
        return t

    def opened(name, mode):
        f = Iface("file", methods={"write": write, "read": lambda it, s, a, k: content(s), "close": lambda it, s, a, k: None,
                                   "writable": lambda it, s, a, k: "w" in mode or "a" in mode,
                                   "__enter__": lambda it, s, a, k: s, "__exit__": lambda it, s, a, k: False})
        f.file = (name, mode)
        return SU(z3.Const(f"file:{name}:{mode}", U), f)

    def open_(it, a, k):
        name = fname(a[0] if a else k["file"])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if "+" in mode:
            raise Unsupported("file mode")
        t = table()
        if "w" in mode:
            it.heap["files"] = {**t, name: None}
        elif "r" in mode and name not in t:
            raise _exc(FileNotFoundError, name)
        return opened(name, mode)
    B["open"] = Builtin("open", open_)

    def default_of(k):
        c = k.get("cls")
        if c is None:
            d = k.get("default")
            return (lambda x: x), (None if d is None else lambda v: it.call(d, [v], {}))
        if not isinstance(c, VClass):
            raise Unsupported("JSON encoder")
        o = it.new_obj(c, {})
        meth, _ = c.lookup("default")
        d = None if meth is None else (lambda v: it.call(meth, [o, v], {}))
        pre, _ = c.lookup("encode")
        if pre is not None:
            raise Unsupported("JSON encoder with its own encode")
        return (lambda x: x), d

    def dumps(it, a, k):
        if k.get("sort_keys"):
            raise Unsupported("sort_keys")
        pre, d = default_of(k)
        return Text(image(it, pre(a[0]), d))

    def hook_of(k):
        h = k.get("object_hook")
        if k.get("cls") is not None:
            raise Unsupported("JSON decoder class")
        return None if h is None else lambda v: it.call(h, [v], {})

    def loads(it, a, k):
        if not isinstance(a[0], Text):
            raise Unsupported("JSON of an unknown text")
        return revive(it, a[0].tree, hook_of(k))
    M = it.models
    M["json.dumps"] = dumps
    M["json.loads"] = loads

    def dump(it, a, k):
        it.call(it.getattr(a[1], "write"), [dumps(it, a[:1], k)], {})
    M["json.dump"] = dump

    def cm(it, a, k):
        f = a[0]

        def call(it, x, y):
            h = it.contracts.get(getattr(f, "qual", None))
            if h is None:
                raise Unsupported("generator-based context manager")
            return h(it, x, y)
        return Builtin("context manager " + getattr(f, "name", ""), call)
    M["contextlib.contextmanager"] = cm
    M["json.load"] = lambda it, a, k: loads(it, [it.call(it.getattr(a[0], "read"), [], {})], k)
    for n in ("dumps", "loads", "dump", "load"):
        M["rapidjson." + n] = M["json." + n]

    def plain(v):
        if v is None or isinstance(v, (bool, int, float, Fraction, str, SU, SC, complex, z3.BoolRef, z3.ArithRef)):
            return
        if isinstance(v, (tuple, Seq, VList, VSet)):
            for x in (it.as_seq(v).concrete() or [it._unsup("marshalling a long sequence")] if it.as_seq(v).concrete() != [] else []):
                plain(x)
        elif isinstance(v, VDict) and isinstance(it.heap[v.ref], tuple):
            for p in it.heap[v.ref]:
                plain(p)
        elif isinstance(v, VObj):
            raise _exc(ValueError, "unmarshallable object")
        else:
            raise Unsupported("marshalling")

    def marshal_dump(it, a, k):
        name, mode = a[1].iface.file
        if "b" not in mode or "r" in mode or table().get(name) is not None:
            raise Unsupported("marshalling into this file")
        plain(a[0])
        it.heap["files"] = {**table(), name: Blob(it.freeze(a[0], 0))}

    def marshal_load(it, a, k):
        name, mode = a[0].iface.file
        t = table().get(name)
        if "b" not in mode or not isinstance(t, Blob):
            raise Unsupported("unmarshalling this file")
        return it.thaw(t.value)
    M["marshal.dump"] = marshal_dump
    M["marshal.load"] = marshal_load
    M["os.path.isfile"] = lambda it, a, k: fname(a[0]) in table()

    def on_path(n):
        def f(it, a, k):
            if k or not all(isinstance(x, str) for x in a):
                raise Unsupported("path of unknown text")
            return getattr(os.path, n)(*a)
        return f
    for n in ("realpath", "abspath", "dirname", "basename", "join", "splitext", "split"):
        M["os.path." + n] = on_path(n)
