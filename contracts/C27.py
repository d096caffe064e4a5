"""C27: the cached circuit follows the settings.  One operation from an arbitrary state in which the cache is
empty or holds the circuit of the current settings (the invariant); by induction every history of changes and reads."""
from pyvc.contract import Property
from .spec import *

P = Property("C27", trusted=["_generate_circuit of an ansatz depends on its circuit-defining settings and arguments only",
                             "sorted is a stable sort by the key (library contract)"])
AM = C + "interfaces.ansatz:"
UM = C + "interfaces.ansatz_utils:"
GEN = z3.Function("generated", z3.IntSort(), U)
GENP = z3.Function("generated_with", z3.IntSort(), U, U)
FS = z3.Function("free_symbols_of", U, U)
BIND = z3.Function("bound", U, U, U)
NSYM = z3.Function("n_symbols", U, z3.IntSort())
SYMAT = z3.Function("symbol", U, z3.IntSort(), U)


def syms(it, s):
    i = z3.Int(it.fresh_name("si"))
    return Seq([Comp(NSYM(s.term), i, [(True, (Unit(SU(SYMAT(s.term, i), OPAQUE)),))])])


CIRC = Iface("circuit", attrs={"free_symbols": syms}, methods={"bind": lambda it, s, a, k: SU(BIND(s.term, it.embed(a[0])), CIRC)})


def ansatz(v, supports=True, cached=None):
    """an ansatz with L layers; cache empty or holding the circuit of the current settings"""
    L = v.int("layers", 0)
    built = []

    def gen(it, a, k):
        p = dict(zip(["self", "params"], a), **k).get("params")
        built.append(1)
        n = it.getattr(a[0], "number_of_layers")
        n = n if is_z3(n) else z3.IntVal(n)
        return SU(GEN(n) if p is None else GENP(n, it.embed(p)), CIRC)
    v.contract(AM + "Ansatz._generate_circuit", gen)
    o = v.it.new_obj(v.fn(AM + "Ansatz"), {"supports_parametrized_circuits": supports})
    v.call(v.fn(AM + "Ansatz").lookup("__init__")[0], o, L)
    if cached is None:
        cached = v.it.decide(v.bool("cached"))
    if cached:
        v.attr(o, "parametrized_circuit")
    del built[:]
    return o, L, built, cached


@P.obligation("reading gives the circuit of the current settings; it is built only when there is none", targets=[AM + "Ansatz.parametrized_circuit"])
def _(v):
    o, L, built, cached = ansatz(v)
    r = v.attr(o, "parametrized_circuit")
    v.prove(v.it.embed(r) == GEN(L), "circuit of the current settings")
    v.prove(len(built) == (0 if cached else 1), "built once, and not again")
    v.prove(v.it.embed(v.attr(o, "parametrized_circuit")) == GEN(L), "circuit on the second reading")
    v.prove(len(built) == (0 if cached else 1), "not built again")


@P.obligation("after any change of a setting the circuit of the new settings is read", targets=[UM + "_InvalidatingSetter.__set__", UM + "_InvalidatingSetter.__get__", UM + "DynamicProperty.__set__", UM + "DynamicProperty.__get__", UM + "ansatz_property"])
def _(v):
    o, L, built, cached = ansatz(v)
    M = v.int("new_layers", 0)
    v.it.setattr(o, "number_of_layers", M)
    v.prove(v.attr(o, "number_of_layers") == M, "the new value is read back")
    v.prove(v.it.embed(v.attr(o, "parametrized_circuit")) == GEN(M), "circuit of the new settings")
    v.prove(len(built) == 1, "built once")
    K = v.int("newer_layers", 0)
    v.it.setattr(o, "number_of_layers", K)
    v.prove(v.it.embed(v.attr(o, "parametrized_circuit")) == GEN(K), "circuit of the newest settings")


@P.obligation("a property read before being set has its default, whatever it is", targets=[UM + "DynamicProperty.__get__"])
def _(v):
    d, w = v.opaque("default"), v.opaque("value")
    prop = v.call(UM + "ansatz_property", "size", d)
    o, L, built, cached = ansatz(v)
    got = v.call(v.attr(prop, "__get__"), o, None)
    v.prove(v.it.embed(got) == d.term, "default")
    v.call(v.attr(prop, "__set__"), o, w)
    v.prove(v.it.embed(v.call(v.attr(prop, "__get__"), o, None)) == w.term, "value after setting")
    v.prove(v.attr(o, "_parametrized_circuit") is None, "the cached circuit is dropped")
    v.prove(v.attr(o, "number_of_layers") == L, "other settings untouched")


@P.obligation("a method marked as changing the circuit returns its result and drops the cached circuit afterwards", targets=[UM + "invalidates_parametrized_circuit"])
def _(v):
    o, L, built, cached = ansatz(v)
    seen = []

    def body(it, s, a, k):
        seen.append((list(a), dict(k)))
        it.getattr(a[0], "parametrized_circuit")        # reads the circuit of the old settings while changing them
        return SU(z3.Function("result", U, U)(it.embed(a[1])), OPAQUE)
    f = v.opaque("method", Iface("method", call=body))
    x, y = v.opaque("x"), v.opaque("y")
    w = v.call(UM + "invalidates_parametrized_circuit", f)
    r = v.call(w, o, x, key=y)
    v.prove(v.it.embed(r) == z3.Function("result", U, U)(x.term), "result of the method")
    v.prove(len(seen) == 1 and len(seen[0][0]) == 2 and list(seen[0][1]) == ["key"], "called once with all arguments")
    v.prove(v.it.embed(seen[0][1]["key"]) == y.term, "keyword argument")
    v.prove(v.attr(o, "_parametrized_circuit") is None, "the cached circuit is dropped")


@P.obligation("the executable circuit binds the i-th parameter to the i-th symbol in the ansatz's order", targets=[AM + "Ansatz.get_executable_circuit"])
def _(v):
    o, L, built, cached = ansatz(v)
    ps = v.opaque("params")
    SMAP = z3.Function("symbols_map", U, U, U)
    SORTED = z3.Function("sorted_by", U, U, U)
    seen = {}

    def smap(it, a, k):
        d = dict(zip(["symbols", "params"], a), **k)
        seen["symbols"] = d["symbols"]
        return SU(SMAP(it.embed(d["symbols"]), it.embed(d["params"])), OPAQUE)
    v.contract(C + "utils:create_symbols_map", smap)
    key = v.opaque("key")
    v.contract(AM + "Ansatz.symbols_sort_key", lambda it, a, k: key)

    def srt(it, a, k):
        if set(k) != {"key"} or it.embed(k["key"]) is not key.term and not it.valid(it.embed(k["key"]) == key.term):
            raise Unsupported("sorted in another way")
        return SU(SORTED(it.embed(it.as_seq(a[0])), key.term), OPAQUE)
    v.it.builtins["sorted"] = Builtin("sorted", srt) if hasattr(v.it, "builtins") else None
    r = v.method(o, "get_executable_circuit", ps)
    want = SORTED(v.it.embed(syms(v.it, SU(GEN(L), CIRC))), key.term)
    v.prove(v.it.embed(r) == BIND(GEN(L), SMAP(want, ps.term)), "the parametrized circuit bound to the sorted symbols")


@P.obligation("parameters are required", targets=[AM + "Ansatz.get_executable_circuit"])
def _(v):
    o, L, built, cached = ansatz(v)
    v.raises(Exception, lambda: v.method(o, "get_executable_circuit", None), "no parameters")
    o, L, built, cached = ansatz(v, supports=False, cached=False)
    v.raises(Exception, lambda: v.method(o, "get_executable_circuit", None), "no parameters, numeric ansatz")
    v.raises(NotImplementedError, lambda: v.attr(o, "parametrized_circuit"), "no parametrized circuit")
    p = v.opaque("params")
    v.prove(v.it.embed(v.method(o, "get_executable_circuit", p)) == GENP(L, p.term), "circuit generated for the parameters")


@P.obligation("the number of parameters is the number of free symbols", targets=[AM + "Ansatz.number_of_params"])
def _(v):
    o, L, built, cached = ansatz(v)
    v.prove(v.attr(o, "number_of_params") == NSYM(GEN(L)), "number of parameters")


@P.obligation("a negative number of layers is rejected", targets=[AM + "Ansatz.__init__"])
def _(v):
    n = v.int("n", None, -1)
    o = v.it.new_obj(v.fn(AM + "Ansatz"), {})
    v.raises(ValueError, lambda: v.call(v.fn(AM + "Ansatz").lookup("__init__")[0], o, n), "negative")
