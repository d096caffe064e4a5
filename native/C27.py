"""Bounded contracts for C27 (ansatz caching and parameter ordering)."""
import itertools, re
import numpy as np, sympy
from overrides import overrides
from native_lib import clause
from zquantum.core.circuits import RX, RY, RZ, Circuit
from zquantum.core.circuits.symbolic import natural_key, natural_key_fixed_names_order, natural_key_revlex
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import DynamicProperty, ansatz_property, invalidates_parametrized_circuit
from zquantum.core.interfaces.mock_objects import MockAnsatz


class Demo(Ansatz):
    supports_parametrized_circuits = True
    size = ansatz_property("size")
    axis = ansatz_property("axis", default_value="X")
    free = DynamicProperty("free", default_value=5)      # does not define the circuit

    def __init__(self, layers, size):
        super().__init__(layers)
        self.size = size
        self._shift = 0
        self.builds = 0

    @property
    def number_of_qubits(self):
        return self.size

    @property
    def shift(self):
        return self._shift

    @invalidates_parametrized_circuit
    @shift.setter
    def shift(self, v):
        self._shift = v

    @invalidates_parametrized_circuit
    def bump(self, by, *, twice=False):
        """doc"""
        self._shift += by * (2 if twice else 1)
        return ("bumped", self._shift)

    def names(self):
        return [f"theta_{i}" for i in range(self.number_of_layers)] + [f"beta_{i}" for i in range(self.number_of_layers)]

    @overrides
    def _generate_circuit(self, params=None):
        self.builds += 1
        return build(self.number_of_layers, self.size, self.axis, self._shift)


class Numeric(Ansatz):
    supports_parametrized_circuits = False

    @property
    def number_of_qubits(self):
        return 1

    @overrides
    def _generate_circuit(self, params=None):
        return Circuit([RX(float(x))(0) for x in params], n_qubits=1)


class Chosen(Ansatz):
    """a setting that is a mutable object"""
    supports_parametrized_circuits = True
    qubits = ansatz_property("qubits", default_value=None)

    @property
    def number_of_qubits(self):
        return max(self.qubits or [0]) + 1

    @overrides
    def _generate_circuit(self, params=None):
        return Circuit([RX(sympy.Symbol(f"theta_{i}_{j}"))(q) for i in range(self.number_of_layers) for j, q in enumerate(self.qubits or [])], n_qubits=self.number_of_qubits)


def build(layers, size, axis, shift):
    g = {"X": RX, "Y": RY, "Z": RZ}[axis]
    ops = []
    for i in range(layers):
        for q in range(size):
            ops.append(g(sympy.Symbol(f"theta_{i}"))(q))
            ops.append(RZ(sympy.Symbol(f"beta_{i}") + shift)(q))
    return Circuit(ops, n_qubits=size)


@clause("the circuit follows the settings", budget=40)
def _(t):
    for _ in range(t.n(30)):
        mine = [t.rng.randint(0, 3) for _ in range(t.rng.randint(0, 3))]
        script = [(t.rng.choice(["append", "new", "same", "equal", "layers", "default"]), t.rng.randint(0, 3)) for _ in range(t.rng.randint(1, 8))]
        with t.case(f"list-valued setting: start {mine} {script}"):
            x = Chosen(1)
            x.qubits = mine
            layers = 1
            for kind, k in script:
                x.parametrized_circuit
                if kind == "append":
                    mine.append(k)
                    x.qubits = mine
                elif kind == "new":
                    mine = [k]
                    x.qubits = mine
                elif kind == "same":
                    x.qubits = x.qubits
                elif kind == "equal":
                    mine = list(mine)
                    x.qubits = mine
                elif kind == "layers":
                    x.number_of_layers = layers = k
                else:
                    y = Chosen(k)
                    t.eq(y.parametrized_circuit, Circuit(n_qubits=1), "another ansatz keeps its default")
                want = Circuit([RX(sympy.Symbol(f"theta_{i}_{j}"))(q) for i in range(layers) for j, q in enumerate(mine)], n_qubits=max(mine or [0]) + 1)
                t.eq(x.parametrized_circuit, want, f"circuit after {kind} {k}")
                t.eq(x.number_of_params, layers * len(mine), "number of parameters")
    for _ in range(t.n(200)):
        a = [t.rng.randint(0, 3), t.rng.randint(1, 3)]
        script = [(t.rng.choice(["layers", "size", "axis", "shift", "bump", "free", "read", "read", "count", "exec"]), t.rng.randint(0, 3), t.rng.choice("XYZ")) for _ in range(t.rng.randint(1, 14))]
        with t.case(f"start {a} {script}"):
            x = Demo(*a)
            st = dict(layers=a[0], size=a[1], axis="X", shift=0)
            dirty = True
            def read(f):
                nonlocal dirty
                before = x.builds
                r = f()
                if not dirty:
                    t.eq(x.builds, before, "not rebuilt without a change of settings")
                dirty = False
                return r
            for kind, k, ax in script + [("read", 0, "X")]:
                want = build(**st)
                if kind == "layers":
                    x.number_of_layers = st["layers"] = k
                    t.eq(x.number_of_layers, k, "setting reads back")
                elif kind == "size":
                    x.size = st["size"] = k + 1
                    t.eq(x.number_of_qubits, k + 1, "setting reads back")
                elif kind == "axis":
                    x.axis = st["axis"] = ax
                    t.eq(x.axis, ax, "setting reads back")
                elif kind == "shift":
                    x.shift = st["shift"] = k
                    t.eq(x.shift, k, "setting reads back")
                elif kind == "bump":
                    st["shift"] += 2 * k
                    t.eq(x.bump(k, twice=True), ("bumped", st["shift"]), "return value passed through")
                elif kind == "free":
                    x.free = k
                    t.eq(x.free, k, "setting reads back")
                elif kind == "read":
                    c = read(lambda: x.parametrized_circuit)
                    t.ok(c == want and c.n_qubits == st["size"], f"circuit of the current settings: {c} for {want}")
                elif kind == "count":
                    t.eq(read(lambda: x.number_of_params), 2 * st["layers"] if st["layers"] else 0, "number of parameters")
                elif kind == "exec":
                    names = [f"{s}_{i}" for i in range(st["layers"]) for s in ("beta", "theta")]
                    p = t.np_rng.randn(len(names))
                    keep = p.copy()
                    c = read(lambda: x.get_executable_circuit(p))
                    t.ok(c == want.bind({sympy.Symbol(s): float(v) for s, v in zip(names, keep)}), "i-th parameter for the i-th symbol")
                    t.ok(np.array_equal(p, keep), "parameters unchanged")
                if kind in ("layers", "size", "axis", "shift", "bump"):
                    dirty = True
    with t.case("two ansatzes do not influence each other"):
        a, b = Demo(1, 2), Demo(2, 1)
        ca, cb = a.parametrized_circuit, b.parametrized_circuit
        a.number_of_layers = 3
        t.ok(b.parametrized_circuit is cb or b.parametrized_circuit == cb, "other ansatz unchanged")
        t.eq(b.builds, 1, "other ansatz not rebuilt")
        t.ok(a.parametrized_circuit == build(3, 2, "X", 0), "own circuit")
        t.eq((b.number_of_layers, b.size, b.axis, a.axis), (2, 1, "X", "X"), "settings are per object")


@clause("parameters in the documented order", budget=40)
def _(t):
    for layers in (0, 1, 2, 9, 11, 13):
        for size in (1, 2):
            p = t.np_rng.randn(layers)
            with t.case(f"mock ansatz {layers} layers {size} qubits {p.tolist()}", trivial=not layers):
                a = MockAnsatz(layers, size)
                t.eq(a.number_of_params, layers if size else 0, "number of parameters")
                want = Circuit([RX(float(p[i]))(q) for i in range(layers) for q in range(size)])
                t.ok(a.get_executable_circuit(p) == want, "theta_i bound to the i-th parameter")
                t.eq(a.number_of_qubits, size, "qubits")
                for bad in (np.append(p, 1.0),) + ((p[:-1],) if layers else ()):
                    t.raises(ValueError, lambda: a.get_executable_circuit(bad), "wrong number of parameters")
                t.raises(Exception, lambda: a.get_executable_circuit(None), "missing parameters")
    for n in (-1, -5):
        with t.case(f"{n} layers"):
            t.raises(ValueError, lambda: MockAnsatz(n, 2), "negative number of layers")
            t.raises(ValueError, lambda: Demo(n, 2), "negative number of layers")
    for k in range(4):
        p = t.np_rng.randn(k)
        with t.case(f"no parametrized circuit {p.tolist()}"):
            a = Numeric(1)
            t.ok(a.get_executable_circuit(p) == Circuit([RX(float(v))(0) for v in p], n_qubits=1), "executable circuit")
            t.raises(NotImplementedError, lambda: a.parametrized_circuit, "unsupported")
            t.raises(NotImplementedError, lambda: a.number_of_params, "unsupported")
            t.raises(Exception, lambda: a.get_executable_circuit(None), "missing parameters")


@clause("symbol orderings", budget=20)
def _(t):
    for _ in range(t.n(200)):
        names = list({t.rng.choice(["beta", "theta", "gamma"]) + "_" + str(t.rng.choice([0, 1, 2, 9, 10, 11, 100])) for _ in range(t.rng.randint(1, 9))})
        t.rng.shuffle(names)
        order = t.rng.sample(["beta", "theta", "gamma"], 3)
        syms = [sympy.Symbol(s) for s in names]
        with t.case(f"{names} {order}", trivial=len(names) < 2):
            sp = lambda s: (s.split("_")[0], int(s.split("_")[1]))
            t.eq([s.name for s in sorted(syms, key=natural_key)], sorted(names, key=sp), "natural order")
            t.eq([s.name for s in sorted(syms, key=natural_key_revlex)], sorted(names, key=lambda s: sp(s)[::-1]), "index first")
            t.eq([s.name for s in sorted(syms, key=natural_key_fixed_names_order(order))], sorted(names, key=lambda s: (sp(s)[1], order.index(sp(s)[0]))), "index first, names in the given order")
