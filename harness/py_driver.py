"""Runs the Python part of the package (dcgpy/_encode.py, _simplify.py, _visualize.py of the working tree) over the real
C++ classes (pylib.cpp through ctypes) and records what it answers. The extension module and the drawing libraries are
replaced: the former by thin classes with its interface, the latter by recorders of what is drawn.

usage: py_driver.py LIB REPO MODE SEED N [file]      (VP_TRACE: the trace)"""
import ctypes as C
import importlib.util
import json
import os
import random
import signal
import struct
import sys
import types

LIB, REPO, MODE, SEED, N = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
lib = C.CDLL(LIB)
for f in ("vp_kernels", "vp_new", "vp_see", "vp_set", "vp_weights", "vp_text"):
    getattr(lib, f).restype = C.c_char_p
lib.vp_handle.restype = C.c_void_p
lib.vp_weight.restype = C.c_double
R = random.Random(SEED * 7919 + 13)
ERR = {"ValueError": ValueError, "RuntimeError": RuntimeError}


def ok(b):
    s = b.decode()
    if s.startswith("!"):
        kind, _, msg = s[1:].partition(" ")
        raise ERR[kind](msg)
    return s


def dbl(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def num(d):
    return list(struct.unpack(">ii", struct.pack(">d", float(d))))


def U(v):
    v = [int(x) for x in v]
    if any(x < 0 for x in v):
        raise TypeError("incompatible function arguments")
    return (C.c_uint * max(1, len(v)))(*v), len(v)


def D(v):
    v = [float(x) for x in v]
    return (C.c_double * max(1, len(v)))(*v), len(v)


class kernel:
    def __init__(self, name):
        self.name = name

    def get_name(self):
        return self.name

    def __repr__(self):
        return self.name


class kernel_set_double:
    """kernel_set(["sum", ...])() is the list of kernels"""

    def __init__(self, kernels=()):
        self.k = []
        for x in kernels:
            self.push_back(x)

    def push_back(self, x):
        if not isinstance(x, (str, kernel)):
            raise TypeError("incompatible function arguments")
        name = x if isinstance(x, str) else x.name
        ok(lib.vp_kernels(name.encode()))
        self.k.append(kernel(name))

    def __call__(self):
        return list(self.k)

    def __getitem__(self, i):
        return self.k[i]

    def __repr__(self):
        return "[" + ", ".join(x.name for x in self.k) + "]"


class _expression:
    kind = "plain"
    int_arity = True

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity=2, kernels=(), n_eph=0, seed=None):
        self._h = None
        if isinstance(arity, int):
            if not self.int_arity:
                raise TypeError("incompatible constructor arguments")
            arity = [arity] * int(cols)
        for v in (inputs, outputs, rows, cols, levels_back):
            if not isinstance(v, int) or isinstance(v, bool) or v < 0:
                raise TypeError("incompatible constructor arguments")
        av, na = U(arity)
        names = "\n".join(k.name for k in kernels)
        ok(lib.vp_new(self.kind.encode(), inputs, outputs, rows, cols, levels_back, av, na, names.encode(), n_eph,
                      R.getrandbits(31) if seed is None else seed))
        self._h = C.c_void_p(lib.vp_handle())

    def __del__(self):
        if getattr(self, "_h", None):
            lib.vp_free(self._h)

    def _see(self, pool=None, text=False):
        """the observation of the drivers (JSON), at a point"""
        p, n = D(pool if pool is not None else [0.5] * 64)
        return json.loads(ok(lib.vp_see(self._h, p, n, 1 if text else 0)))

    def get(self): return self._see()["x"]
    def get_lb(self): return self._see()["g"]["lb"]
    def get_ub(self): return self._see()["g"]["ub"]
    def get_active_genes(self): return self._see()["ag"]
    def get_active_nodes(self): return self._see()["an"]
    def get_n(self): return self._see()["g"]["n"]
    def get_m(self): return self._see()["g"]["m"]
    def get_rows(self): return self._see()["g"]["r"]
    def get_cols(self): return self._see()["g"]["c"]
    def get_levels_back(self): return self._see()["g"]["l"]
    def get_gene_idx(self): return self._see()["g"]["gi"]
    def get_f(self): return [kernel(x) for x in self._see()["g"]["f"]]

    def get_arity(self, node_id=None):
        g = self._see()["g"]
        if node_id is None:
            return g["ar"]
        if node_id < g["n"] or node_id >= g["n"] + g["r"] * g["c"]:
            raise ValueError("node id")
        return g["ar"][(node_id - g["n"]) // g["r"]]

    def set(self, chromosome):
        v, n = U(chromosome)
        ok(lib.vp_set(self._h, v, n))

    def set_f_gene(self, node_id, f_id):
        x = self.get()
        x[self.get_gene_idx()[node_id]] = f_id
        self.set(x)

    def __call__(self, point):
        if all(isinstance(x, str) for x in point):
            r = ok(lib.vp_text(self._h, "\n".join(point).encode()))
            return r.split("\n")[:-1]
        if len(point) != self.get_n() - len(self._see()["ev"]):
            raise ValueError("Input size")
        return [dbl(v) for v in self._see(point)["o"]]

    @property
    def eph_val(self): return [dbl(v) for v in self._see()["ev"]]

    @property
    def eph_symb(self): return self._see()["es"]


class expression_double(_expression):
    pass


class _weighted(_expression):
    def get_weights(self): return [dbl(v) for v in self._see()["w"]]

    def get_weight(self, node_id, input_id): return lib.vp_weight(self._h, node_id, input_id)

    def set_weights(self, weights):
        w, n = D(weights)
        b, z = D([])
        ok(lib.vp_weights(self._h, w, n, b, z))


class expression_weighted_double(_weighted, expression_double):
    kind = "w"

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity=2, kernels=(), seed=None):
        _expression.__init__(self, inputs, outputs, rows, cols, levels_back, arity, kernels, 0, seed)


class expression_ann(_weighted, expression_double):
    kind = "ann"
    int_arity = False

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity, kernels, seed=None):
        _expression.__init__(self, inputs, outputs, rows, cols, levels_back, arity, kernels, 0, seed)

    def get_biases(self): return [dbl(v) for v in self._see()["b"]]

    def set_biases(self, biases):
        w, z = D([])
        b, n = D(biases)
        ok(lib.vp_weights(self._h, w, z, b, n))


# ---- recorders of drawings ------------------------------------------------------------------------------------------
class Digraph:
    """what graphviz.Digraph keeps: statements; later attributes of a node override earlier ones"""

    def __init__(self, *a, **k):
        self.nodes, self.edges, self.graph_attr = {}, [], k.get("graph_attr", {})

    def attr(self, *a, **k):
        pass

    def node(self, name, label=None, _attributes=None, **a):
        d = self.nodes.setdefault(str(name), {})
        if label is not None:
            d["label"] = label
        d.update(_attributes or {})
        d.update(a)

    def edge(self, tail_name, head_name, label=None, _attributes=None, **a):
        d = dict(_attributes or {}, **a)
        if label is not None:
            d["label"] = label
        for e in (tail_name, head_name):
            self.nodes.setdefault(str(e), {})
        self.edges.append([str(tail_name), str(head_name), d])

    def edges_(self, l):
        for a, b in l:
            self.edge(a, b)

    def subgraph(self, graph=None, **k):
        if graph is None:
            import contextlib

            @contextlib.contextmanager
            def cm():
                g = Digraph(**k)
                yield g
                self.subgraph(g)
            return cm()
        for n, d in graph.nodes.items():
            self.nodes.setdefault(n, {}).update(d)
        self.edges += graph.edges


class Axes:
    def __init__(self):
        self.lines, self.circles = [], []

    def plot(self, xs, ys, *a, **k):
        xs, ys = list(xs), list(ys)
        for i in range(len(xs) - 1):
            self.lines.append((xs[i], ys[i], xs[i + 1], ys[i + 1], k.get("alpha", 1.)))

    def add_artist(self, c): self.circles.append(c)
    def add_patch(self, c): self.circles.append(c)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Circle:
    def __init__(self, xy, radius=5, **k):
        self.xy, self.radius, self.k = tuple(xy), radius, k


def install():
    core = types.ModuleType("dcgpy")
    for c in (kernel_set_double, expression_double, expression_weighted_double, expression_ann):
        setattr(core, c.__name__, c)
    sys.modules["dcgpy"] = core
    sys.modules["dcgpy.core"] = core
    gv = types.ModuleType("graphviz")
    gv.Digraph = Digraph
    sys.modules["graphviz"] = gv
    ad = types.ModuleType("pyaudi")
    ad.core = types.ModuleType("pyaudi.core")
    ad.core.gdual_vdouble = ad.gdual_vdouble = type("gdual_vdouble", (), {})
    ad.core.gdual_double = ad.gdual_double = type("gdual_double", (), {})
    sys.modules["pyaudi"], sys.modules["pyaudi.core"] = ad, ad.core
    mp = types.ModuleType("matplotlib")
    pl = types.ModuleType("matplotlib.pyplot")
    pl.last = None

    def subplots(*a, **k):
        pl.last = Axes()
        return None, pl.last
    pl.subplots, pl.Circle = subplots, Circle
    pl.axis = pl.text = pl.show = pl.figure = lambda *a, **k: None
    pl.gca = lambda: pl.last
    mp.pyplot = pl
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = mp, pl
    mods = {}
    for m in ("_encode", "_simplify", "_visualize"):
        sp = importlib.util.spec_from_file_location("dcgpy." + m, os.path.join(REPO, "dcgpy", m + ".py"))
        mod = importlib.util.module_from_spec(sp)
        sys.modules["dcgpy." + m] = mod
        setattr(core, m, mod)
        sp.loader.exec_module(mod)
        mods[m] = mod
    # as dcgpy/__init__.py attaches them
    expression_double.visualize = mods["_visualize"]._graphviz_visualize
    expression_ann.visualize = mods["_visualize"]._dcgpann_visualize
    expression_double.simplify = mods["_simplify"]._sympy_simplify
    expression_ann.simplify = mods["_simplify"]._ann_simplify
    core.encode_ffnn = mods["_encode"].encode_ffnn
    return core


out = open(os.environ["VP_TRACE"], "w")


def emit(**k):
    out.write(json.dumps(k) + "\n")
    out.flush()


class Slow(BaseException):
    pass


def call(f):
    """(what was raised, the answer)"""
    try:
        return "", f()
    except Slow:
        raise
    except Exception as e:
        return type(e).__name__, None


def pt(n=64):
    return [R.choice([-4, -3, -2, -1, 1, 2, 3, 4, 5, 6]) / 4. for _ in range(n)]


def program(ann=False, kinds=("plain", "w"), fns=None, small=False):
    kind = "ann" if ann else R.choice(kinds)
    n, m, r, c = R.randint(1, 4), R.randint(1, 3), R.randint(1, 3), R.randint(1, 4)
    if small:
        n, m, r, c = R.randint(1, 3), R.randint(1, 3), R.randint(1, 2), R.randint(1, 3)
    ar = [R.randint(1, 3) for _ in range(c)] if ann or R.random() < 0.5 else R.randint(1, 3)
    pool = fns or (["tanh", "sig", "ReLu", "ELU", "ISRU", "sum"] if ann else ["sum", "diff", "mul", "div", "pdiv", "sin", "cos", "log", "exp", "sig", "tanh"])
    al = [ar] * c if isinstance(ar, int) else ar
    if min(al) < 2:
        pool = [f for f in pool if f != "pdiv"]
    fs = R.sample(pool, R.randint(1, min(4, len(pool))))
    cls = {"plain": expression_double, "w": expression_weighted_double, "ann": expression_ann}[kind]
    e = cls(n, m, r, c, R.randint(1, c + 1), al if ann else ar, kernel_set_double(fs)(), seed=R.randint(1, 10**6))
    if kind != "plain":
        e.set_weights([R.choice([-6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6]) / 4. for _ in e.get_weights()])
    if kind == "ann":
        e.set_biases([R.choice([-2, -1, 0, 1, 2]) / 4. for _ in e.get_biases()])
    if R.random() < 0.5:
        lb, ub = e.get_lb(), e.get_ub()
        x = [R.randint(a, b) for a, b in zip(lb, ub)]
        e.set(x)
    return e


def names(n):
    k = R.randint(0, 3)
    if k == 0:
        return ["x%d" % i for i in range(n)]
    if k == 1:
        return R.sample(["x", "y", "z", "t", "u"], n)
    if k == 2:
        return R.sample(["x", "c0", "c1", "alpha", "v1", "w"], n)
    return ["a%d" % (n - i) for i in range(n)]


# ---- the histories --------------------------------------------------------------------------------------------------
def encode(cases):
    from dcgpy import encode_ffnn
    for (n, m, layers, ks, lb) in cases:
        l2, k2 = list(layers), list(ks)
        t, e = call(lambda: encode_ffnn(n, m, l2, k2, lb))
        ev = dict(event="Encode", n=n, m=m, layers=layers, ks=ks, lb=lb, threw=t, kept=(l2 == layers and k2 == ks))
        if e is not None:
            ev["kind"] = getattr(e, "kind", "?")
            ev["res0"] = e._see(pt())
            e.set_weights([R.choice([-4, -3, -2, -1, 1, 2, 3, 4, 5]) / 4. for _ in e.get_weights()])
            e.set_biases([R.choice([-2, -1, 1, 2, 3]) / 4. for _ in e.get_biases()])
            ev["res"] = e._see(pt())
        emit(**ev)


def encode_random(k):
    act = ["tanh", "sig", "ReLu", "ELU", "ISRU", "sum", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"]
    for _ in range(k):
        layers = [R.randint(1, 5) for _ in range(R.randint(0, 4))]
        sub = R.sample(act, R.randint(1, 4))
        ks = [R.choice(sub) for _ in range(len(layers) + 1)]
        n, m, lb = R.randint(1, 5), R.randint(1, 4), R.randint(1, 4)
        bad = R.random()
        if bad < 0.05:
            ks = ks[:-1]
        elif bad < 0.1:
            ks.append(R.choice(act))
        elif bad < 0.15:
            ks[R.randrange(len(ks))] = R.choice(["nosuch", "", "Tanh"])
        elif bad < 0.18:
            ks[R.randrange(len(ks))] = R.choice(["mul", "div", "log"])
        elif bad < 0.21:
            lb = 0
        yield n, m, layers, ks, lb


def simplify(k):
    def alarm(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, alarm)
    for _ in range(k):
        e = program(small=True)
        n = e.get_n()
        syms = names(n)
        sub = e.kind == "w" and R.random() < 0.8
        erc = [R.choice([-3, -2, -1, 1, 2, 3, 5]) / R.choice([1, 2]) for _ in range(R.choice([0, 0, 1, 1, 2, n, n]))]
        z = R.random()
        if z < 0.05:
            syms = syms + ["extra"]
        elif z < 0.1 and n > 1:
            syms = syms[:-1]
        elif z < 0.15:
            erc = erc + [1.] * (n + 1)
        elif len(erc) > n:
            erc = erc[:n]
        before = e._see()
        s2, e2 = list(syms), list(erc)
        signal.alarm(8)
        try:
            t, r = call(lambda: e.simplify(s2, sub, e2))
            txt = [] if r is None else [str(x) for x in r]
        except Slow:
            continue
        finally:
            signal.alarm(0)
        pts = [pt(n) for _ in range(3)]
        emit(event="Simplify", kind=e.kind, prog=e._see(), before=before["x"] == e.get() and before["w"] == e._see()["w"],
             syms=syms, sub=sub, erc=[num(v) for v in erc], threw=t, res=txt, pts=[[num(v) for v in p] for p in pts],
             kept=(s2 == syms and e2 == erc))


def draw(k):
    for _ in range(k):
        e = program()
        n = e.get_n()
        syms = names(n) if R.random() < 0.6 else []
        if R.random() < 0.1:
            syms = syms + ["extra"] if R.random() < 0.5 or n < 2 else syms[:n - 1]
        ina, wt = R.random() < 0.6, R.random() < 0.5
        before = e._see()
        s2 = list(syms)
        t, g = call(lambda: e.visualize(s2, ina, wt))
        ev = dict(event="Draw", prog=e._see(), same=before == e._see(), syms=syms, inactive=ina, weights=wt, threw=t, kept=s2 == syms)
        if g is not None:
            def s(d, k):
                return str(d.get(k, ""))
            ev["nodes"] = [[i, s(d, "label"), s(d, "style")] for i, d in g.nodes.items()]
            ev["edges"] = [[a, b, s(d, "label"), s(d, "style")] for a, b, d in g.edges]
        emit(**ev)


def netdraw(k):
    for _ in range(k):
        e = program(ann=True)
        if R.random() < 0.08:
            e.set_weights([0.] * len(e.get_weights()))
        ina = R.random() < 0.5
        conns = R.random() < 0.85
        nl = R.random() < 0.5
        before = e._see()
        given = Axes() if R.random() < 0.5 else None
        t, ax = call(lambda: e.visualize(show_connections=conns, show_inactive=ina, show_nonlinearities=nl, legend=False, axes=given))
        ev = dict(event="NetDraw", prog=e._see(), same=before == e._see(), inactive=ina, conns=conns, threw=t, given=given is None or ax is given)
        if ax is not None:
            def q(v): return int(round(v * 10000))
            ev["lines"] = [[q(v) for v in l[:4]] for l in ax.lines]
            ev["alphas"] = all(0 <= l[4] <= 1 for l in ax.lines)
            ev["circles"] = [[q(c.xy[0]), q(c.xy[1])] for c in ax.circles]
        emit(**ev)


if __name__ == "__main__":
    install()
    if MODE == "encode":
        encode(json.loads(l) for l in open(sys.argv[6]))
    elif MODE == "encode_random":
        encode(encode_random(N))
    else:
        {"simplify": simplify, "draw": draw, "netdraw": netdraw}[MODE](N)
    out.close()
    os._exit(0)
