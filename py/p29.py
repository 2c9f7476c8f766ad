"""P29: the type stubs and call signatures of the Python package are the truth."""
import ast, inspect, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import common
from common import Fail, Discard
import model as M

PID, FLAVOUR = "P29", "rel"
PLAN = {"quick": (60000, 20), "thorough": (3000000, 300)}
RULE = ("one case: a class, function, property or enumeration drawn from the shipped .pyi stubs; arguments generated from the stub's annotations "
        "in a drawn form; positional, keyword and default-omitting calls must all be accepted, mean the same thing and return what the stub "
        "declares, and arguments of another type must be refused; non-trivial: at least one call with arguments was made and what it produced was compared")


def need(c, msg):
    if not c:
        raise Fail(msg)


# ------------------------------------------------------------------------------------------ the stubs
class Par:
    def __init__(self, name, ann, default, has):
        self.name, self.ann, self.default, self.has = name, ann, default, has
        # pybind11-stubgen's placeholder for an argument without a name
        self.positional = name.startswith("arg") and name[3:].isdigit()


class Sig:
    def __init__(self, f):
        a = f.args.args
        d = [None] * (len(a) - len(f.args.defaults)) + list(f.args.defaults)
        self.name, self.ret = f.name, f.returns
        self.pars = [Par(p.arg, p.annotation, ast.literal_eval(x) if x is not None else None, x is not None) for p, x in zip(a, d) if p.arg != "self"]


class Cls:
    def __init__(self, name, bases):
        self.name, self.bases, self.methods, self.props, self.settable, self.consts = name, bases, {}, {}, set(), set()


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) else None


class Stubs:
    def __init__(self):
        d = os.path.join(common.REPO, "python_bindings", "python", "factorama")
        t = ast.parse(open(os.path.join(d, "_factorama.pyi")).read())
        self.classes, self.functions = {}, {}
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                self.functions.setdefault(n.name, []).append(Sig(n))
            if isinstance(n, ast.ClassDef):
                c = self.classes[n.name] = Cls(n.name, [last(b) for b in n.bases])
                for f in n.body:
                    if isinstance(f, ast.AnnAssign):
                        if isinstance(f.annotation, ast.Subscript) and last(f.annotation.value) == "ClassVar":
                            c.consts.add(f.target.id)
                        else:
                            c.props[f.target.id] = f.annotation
                            c.settable.add(f.target.id)
                    elif isinstance(f, ast.FunctionDef):
                        deco = [ast.unparse(x) for x in f.decorator_list]
                        if "property" in deco:
                            c.props[f.name] = f.returns
                        elif any(x.endswith(".setter") for x in deco):
                            c.settable.add(f.name)
                        else:
                            c.methods.setdefault(f.name, []).append(Sig(f))
        for n in t.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and last(n.targets[0] if isinstance(n, ast.Assign) else n.target) == "__all__":
                self.all = set(ast.literal_eval(n.value))
        p = ast.parse(open(os.path.join(d, "__init__.pyi")).read())
        self.package, self.plot = set(), None
        for n in p.body:
            if isinstance(n, ast.ImportFrom) and n.module and "factorama" in n.module:
                self.package |= {a.asname or a.name for a in n.names}
            if isinstance(n, ast.FunctionDef):
                self.package.add(n.name)
                if n.name == "PlotFactorGraph":
                    self.plot = Sig(n)
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and last(n.targets[0] if isinstance(n, ast.Assign) else n.target) == "__all__":
                self.package_all = set(ast.literal_eval(n.value))
        self.enums = sorted(k for k, c in self.classes.items() if "__members__" in c.consts)
        self.plain = sorted(k for k, c in self.classes.items() if k not in self.enums)

    def mro(self, name):
        out = [name]
        for b in self.classes[name].bases:
            if b in self.classes:
                out += self.mro(b)
        return out

    def lookup(self, name, what, attr):
        for k in self.mro(name):
            d = getattr(self.classes[k], what)
            if attr in d:
                return d[attr]
        return None

    def subclasses(self, name):
        return sorted(k for k in self.plain if name in self.mro(k))


_stubs = None


def stubs():
    global _stubs
    if _stubs is None:
        _stubs = Stubs()
    return _stubs


def optional(ann):
    """(annotation, may be None)"""
    if isinstance(ann, ast.Subscript) and last(ann.value) == "Optional":
        return ann.slice, True
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        for a, b in ((ann.left, ann.right), (ann.right, ann.left)):
            if isinstance(b, ast.Constant) and b.value is None:
                return a, True
    return ann, False


def shape_of(ann):
    """[3, 1] of an Annotated[ArrayLike or NDArray, ..., "[3, 1]"]"""
    for e in ann.slice.elts:
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.startswith("["):
            return [x.strip() for x in e.value.strip("[]").split(",")]
    return None


def kind_of(ann):
    ann, _ = optional(ann)
    if isinstance(ann, ast.Subscript) and last(ann.value) == "Annotated":
        return "array"
    return {"SupportsInt": "int", "SupportsFloat": "float", "bool": "bool", "int": "int", "float": "float"}.get(last(ann), "object")


# ------------------------------------------------------------------------------------------ is a value what the stub says
def conforms(fg, v, ann, what):
    ann, none_ok = optional(ann)
    if v is None:
        need(none_ok or (isinstance(ann, ast.Constant) and ann.value is None), "%s is None, the stub says %s" % (what, ast.unparse(ann)))
        return
    text = ast.unparse(ann)
    if isinstance(ann, ast.Constant) and ann.value is None:
        need(False, "%s returns %r, the stub says None" % (what, v))
    if isinstance(ann, ast.Subscript) and last(ann.value) == "Annotated":
        need(isinstance(v, np.ndarray) and v.dtype == np.float64, "%s is a %s, the stub says %s" % (what, type(v).__name__, text))
        sh = shape_of(ann)
        if sh:
            ok = v.ndim == len(sh) or (v.ndim == 1 and sh[1] == "1")
            ok = ok and all(not b.isdigit() or int(b) == a for a, b in zip(v.shape, sh))
            need(ok, "%s has shape %s, the stub says %s" % (what, v.shape, "x".join(sh)))
        return
    if isinstance(ann, ast.Subscript) and last(ann.value) == "list":
        need(isinstance(v, list), "%s is a %s, the stub says %s" % (what, type(v).__name__, text))
        for x in v:
            conforms(fg, x, ann.slice, "an element of " + what)
        return
    if isinstance(ann, ast.Subscript) and last(ann.value) == "tuple":
        need(isinstance(v, tuple) and len(v) == len(ann.slice.elts), "%s is %r, the stub says %s" % (what, v, text))
        for x, a in zip(v, ann.slice.elts):
            conforms(fg, x, a, "an element of " + what)
        return
    n = last(ann)
    if n in ("int", "float", "bool", "str"):
        t = {"int": int, "float": float, "bool": bool, "str": str}[n]
        need(type(v) is t, "%s is a %s, the stub says %s" % (what, type(v).__name__, n))
    elif n == "csc_matrix":
        import scipy.sparse
        need(scipy.sparse.issparse(v) and v.format == "csc", "%s is a %s, the stub says csc_matrix" % (what, type(v).__name__))
    elif n in stubs().classes:
        need(isinstance(v, getattr(fg, n)), "%s is a %s, the stub says %s" % (what, type(v).__name__, n))


# ------------------------------------------------------------------------------------------ arguments from annotations
PREFER = {"LinearVelocityFactor": ["LandmarkVariable", "GenericVariable"], "PlaneFactor": ["LandmarkVariable", "PoseVariable", "GenericVariable"],
          "GenericBetweenFactor": ["GenericVariable", "LandmarkVariable"], "BearingObservationFactor2D": ["Pose2DVariable", "GenericVariable"],
          "RangeBearingFactor2D": ["Pose2DVariable", "GenericVariable"], "Pose2DBetweenFactor": ["GenericVariable"],
          "PosePositionBetweenFactor": ["GenericVariable"]}


def variable(s, fg, name, counter, size=None):
    """a variable object of the stub's class name"""
    counter[0] += 1
    i = counter[0]
    v = lambda n, m=3.0: np.array([s.sym(m) for _ in range(n)])
    if name == "PoseVariable":
        return fg.PoseVariable(i, v(6, 1.5))
    if name == "LandmarkVariable":
        return fg.LandmarkVariable(i, v(3) + [0, 0, 7])
    if name == "RotationVariable":
        return fg.RotationVariable(i, M.exp3(v(3, 1.2)))
    if name == "InverseRangeVariable":
        return fg.InverseRangeVariable(i, v(3), v(3) + [0, 0, 5], 1 + 5 * s.unit())
    if name == "PlaneVariable":
        return fg.PlaneVariable(i, v(3) + [0, 0, 4], s.sym(5))
    if name == "Pose2DVariable":
        return fg.Pose2DVariable(i, v(3, 2.0))
    return fg.GenericVariable(i, v(size or s.pick([3, 3, 2, 1, 4])))


class Maker:
    def __init__(self, s, fg):
        self.s, self.fg, self.counter, self.ctx, self.dim = s, fg, [100], None, None

    def array(self, x):
        """x in one of the forms an ArrayLike may take"""
        x = np.asarray(x, float)
        f = self.s.draw(6)
        if f == 1:
            return x.tolist()
        if f == 2 and x.ndim == 2:
            return np.asfortranarray(x)
        if f == 2:
            return tuple(x.tolist())
        if f == 3:
            big = np.full([2 * n for n in x.shape], 7.5)
            big[tuple(slice(None, None, 2) for _ in x.shape)] = x
            return big[tuple(slice(None, None, 2) for _ in x.shape)]
        if f == 4 and x.ndim == 1:
            return x.reshape(-1, 1).copy()
        if f == 5:
            x = x.copy()
            x.flags.writeable = False
        return x

    def vec(self, n, name):
        s = self.s
        x = np.array([s.sym(2.0) for _ in range(n)])
        if any(w in name for w in ("bearing", "normal")):
            x[2] += 4.0
        return x

    def value(self, p, cls, method, target=None):
        """a value for parameter p; rotation matrices where 3x3 is asked for"""
        s, fg = self.s, self.fg
        k = kind_of(p.ann)
        if k == "array":
            sh = shape_of(optional(p.ann)[0])
            if sh == ["3", "3"]:
                return self.array(M.exp3(self.vec(3, "")))
            n = int(sh[0]) if sh[0].isdigit() else (self.dim if self.dim else s.pick([1, 2, 3, 4]))
            return self.array(self.vec(n, p.name))
        if k == "bool":
            return bool(s.draw(2))
        if k == "int":
            v = s.draw(50)
            return [v, np.int64(v), np.int32(v)][s.draw(3)]
        if k == "float":
            v = s.real(0.1, 4.0)
            if not any(w in p.name for w in ("sigma", "dt", "range", "tol", "r0", "eps")) and s.draw(2):
                v = -v
            return [v, np.float64(v), int(np.ceil(v)) or 1][s.draw(3)]
        ann, _ = optional(p.ann)
        n = last(ann)
        if n in stubs().enums:
            return getattr(fg, n)(0) if not s.draw(2) else s.pick(list(getattr(fg, n).__members__.values()))
        if n == "FactorGraph":
            return self.graph()
        if n == "Factor":
            return self.factor()
        if n in ("OptimizerSettings", "OptimizerStats", "SparseOptimizer"):
            return getattr(fg, n)()
        subs = [x for x in stubs().subclasses(n) if x not in ("Variable", "Factor")]
        need(subs, "the stub's annotation %s of %s.%s has no class" % (ast.unparse(p.ann), cls, p.name))
        if n == "Variable":
            want = s.pick(PREFER[cls]) if cls in PREFER and s.draw(8) else s.pick(subs)
            v = variable(s, fg, want, self.counter, self.dim3(cls))
            if cls == "GenericPriorFactor":
                self.dim = v.size()
            return v
        return variable(s, fg, s.pick(subs), self.counter, 1 if "scale" in p.name else 3)

    def dim3(self, cls):
        return {"BearingObservationFactor2D": 2, "RangeBearingFactor2D": 2, "GenericPriorFactor": None}.get(cls, 3)

    def factor(self):
        v = variable(self.s, self.fg, self.s.pick(["LandmarkVariable", "PoseVariable"]), self.counter)
        self.counter[0] += 1
        return self.fg.GenericPriorFactor(self.counter[0], v, np.zeros(v.size()), 1.0)

    def graph(self):
        g = self.fg.FactorGraph()
        for _ in range(1 + self.s.draw(2)):
            v = variable(self.s, self.fg, self.s.pick(["LandmarkVariable", "Pose2DVariable", "GenericVariable"]), self.counter)
            g.add_variable(v)
            self.counter[0] += 1
            g.add_factor(self.fg.GenericPriorFactor(self.counter[0], v, np.zeros(v.size()), 0.5))
        g.finalize_structure()
        return g


# ------------------------------------------------------------------------------------------ what an object says about itself
NOISY = {"clone"}


def observe(fg, o, depth=0):
    """every zero-argument method and property the stub declares, with its return type checked"""
    st, name = stubs(), type(o).__name__
    out = {}
    if name not in st.classes or name in st.enums:
        return out
    for k in st.mro(name):
        for m, sigs in sorted(st.classes[k].methods.items()):
            if m.startswith("_") or len(sigs) != 1 or sigs[0].pars or m in NOISY:
                continue
            if name in ("FactorGraph", "SparseOptimizer"):
                continue
            v = getattr(o, m)()
            conforms(fg, v, sigs[0].ret, "%s.%s()" % (name, m))
            out[m] = v
        for p, ann in st.classes[k].props.items():
            v = getattr(o, p)
            conforms(fg, v, ann, "%s.%s" % (name, p))
            out[p] = v
    return out


def agree(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            same = x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        elif isinstance(x, float):
            same = x == y or (x != x and y != y)
        elif isinstance(x, list):
            same = len(x) == len(y) and all(p is q for p, q in zip(x, y))
        elif isinstance(x, (int, str, bool)) or type(x).__name__ in stubs().enums:
            same = x == y
        else:
            same = True
        need(same, "%s: %s() is %s one way and %s the other" % (what, k, x, y))


def show(a):
    if isinstance(a, (np.ndarray, list, tuple)):
        return np.array2string(np.asarray(a), precision=6) if len(a) else "[]"
    if hasattr(a, "id") and hasattr(a, "name"):
        return "%s#%d" % (type(a).__name__, a.id())
    return repr(a) if isinstance(a, (int, float, bool, str)) else type(a).__name__


def attempt(f, what):
    """(result, refusal of the values); a TypeError means the stub's types were not accepted"""
    try:
        return f(), None
    except TypeError as e:
        raise Fail("%s is refused although the stub allows it: %s" % (what, str(e).split("Invoked")[0][:600]))
    except (ValueError, RuntimeError, IndexError) as e:
        return None, e


def forms(s, sig, vals, what, call):
    """the same call in positional, keyword and default-omitting forms: [(form, result)]"""
    pos = [p.positional for p in sig.pars]
    n0 = sum(pos)
    out = [("positional", attempt(lambda: call(*vals), what))]
    if not any(pos) and sig.pars:
        names = s.shuffle([p.name for p in sig.pars])
        byname = {p.name: v for p, v in zip(sig.pars, vals)}
        kw = {n: byname[n] for n in names}
        out.append(("keyword", attempt(lambda: call(**kw), what + " by keyword (%s)" % ", ".join(names))))
        k = s.draw(len(vals) + 1)
        rest = {p.name: v for p, v in list(zip(sig.pars, vals))[k:]}
        out.append(("mixed", attempt(lambda: call(*vals[:k], **rest), what + " with %d positional, the rest by keyword" % k)))
    return out


def omit(s, sig, vals, what, call):
    """defaults left out against the stub's defaults given"""
    with_default = [i for i, p in enumerate(sig.pars) if p.has]
    if not with_default:
        return None
    drop = [i for i in with_default if s.draw(2)] or with_default
    given = [p.default if i in drop else v for i, (p, v) in enumerate(zip(sig.pars, vals))]
    a = attempt(lambda: call(*given), what + " with the stub's defaults")
    kw = {p.name: given[i] for i, p in enumerate(sig.pars) if i not in drop}
    b = attempt(lambda: call(**kw), what + " without " + ", ".join(sig.pars[i].name for i in drop))
    s.label("defaults")
    return a, b, ", ".join(sig.pars[i].name for i in drop)


def wrong(s, mk, sig, vals, cls):
    """the arguments with one of another type"""
    fg = mk.fg
    i = s.draw(len(vals))
    p = sig.pars[i]
    k = kind_of(p.ann)
    if k == "object":
        n = last(optional(p.ann)[0])
        bad = [x for x in ("PoseVariable", "LandmarkVariable", "RotationVariable", "PlaneVariable", "Pose2DVariable", "InverseRangeVariable", "GenericVariable")
               if x not in stubs().subclasses(n)] if n in stubs().classes else []
        c = [lambda: "abc", lambda: 3.5, lambda: fg.FactorGraph() if n != "FactorGraph" else fg.OptimizerSettings()]
        if bad:
            c += [lambda: variable(s, fg, s.pick(bad), mk.counter, 3)] * 3
        v = s.pick(c)()
    elif k == "array":
        v = s.pick([None, "abc", np.zeros((7, 5)), np.zeros((2, 2, 2))])
        sh = shape_of(optional(p.ann)[0])
        if sh[0].isdigit() and s.draw(2):
            v = np.ones(int(sh[0]) + 1) if sh[1] == "1" else np.eye(int(sh[0]) + 1)
        elif v is None and sh == ["m", "1"]:
            v = np.zeros((2, 3))
    elif k == "bool":  # pybind11 takes anything with a truth value
        return None
    elif k == "int":
        v = s.pick(["7", 2.5, None, np.zeros(3)])
    else:
        v = s.pick(["7.5", None, np.zeros(3), [1.0]])
    out = list(vals)
    out[i] = v
    return out, p.name, v


def refused(f, what):
    try:
        f()
    except TypeError:
        return
    except Exception as e:
        raise Fail("%s raises %s instead of TypeError: %s" % (what, type(e).__name__, str(e)[:200]))
    raise Fail("%s is accepted" % what)


# ------------------------------------------------------------------------------------------ cases
def case_construct(s, fg):
    st = stubs()
    cls = s.pick([c for c in st.plain if "__init__" in st.classes[c].methods])
    sigs = st.classes[cls].methods["__init__"]
    sig = s.pick(sigs)
    need(hasattr(fg, cls), "the stub declares %s, the package does not have it" % cls)
    make = getattr(fg, cls)
    mk = Maker(s, fg)
    vals = []
    for p in sig.pars:
        vals.append(mk.value(p, cls, "__init__"))
    what = "%s(%s)" % (cls, ", ".join("%s=%s" % (p.name, show(v)) for p, v in zip(sig.pars, vals)))
    s.note(what)
    res = forms(s, sig, vals, what, make)
    first = res[0][1]
    if first[0] is not None:
        need(type(first[0]) is make, "%s makes a %s" % (what, type(first[0]).__name__))
        base = observe(fg, first[0])
        for k in sig.pars:
            if k.name == "id":
                need(first[0].id() == int(vals[0]), "%s has id %s" % (what, first[0].id()))
    for form, (o, err) in res[1:]:
        need((err is None) == (first[1] is None), "%s: the positional call gives %s, the %s call %s" % (what, first[1] or "an object", form, err or "an object"))
        if o is not None:
            agree(base, observe(fg, o), "%s, positional against %s arguments" % (what, form))
    d = omit(s, sig, vals, what, make)
    if d:
        (a, ea), (b, eb), names = d
        need((ea is None) == (eb is None), "%s: leaving out %s gives %s, the stub's default %s" % (what, names, eb or "an object", ea or "an object"))
        if a is not None:
            agree(observe(fg, a), observe(fg, b), "%s, %s left out against the stub's default" % (what, names))
    if vals and not s.draw(3):
        bad = wrong(s, mk, sig, vals, cls)
        if bad:
            refused(lambda: make(*bad[0]), "%s with %s=%s" % (cls, bad[1], show(bad[2])))
            s.label("wrong type refused")
    s.nontrivial = bool(vals) and first[0] is not None
    s.label(("construct " if first[0] is not None else "values refused ") + cls)


def case_method(s, fg):
    """a method with arguments, or one that is not covered by observe()"""
    st = stubs()
    cls = s.pick(["variable"] * 3 + ["FactorGraph"] * 3 + ["SparseOptimizer"] * 2)
    mk = Maker(s, fg)
    if cls == "variable":
        cls = s.pick(st.subclasses("Variable")[0:0] + [x for x in st.subclasses("Variable") if x != "Variable"])
        o = variable(s, fg, cls, mk.counter)
        mk.dim = o.size()
    elif cls == "FactorGraph":
        o = mk.graph() if s.draw(4) else fg.FactorGraph()
        mk.dim = int(o.num_values()) or None
    else:
        o = fg.SparseOptimizer()
        g = mk.graph()
        if s.draw(5):
            o.setup(g, fg.OptimizerSettings())
            if s.draw(4):
                o.optimize()
                if s.draw(2):
                    o.prepare_to_estimate_covariances()
    names = [m for k in st.mro(cls) for m in sorted(st.classes[k].methods) if not m.startswith("_")]
    name = s.pick(names)
    sig = s.pick(st.lookup(cls, "methods", name))
    vals = [mk.value(p, cls, name) for p in sig.pars]
    if name == "get_variable" and s.draw(2):
        vals = [s.pick(o.get_all_variables()).id()] if o.get_all_variables() else vals
    if name == "estimate_covariance" and s.draw(2):
        vals = [s.pick(g.get_all_variables())]
    what = "%s.%s(%s)" % (cls, name, ", ".join(show(v) for v in vals))
    s.note(what)
    f = getattr(o, name, None)
    need(f is not None, "the stub declares %s.%s, the package does not have it" % (cls, name))
    r, err = attempt(lambda: f(*vals), what)
    if err is None:
        conforms(fg, r, sig.ret, what)
        if name in ("value", "get_variable_vector", "clone") and cls != "FactorGraph" and isinstance(r, fg.Variable):
            need(type(r) is type(o), "%s is a %s" % (what, type(r).__name__))
    if sig.pars and not any(p.positional for p in sig.pars):
        kw = {p.name: v for p, v in zip(sig.pars, vals)}
        if name in ("add_variable", "add_factor"):
            kw = {sig.pars[0].name: mk.value(sig.pars[0], cls, name)}
        if not (name in ("add_variable", "add_factor") and s.draw(2) == 0):
            r2, err2 = attempt(lambda: f(**kw), what + " by keyword")
            need((err is None) == (err2 is None), "%s: %s by position, %s by keyword" % (what, err or "accepted", err2 or "accepted"))
            if err2 is None:
                conforms(fg, r2, sig.ret, what + " by keyword")
    d = None if name in ("add_variable", "add_factor") else omit(s, sig, vals, what, f)
    if d:
        (a, ea), (b, eb), dn = d
        need((ea is None) == (eb is None), "%s: %s with the stub's default, %s with %s left out" % (what, ea or "accepted", eb or "accepted", dn))
    if vals and not s.draw(3):
        bad = wrong(s, mk, sig, vals, cls)
        if bad:
            refused(lambda: f(*bad[0]), "%s.%s with %s=%s" % (cls, name, bad[1], show(bad[2])))
            s.label("wrong type refused")
    s.nontrivial = bool(vals)
    s.label("method " + name)


def case_property(s, fg):
    st = stubs()
    owners = [c for c in st.plain if st.classes[c].props]
    cls = s.pick(owners)
    mk = Maker(s, fg)
    o = variable(s, fg, cls, mk.counter) if cls in st.subclasses("Variable") else getattr(fg, cls)()
    for _ in range(1 + s.draw(5)):
        name = s.pick(sorted(st.classes[cls].props))
        ann = st.classes[cls].props[name]
        need(hasattr(type(o), name), "the stub declares %s.%s, the package does not have it" % (cls, name))
        conforms(fg, getattr(o, name), ann, "%s.%s" % (cls, name))
        before = {p: getattr(o, p) for p in st.classes[cls].props}
        k = kind_of(ann)
        if k == "object" and last(optional(ann)[0]) in st.plain:
            v = getattr(fg, last(optional(ann)[0]))()
            inner = sorted(st.classes[type(v).__name__].props)
            if "chi2" in inner:
                v.chi2 = s.real(0, 9)
        else:
            v = mk.value(Par(name, ann, None, False), cls, name)
        s.note("%s.%s = %s" % (cls, name, show(v)))
        if name not in st.classes[cls].settable:
            try:
                setattr(o, name, v)
            except AttributeError:
                continue
            raise Fail("%s.%s can be set, the stub says it cannot" % (cls, name))
        _, err = attempt(lambda: setattr(o, name, v), "%s.%s = %s" % (cls, name, show(v)))
        need(err is None, "%s.%s = %s raises %s" % (cls, name, show(v), err))
        got = getattr(o, name)
        conforms(fg, got, ann, "%s.%s" % (cls, name))
        if hasattr(v, "chi2"):
            need(got.chi2 == v.chi2, "%s.%s reads back chi2 %r, was set to %r" % (cls, name, got.chi2, v.chi2))
        else:
            need(got == v, "%s.%s reads back %r, was set to %r" % (cls, name, got, v))
        for p, x in before.items():
            if p != name and kind_of(st.classes[cls].props[p]) != "object":
                need(getattr(o, p) == x, "setting %s.%s changed %s from %r to %r" % (cls, name, p, x, getattr(o, p)))
        if s.draw(2):
            bad = {"int": "7", "float": "7.5", "object": 3.5}.get(k)
            if bad:
                refused(lambda: setattr(o, name, bad), "%s.%s = %r" % (cls, name, bad))
                need(hasattr(v, "chi2") or getattr(o, name) == v, "a refused value changed %s.%s" % (cls, name))
    s.nontrivial = True
    s.label("property of " + cls)


def case_enum(s, fg):
    st = stubs()
    cls = s.pick(st.enums)
    E, c = getattr(fg, cls), st.classes[cls]
    names = sorted(c.consts - {"__members__"})
    need(set(E.__members__) == set(names), "%s has members %s, the stub declares %s" % (cls, sorted(E.__members__), names))
    a, b = s.pick(names), s.pick(names)
    x, y = getattr(E, a), getattr(E, b)
    s.note("%s.%s, %s" % (cls, a, b))
    need(x is E.__members__[a] or x == E.__members__[a], "%s.%s is not its __members__ entry" % (cls, a))
    need(x.name == a and conforms(fg, x.name, ast.Name("str"), "name") is None, "%s.%s has name %r" % (cls, a, x.name))
    need((x == y) == (a == b) and (x != y) == (a != b), "%s.%s == %s.%s is %s" % (cls, a, cls, b, x == y))
    need(type(x.value) is int and int(x) == x.value and E(x.value) == x and E(int(y)) == y, "%s.%s does not round trip through its value" % (cls, a))
    need(x.__index__() == int(x), "%s.%s: __index__ is not its value" % (cls, a))
    need(hash(x) == hash(E(x.value)), "equal %s hash differently" % cls)
    need(a in repr(x) and a in str(x), "%s.%s prints as %s" % (cls, a, x))
    import pickle
    need(pickle.loads(pickle.dumps(x)) == x, "%s.%s does not survive pickling" % (cls, a))
    refused(lambda: E(s.pick(["pose", 1.5, None])), "%s of something that is not an integer" % cls)
    s.nontrivial = True
    s.label("enum " + cls)


def case_names(s, fg):
    """a name the package offers is in the stubs, and the other way round"""
    st = stubs()
    import factorama._factorama as ext
    name = s.pick(sorted(st.all | set(st.classes) | set(st.functions) | {n for n in vars(ext) if not n.startswith("_")}))
    s.note(name)
    need(hasattr(ext, name), "the stub declares %s, the module does not have it" % name)
    need(name in st.classes or name in st.functions, "%s is in the module and not in its stub" % name)
    need(name in st.all, "%s is not in the stub's __all__" % name)
    need(hasattr(fg, name), "%s is not importable from the package" % name)
    need(getattr(fg, name) is getattr(ext, name), "factorama.%s is another object than factorama._factorama.%s" % (name, name))
    need(name in st.package and name in st.package_all, "%s is not in the package's stub" % name)
    if name in st.classes:
        T, c = getattr(fg, name), st.classes[name]
        for b in c.bases:
            need(issubclass(T, getattr(fg, b)), "%s is not a subclass of %s" % (name, b))
        own = {n for n in vars(T) if not n.startswith("_")}
        declared = {n for k in st.mro(name) for n in list(st.classes[k].methods) + list(st.classes[k].props) + list(st.classes[k].consts)}
        need(not own - declared, "%s has %s, which its stub does not declare" % (name, sorted(own - declared)))
        missing = sorted(n for n in declared if not hasattr(T, n))
        need(not missing, "the stub declares %s of %s, which do not exist" % (missing, name))
    n = s.pick(sorted(st.package_all))
    need(hasattr(fg, n), "__init__.pyi declares %s, the package does not have it" % n)
    need(n in getattr(fg, "__all__", [n]), "%s is not in the package's __all__" % n)
    conforms(fg, fg.__version__, ast.Name("str"), "__version__")
    sig = inspect.signature(fg.PlotFactorGraph)
    got = [(p.name, p.default if p.default is not inspect.Parameter.empty else None, p.default is not inspect.Parameter.empty) for p in sig.parameters.values()]
    want = [(p.name, p.default, p.has) for p in st.plot.pars]
    need(got == want, "PlotFactorGraph has parameters %s, the stub says %s" % (got, want))
    s.nontrivial = True
    s.label("names")


def case_function(s, fg):
    st = stubs()
    name = s.pick(sorted(st.functions))
    sig = s.pick(st.functions[name])
    mk = Maker(s, fg)
    vals = [mk.value(p, name, name) for p in sig.pars]
    what = "%s(%s)" % (name, ", ".join(show(v) for v in vals))
    s.note(what)
    res = forms(s, sig, vals, what, getattr(fg, name))
    for form, (r, err) in res:
        need(err is None, "%s raises %s" % (what, err))
        conforms(fg, r, sig.ret, what)
        need(np.array_equal(r, res[0][1][0]), "%s differs by %s arguments" % (what, form))
    if vals and not s.draw(3):
        bad, pn, v = wrong(s, mk, sig, vals, name)
        refused(lambda: getattr(fg, name)(*bad), "%s with %s=%s" % (name, pn, show(v)))
    s.nontrivial = True
    s.label("function " + name)


CASES = [case_construct] * 8 + [case_method] * 5 + [case_property] * 2 + [case_enum, case_names, case_function]


def case(s, tier, fg):
    s.pick(CASES)(s, fg)


def replay(d):
    return common.replay_file(globals(), d)


if __name__ == "__main__":
    common.main(globals())
