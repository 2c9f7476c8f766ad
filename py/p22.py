"""P22: no sequence of Python calls can crash or read freed memory."""
import copy, gc, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import common
from common import Fail, Discard
import model as M
from model import POSE, LM, ROT, INV, GEN, PLANE, POSE2

PID, FLAVOUR = "P22", "asan"
PLAN = {"quick": (60000, 28), "thorough": (3000000, 420)}
RULE = ("one case: a program of up to 40 drawn Python calls that create, fetch, keep, drop, collect, change and query variables, factors, "
        "graphs, optimizers, settings, statistics and arrays, with the extension under AddressSanitizer; after each call a drawn handle, and at "
        "the end every one, must have the value the mirror has; non-trivial: something was used after another handle it came from was dropped")

VCLASS = {POSE: "PoseVariable", LM: "LandmarkVariable", ROT: "RotationVariable", INV: "InverseRangeVariable", GEN: "GenericVariable",
          PLANE: "PlaneVariable", POSE2: "Pose2DVariable"}


def need(c, msg):
    if not c:
        raise Fail(msg)


class H:
    """a handle the program holds: kind of thing, mirror, object"""
    __slots__ = ("t", "e", "o", "snap", "via")

    def __init__(self, t, e, o, snap=None, via=None):
        self.t, self.e, self.o, self.snap, self.via = t, e, o, snap, via


class G:
    def __init__(self):
        self.vs, self.fs, self.bad = [], [], False


class O:
    def __init__(self):
        self.g, self.set, self.history = None, None, []


def arr(a):
    """the numbers, read the way an interceptor sees"""
    a = np.asarray(a)
    raw = np.frombuffer(a.tobytes("A"), a.dtype)
    flat = a.ravel("A")
    if not np.array_equal(raw, flat, equal_nan=True):
        raise Fail("an array changes while it is read")
    return np.array(a, copy=True)


VIEWS = {POSE: ["value", "pos_W", "rot_CW", "dcm_CW"], LM: ["value", "pos_W"], ROT: ["value", "dcm_AB", "rotation"],
         INV: ["value", "pos_W", "origin_pos_W", "bearing_W"], GEN: ["value"], PLANE: ["value", "unit_vector"], POSE2: ["value", "pos_2d", "dcm_2d"]}


def view_now(m, name):
    """(numbers the accessor has for the mirror, tolerance), None: compare as a rotation"""
    if name in ("dcm_CW", "dcm_AB", "rotation"):
        return m.R
    if name == "rot_CW":
        return None
    if name == "dcm_2d":
        c, s = np.cos(m.x[2]), np.sin(m.x[2])
        return np.array([[c, -s], [s, c]])
    if name == "pos_W":
        return m.pos() if m.kind != LM else m.x
    if name == "pos_2d":
        return m.x[:2]
    if name == "unit_vector":
        return m.x[:3]
    if name == "origin_pos_W":
        return m.extra[0]
    if name == "bearing_W":
        return m.extra[1]
    return None


def is_now(m, name, a):
    a = np.asarray(a, float)
    if name == "value":
        return M.same_value(m, a, 1e-7)
    if name == "rot_CW":
        return a.size == 3 and np.abs(M.exp3(a.ravel()) - m.R).max() < 1e-7
    w = view_now(m, name)
    return a.size == np.size(w) and np.abs(a.reshape(np.shape(w)) - w).max() <= 1e-7 * (1 + np.abs(w).max())


class Program:
    def __init__(self, s, fg):
        self.s, self.fg = s, fg
        self.hs, self.fs, self.vs = [], [], []
        self.dropped, self.deep = False, False
        self.vid, self.fid = 0, 0

    # ---- helpers
    def of(self, *ts):
        return [h for h in self.hs if h.t in ts]

    def hold(self, t, e, o, **kw):
        self.hs.append(H(t, e, o, **kw))
        return self.hs[-1]

    def find_v(self, m):
        return next((h for h in self.hs if h.t == "v" and h.e is m), None)

    def new_var(self, want=None, prev=()):
        s = self.s
        m = M.new_for(s, want, list(prev), None) if want else M.gen_var(s, s.pick(M.KINDS), None)
        self.vid += 1
        m.id = self.vid if s.chance(7, 8) else max(1, self.vid - 1)  # sometimes an id that is taken
        m.const = s.chance(1, 8)
        s.note("v%d = %s" % (len(self.vs), m))
        self.vs.append(m)
        return self.hold("v", m, M.make_var(s, self.fg, m))

    # ---- checks
    def check(self, h):
        fg, o, e = self.fg, h.o, h.e
        if h.t == "v":
            need(type(o) is getattr(fg, VCLASS[e.kind]), "%s came back as a %s" % (e, type(o).__name__))
            need(o.id() == e.id and o.size() == e.size and o.is_constant() is e.const, "id, size or flag of %s are %s, %s, %s" % (e, o.id(), o.size(), o.is_constant()))
            need(M.same_value(e, arr(o.value()), 1e-7), "value of %s is %s" % (e, o.value()))
            need(o.name().endswith(str(e.id)), "name of %s is %r" % (e, o.name()))
        elif h.t == "f":
            need(type(o).__name__ == e.kind and o.id() == e.id, "%s came back as a %s with id %d" % (e, type(o).__name__, o.id()))
            r = np.ravel(arr(o.compute_residual()))
            if e.kind != "BearingProjectionFactor2D" and M.smooth(e, self.vs):
                w = M.residual(e, self.vs)
                need(r.shape == w.shape and np.abs(r - w).max() <= 1e-6 * (1 + np.abs(w).max()) / min(1, e.par["s"], e.par.get("s2", 1)), "residual of %s over %s is %s, expected %s" % (
                    e, [str(self.vs[i]) for i in e.v], r, w))
            vs = o.variables()
            need([v.id() for v in vs] == [self.vs[i].id for i in e.v], "variables of %s have ids %s" % (e, [v.id() for v in vs]))
        elif h.t == "g":
            need([v.id() for v in o.get_all_variables()] == [self.vs[i].id for i in e.vs], "graph's variables")
            need([f.id() for f in o.get_all_factors()] == [self.fs[i].id for i in e.fs], "graph's factors")
            need(o.num_variables() == len(e.vs), "num_variables")
        elif h.t == "o":
            st = o.settings()
            if e.set:
                self.check_settings(st, [e.set])
            x = (o.initial_stats.chi2, o.current_stats.chi2, o.current_stats.status, o.current_stats.valid)
            need(x[0] == x[0] or True, "")
        elif h.t == "s":
            self.check_settings(o, e())
        elif h.t == "st":
            _ = (o.chi2, o.valid, o.status, o.rank, o.current_iteration, o.residual_norm)
            need(int(o.status) in range(6), "a statistic's status is %r" % o.status)
            need(-1 <= o.current_iteration <= 1000, "a statistic's iteration is %r" % o.current_iteration)
        elif h.t == "a":
            a = arr(o)
            same = a.shape == h.snap.shape and np.array_equal(a, h.snap, equal_nan=True)
            if not same and h.e is not None:
                same = is_now(h.e, h.via, a)
            need(same, "an array kept from %s is now %s, was %s" % (h.via, a.tolist(), h.snap.tolist()))

    @staticmethod
    def check_settings(st, allowed):
        got = {k: getattr(st, k) for k in ("max_num_iterations", "initial_lambda", "max_lambda", "learning_rate", "step_tolerance", "verbose")}
        need(any(all(got[k] == d[k] for k in d) for d in allowed), "settings are %s, expected one of %s" % (got, allowed))

    # ---- operations
    def op_var(self):
        self.new_var()

    def op_factor(self):
        s = self.s
        kind = s.pick(M.KIND_NAMES)
        used, made = [], []

        def newvar(m):
            self.vid += 1
            m.id = self.vid
            m.const = s.chance(1, 8)
            self.vs.append(m)
            made.append(m)
            return len(self.vs) - 1
        # only variables the program still holds can be given to a factor
        n0 = len(self.vs)
        held = [i for i, m in enumerate(self.vs) if self.find_v(m)]
        pool = [self.vs[i] for i in held]
        idx0 = {id(m): i for i, m in zip(held, pool)}

        def newpool(m):
            k = newvar(m)
            pool.append(m)
            idx0[id(m)] = k
            return len(pool) - 1
        self.fid += 1
        try:
            f = M.gen_factor(s, kind, self.fid if s.chance(7, 8) else max(1, self.fid - 1), pool, newpool)
        except Discard:
            del self.vs[n0:]
            return
        objs = []
        for m in pool:
            h = self.find_v(m)
            if h is None:
                h = self.hold("v", m, M.make_var(s, self.fg, m))
                s.note("v%d = %s" % (idx0[id(m)], m))
            objs.append(h.o)
        q = M.make_factor(s, self.fg, f, objs)
        f.v = [idx0[id(pool[i])] for i in f.v]
        s.note("f%d = %s" % (len(self.fs), f))
        self.fs.append(f)
        self.hold("f", f, q)
        if s.draw(2):  # the factor's variables are dropped right away
            for i in f.v:
                self.drop([h for h in self.of("v") if h.e is self.vs[i]])

    def op_graph(self):
        self.s.note("graph")
        self.hold("g", G(), self.fg.FactorGraph())

    def op_add(self):
        s = self.s
        g = s.pick(self.of("g"))
        if s.draw(3) == 0:
            # a factor and the variables it has
            fh = self.of("f")
            if not fh:
                return
            h = s.pick(fh)
            vs = h.o.variables()
            for i, v in zip(h.e.v, vs):
                self.add(g, "v", i, v)
            del vs
            self.add(g, "f", self.fs.index(h.e), h.o)
        else:
            h = s.pick(self.of("v", "f") or [None])
            if h is not None:
                self.add(g, h.t, (self.vs if h.t == "v" else self.fs).index(h.e), h.o)

    def add(self, g, t, i, o):
        lst, pool = (g.e.vs, self.vs) if t == "v" else (g.e.fs, self.fs)
        dup = any(pool[k].id == pool[i].id for k in lst)
        self.s.note("g.add %s%d" % (t, i))
        try:
            (g.o.add_variable if t == "v" else g.o.add_factor)(o)
        except Exception as x:
            need(dup, "adding %s%d raises %s" % (t, i, x))
            return
        need(not dup, "a second %s with id %d was added" % (t, pool[i].id))
        lst.append(i)

    def op_finalize(self):
        g = self.s.pick(self.of("g"))
        self.s.note("g.finalize")
        try:
            g.o.finalize_structure()
        except Exception:
            pass

    def complete(self, g):
        """a graph that can be evaluated: the variables of its factors in it, finalized"""
        if not g.e.fs:
            for h in self.of("f")[:1]:
                self.add(g, "f", self.fs.index(h.e), h.o)
        for k, i in enumerate(list(g.e.fs)):
            for j, v in zip(self.fs[i].v, g.o.get_all_factors()[k].variables()):
                if j not in g.e.vs:
                    self.add(g, "v", j, v)
        g.o.finalize_structure()

    def graph_residual(self, g):
        return np.concatenate([np.zeros(0)] + [M.residual(self.fs[i], self.vs) for i in g.fs])

    def op_eval(self):
        s = self.s
        g = s.pick(self.of("g"))
        name = s.pick(["compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "residual", "jacobian",
                       "sparse_jacobian", "get_variable_vector", "compute_full_jacobian_and_residual"])
        s.note("g.%s" % name)
        try:
            if name in ("residual", "jacobian", "sparse_jacobian") and s.chance(3, 4):
                self.complete(g)
                g.o.compute_full_jacobian_and_residual()
                g.o.compute_sparse_jacobian_matrix()
                s.note("(computed first)")
            a = getattr(g.o, name)()
        except Exception:
            return
        if name == "compute_full_residual_vector" and all(self.fs[i].kind != "BearingProjectionFactor2D" and M.smooth(self.fs[i], self.vs) for i in g.e.fs):
            w = self.graph_residual(g.e)
            r = np.ravel(arr(a))
            need(r.shape == w.shape and (not len(w) or np.abs(r - w).max() <= 1e-5 * (1 + np.abs(w).max())), "the graph's residual is %s, expected %s" % (r, w))
        if a is None:
            return
        if hasattr(a, "data") and hasattr(a, "indptr"):
            a.sum()
            a = a.data
        self.keep(a, name)
        if s.chance(1, 3):  # what was returned is the caller's: evaluating elsewhere does not reach it
            self.op_change()
            s.note("evaluated again")
            try:
                g.o.compute_full_jacobian_and_residual()
                g.o.compute_sparse_jacobian_matrix()
            except Exception:
                return

    def keep(self, a, name, m=None):
        self.hold("a", m, a, snap=arr(a), via=name)

    def op_keep(self):
        s = self.s
        hs = self.of("v", "f")
        if not hs:
            return
        h = s.pick(hs)
        if h.t == "v":
            name = s.pick(VIEWS[h.e.kind])
            s.note("keep v%d.%s()" % (self.vs.index(h.e), name))
            self.keep(getattr(h.o, name)(), name, h.e)
        elif hasattr(h.o, "bearing_C_obs") and s.draw(2):
            s.note("keep f%d.bearing_C_obs()" % self.fs.index(h.e))
            self.keep(h.o.bearing_C_obs(), "bearing_C_obs")
        else:
            self.keep(h.o.compute_residual(), "compute_residual")

    def op_fetch(self):
        s = self.s
        hs = self.of("g", "f")
        if not hs:
            return
        h = s.pick(hs)
        if h.t == "f":
            k = s.draw(len(h.e.v))
            m = self.vs[h.e.v[k]]
            s.note("fetch v%d of f%d" % (h.e.v[k], self.fs.index(h.e)))
            o = h.o.variables()[k]
        elif h.e.vs and (s.draw(2) or not h.e.fs):
            k = s.draw(len(h.e.vs))
            m = self.vs[h.e.vs[k]]
            s.note("fetch v%d of a graph" % h.e.vs[k])
            o = h.o.get_all_variables()[k] if s.draw(2) else h.o.get_variable(m.id)
        elif h.e.fs:
            k = s.draw(len(h.e.fs))
            f = self.fs[h.e.fs[k]]
            s.note("fetch f%d of a graph" % h.e.fs[k])
            o = h.o.get_all_factors()[k]
            for x in self.of("f"):
                if x.e is f:
                    need(x.o is o, "a factor fetched from a graph is another object than the one added")
            self.hold("f", f, o)
            return
        else:
            return
        for x in self.of("v"):
            if x.e is m:
                need(x.o is o, "a variable fetched is another object than the one held")
        self.hold("v", m, o)

    def op_change(self):
        s = self.s
        hs = self.of("v")
        if not hs:
            return
        h = s.pick(hs)
        m, o = h.e, h.o
        k = s.draw(4)
        if k == 0:
            d = np.array(M.gen_vec(s, m.size, 0.5)) * (m.x[0] if m.kind == INV else 1)
            if m.kind == PLANE and np.linalg.norm(m.x[:3] + d[:3]) < 0.2:
                return
            s.note("v%d.apply_increment(%s)" % (self.vs.index(m), d))
            o.apply_increment(d)
            m.inc(d)
        elif k == 1:
            n = M.gen_var(s, m.kind, 0, m.size)
            s.note("v%d.set_value_from_vector(%s)" % (self.vs.index(m), n.x))
            o.set_value_from_vector(n.x)
            m.set(n.x)
        elif k == 2:
            m.const = bool(s.draw(2))
            s.note("v%d.set_constant(%s)" % (self.vs.index(m), m.const))
            o.set_constant(m.const)
        else:
            # values written through an array it returned
            a = o.value()
            s.note("write into v%d.value()" % self.vs.index(m))
            try:
                a += 1.0
            except Exception:
                return
            if not M.same_value(m, o.value(), 1e-9):
                m.set(np.ravel(o.value()))

    def op_clone(self):
        s = self.s
        hs = self.of("v")
        if not hs:
            return
        h = s.pick(hs)
        c = h.o.clone()
        m = h.e.copy()
        s.note("v%d = v%d.clone()" % (len(self.vs), self.vs.index(h.e)))
        self.vs.append(m)
        need(c is not h.o, "clone returns the same object")
        self.hold("v", m, c)

    def drop(self, hs):
        for h in hs:
            if h.t in "vfgo":
                self.dropped = True
            self.hs.remove(h)
            h.o = None

    def op_drop(self):
        s = self.s
        if not self.hs:
            return
        k = s.draw(4)
        if k == 3:
            t = s.pick(["v", "f", "g", "o"])
            s.note("drop all %s" % t)
            self.drop(self.of(t))
        else:
            h = s.pick(self.hs)
            s.note("drop a %s" % h.t)
            self.drop([h])
        if s.draw(2):
            self.collect()

    def collect(self):
        gc.collect()
        junk = [np.full(n, 7.25e77) for n in (1, 2, 3, 4, 6, 9, 12, 16, 36, 64)] + [bytearray(b"\x5a" * n) for n in range(16, 400, 24)]
        del junk

    def op_opt(self):
        s, fg = self.s, self.fg
        os_ = self.of("o")
        k = s.draw(7)
        if not os_ or k == 0:
            s.note("optimizer")
            self.hold("o", O(), fg.SparseOptimizer())
            return
        h = s.pick(os_)
        if k in (1, 2):
            gs = self.of("g")
            if not gs:
                return
            g = s.pick(gs)
            st = fg.OptimizerSettings()
            d = {"max_num_iterations": s.pick([2, 0, 5]), "initial_lambda": s.pick([1e-3, 1.0]), "max_lambda": 1e5, "learning_rate": s.pick([1.0, 0.5]),
                 "step_tolerance": s.pick([1e-8, 1e-4]), "verbose": s.chance(1, 8)}
            for a, v in d.items():
                setattr(st, a, v)
            st.method = s.pick([fg.OptimizerMethod.GaussNewton, fg.OptimizerMethod.LevenbergMarquardt])
            if s.chance(1, 10):  # detaches the optimizer, which then refuses to run
                s.note("optimizer.setup(None)")
                try:
                    h.o.setup(None, st)
                except Exception:
                    return
                h.e.g, h.e.set = None, d
                h.e.history.append(d)
                try:
                    h.o.optimize()
                except Exception:
                    return
                raise Fail("an optimizer without a graph ran")
            s.note("optimizer.setup")
            try:
                h.o.setup(g.o, st)
            except Exception:
                return
            h.e.g, h.e.set = g.e, d
            h.e.history.append(d)
            if s.draw(2):
                self.hold("s", lambda d=d: [d], st)
        elif k == 3:
            s.note("keep settings")
            st, e = h.o.settings(), h.e
            if e.set:
                first = e.set
                self.hold("s", lambda e=e, first=first: [first] + e.history, st)
            else:
                self.hold("a", None, np.array([st.max_num_iterations, st.learning_rate]), snap=np.array([st.max_num_iterations, st.learning_rate]), via="settings")
        elif k == 4:
            s.note("keep stats")
            self.hold("st", None, h.o.current_stats if s.draw(2) else h.o.initial_stats)
        elif k == 5:
            s.note("optimizer.optimize")
            try:
                h.o.optimize()
            except Exception:
                pass
            if h.e.g is not None:
                self.reread(h)
        else:
            s.note("covariance")
            try:
                if s.draw(2):
                    h.o.prepare_to_estimate_covariances()
                if s.chance(1, 4):
                    h.o.print_all_covariances()
            except Exception:
                pass
            for v in self.of("v")[:3]:
                c, ok = h.o.estimate_covariance(v.o)
                if ok:
                    need(c.shape == (v.e.size, v.e.size), "covariance of %s has shape %s" % (v.e, c.shape))
                    self.keep(c, "estimate_covariance")
                    break

    def reread(self, h):
        """after an optimization the mirror follows what reachable handles say"""
        ids = set(h.e.g.vs)
        for f in h.e.g.fs:
            ids.update(self.fs[f].v)
        seen = set()
        for x in list(self.hs):
            pairs = []
            if x.t == "v":
                pairs = [(x.e, x.o)]
            elif x.t == "f":
                pairs = [(self.vs[i], o) for i, o in zip(x.e.v, x.o.variables())]
            elif x.t == "g":
                pairs = [(self.vs[i], o) for i, o in zip(x.e.vs, x.o.get_all_variables())]
            for m, o in pairs:
                if id(m) in seen or not any(self.vs[i] is m for i in ids):
                    continue
                seen.add(id(m))
                y = np.ravel(arr(o.value()))
                need(np.all(np.isfinite(y)) and np.abs(y).max() < 1e60, "after optimizing, %s has the value %s" % (m, y))
                if m.const:
                    need(M.same_value(m, y, 1e-9), "optimizing moved the constant %s to %s" % (m, y))
                else:
                    m.set(y)
        # a variable only the optimizer's own graph can still reach is not compared again until it is fetched
        for i in ids:
            m = self.vs[i]
            if id(m) not in seen:
                self.lost.append(m)

    lost = ()

    def op_print(self):
        s = self.s
        g = s.pick(self.of("g"))
        k = s.draw(5)
        s.note("print/test")
        try:
            if k == 0:
                g.o.print_structure()
            elif k == 1:
                g.o.print_variables()
            elif k == 2:
                g.o.print_jacobian_and_residual(bool(s.draw(2)))
            elif k == 3:
                g.o.detailed_factor_test(1e-4, bool(s.draw(2)))
            else:
                g.o.set_verbose(False)
        except Exception:
            pass

    def op_copy(self):
        s = self.s
        hs = self.of("v", "f", "g", "o")
        if not hs:
            return
        h = s.pick(hs)
        f = s.pick([copy.copy, copy.deepcopy, pickle.dumps])
        s.note("%s of a %s" % (f.__name__, h.t))
        try:
            c = f(h.o)
        except Exception:
            return
        if f is not pickle.dumps:  # if copies are ever supported they must stand on their own
            self.hold(h.t, h.e.copy() if h.t == "v" else h.e, c)
            if h.t == "v":
                self.vs.append(self.hs[-1].e)

    def op_graph_set(self):
        s = self.s
        g = s.pick(self.of("g"))
        try:
            x = np.array(g.o.get_variable_vector())
        except Exception:
            return
        if not np.all(np.isfinite(x)):
            return
        fr = [self.vs[i] for i in g.e.vs if not self.vs[i].const]
        if sum(m.size for m in fr) != len(x):
            return
        k = s.draw(3)
        try:
            if k == 0:
                s.note("g.set_variable_values_from_vector(own)")
                g.o.set_variable_values_from_vector(x)
            elif k == 1:
                d = 0.05 * np.array(M.gen_vec(s, len(x), 1.0))
                s.note("g.apply_increment(%s)" % d)
                c = 0
                g.o.apply_increment(d)
                for m in fr:
                    m.inc(d[c:c + m.size])
                    c += m.size
            else:
                bad = np.zeros(len(x) + 1)
                s.note("g.apply_increment of a wrong size")
                try:
                    (g.o.apply_increment if s.draw(2) else g.o.set_variable_values_from_vector)(bad)
                except Exception:
                    return
                raise Fail("a vector of the wrong size was accepted by the graph")
        except Fail:
            raise
        except Exception as e:
            if k != 1:
                pass

    def op_bad(self):
        """None, another type, or a wrong size in place of a required argument"""
        s, fg = self.s, self.fg
        wrong = s.pick([None, "text", object(), fg.VariableType.pose, [], {}])
        hs = [h for h in self.hs if h.t in ("v", "g", "o")]
        k = s.draw(8)
        if k < 4 or not hs:
            # a factor with one argument replaced
            kind = s.pick(M.KIND_NAMES)
            pool = []

            def newvar(m):
                m.id = 7000 + len(pool)
                pool.append(m)
                return len(pool) - 1
            try:
                f = M.gen_factor(s, kind, 1, pool, newvar)
            except Discard:
                return
            objs = [M.make_var(s, fg, m) for m in pool]
            args = [f.id] + M.args_of(f, objs)
            i = s.draw(len(args))
            want = ["id"] + M.SPECS[kind][0] if i <= len(f.v) else None
            mode = s.draw(3)
            old = args[i]
            if mode == 0 or i == 0:
                args[i] = wrong
                if isinstance(old, bool) and wrong is None:
                    return  # None converts to False, as in Python itself
                if kind == "GenericPriorFactor" and isinstance(old, np.ndarray) and wrong in ([],):
                    pass
                if isinstance(old, (int, float)) and not isinstance(old, bool) and wrong is fg.VariableType.pose:
                    return  # an enumerator is a number
                if isinstance(old, bool) and not isinstance(wrong, str):
                    return
            elif i <= len(f.v):
                w = want[i]
                other = {POSE: [LM, GEN, POSE2], LM: [GEN, POSE], ROT: [POSE, GEN], INV: [LM, POSE], PLANE: [LM, ROT], POSE2: [POSE, LM]}
                size = {"vec3": [2, 4], "point": [2, 1], "vec2": [3, 1], "p2meas": [2, 4], "gen3": [2, 5], "gen1": [2, 3],
                        "same": [pool[f.v[0]].size + 1], "shorter": [pool[f.v[0]].size + 1]}
                if w in other:
                    args[i] = M.make_var(s, fg, M.gen_var(s, s.pick(other[w]), 7100))
                elif w in size:
                    args[i] = M.make_var(s, fg, M.gen_var(s, GEN, 7100, s.pick(size[w])))
                else:
                    if kind == "GenericPriorFactor":
                        n = len(args[2])
                        args[1] = M.make_var(s, fg, M.gen_var(s, GEN, 7100, n + 1))
                    else:
                        n = pool[f.v[1]].size
                        args[i] = M.make_var(s, fg, M.gen_var(s, GEN, 7100, n + 1))
            elif isinstance(old, np.ndarray):
                args[i] = s.pick([np.zeros(old.size + 1), np.zeros(max(0, old.size - 1)), np.zeros((2, 2)), np.zeros((old.size, 2)), np.zeros((2, 2, 2))])
                if old.size == 1 and np.size(args[i]) == 1:
                    return
            else:
                args[i] = s.pick([np.zeros(3), None, "1", [1.0]])
                if isinstance(old, bool):
                    return
            s.note("%s%s with argument %d replaced by %s" % (kind, tuple(type(a).__name__ for a in args), i, type(args[i]).__name__))
            try:
                q = getattr(fg, kind)(*args)
            except Exception:
                return
            raise Fail("%s accepted %r (%s) as argument %d instead of %r" % (kind, args[i], getattr(args[i], "size", lambda: "")() if hasattr(args[i], "size") and callable(args[i].size) else "", i, old))
        h = s.pick(hs)
        o = h.o
        if h.t == "v":
            n = h.e.size
            bad = s.pick([None, "x", np.zeros(n + 1), np.zeros(n - 1) if n > 1 else np.zeros(0), np.zeros((n, 2)) if n > 1 else np.zeros(3), object(), np.zeros((2, 2, 2))])
            calls = [("set_value_from_vector", bad), ("apply_increment", bad), ("set_constant", s.pick(["yes", np.zeros(2), object(), [1]]))]
            if h.e.kind == PLANE:
                calls.append(("distance_from_point", s.pick([None, np.zeros(2), "p"])))
            if h.e.kind == POSE2:
                calls += [("set_pos_2d", s.pick([None, np.zeros(3), "p"])), ("set_theta", s.pick([None, np.zeros(3), "p"]))]
        elif h.t == "g":
            other = s.pick([None, "x", fg.SparseOptimizer(), fg.OptimizerSettings(), np.zeros(3)])
            calls = [("add_variable", other), ("add_factor", other), ("get_variable", s.pick([None, "x", 1.5])),
                     ("set_variable_values_from_vector", s.pick([None, "x", np.zeros((2, 2))])), ("apply_increment", s.pick([None, "x", np.zeros((2, 2))])),
                     ("detailed_factor_test", s.pick([None, "x"]))]
            vh, fh = self.of("v"), self.of("f")
            if vh:
                calls.append(("add_factor", s.pick(vh).o))
            if fh:
                calls.append(("add_variable", s.pick(fh).o))
        else:
            gg = fg.FactorGraph()
            calls = [("setup", gg, None), ("setup", fg.OptimizerSettings(), gg), ("setup", gg),
                     ("estimate_covariance", s.pick(["x", gg, 3])), ("optimize", 3)]
        c = s.pick(calls)
        s.note("%s(%s) on a %s" % (c[0], ", ".join(repr(x) for x in c[1:]), h.t))
        try:
            getattr(o, c[0])(*c[1:])
        except Exception:
            return
        raise Fail("%s(%s) on a %s raised nothing" % (c[0], ", ".join(repr(x) for x in c[1:]), type(o).__name__))

    def run(self):
        s = self.s
        self.lost = []
        self.op_graph()
        ops = [self.op_var] * 3 + [self.op_factor] * 6 + [self.op_add] * 6 + [self.op_finalize] * 2 + [self.op_eval] * 4 + [self.op_keep] * 5 + \
              [self.op_fetch] * 5 + [self.op_change] * 4 + [self.op_drop] * 6 + [self.op_opt] * 8 + [self.op_clone, self.op_print, self.op_copy, self.op_graph_set, self.op_graph] + \
              [self.op_bad] * 4
        n = 4 + s.draw(37)
        gops = {self.op_add, self.op_finalize, self.op_eval, self.op_print, self.op_graph_set}
        for _ in range(n):
            f = s.pick(ops)
            if f in gops and not self.of("g"):
                self.op_graph()
            f()
            if len(self.hs) > 24:
                self.drop([self.hs[0]])
            self.resync()
            if self.hs:
                self.check(s.pick(self.hs))
                if self.dropped:
                    self.deep = True
        if s.draw(2):
            self.collect()
        self.resync()
        for h in list(self.hs):
            self.check(h)
        # what is left, in any order
        for h in s.shuffle(self.hs):
            self.drop([h])
            if self.hs and s.draw(4) == 3:
                gc.collect()
                self.check(self.hs[0])

    def resync(self):
        """values an optimizer changed while nothing of theirs was held: taken when they can be reached again"""
        if not self.lost:
            return
        for h in self.hs:
            pairs = []
            if h.t == "v":
                pairs = [(h.e, h.o)]
            elif h.t == "f":
                pairs = zip([self.vs[i] for i in h.e.v], h.o.variables())
            elif h.t == "g":
                pairs = zip([self.vs[i] for i in h.e.vs], h.o.get_all_variables())
            for m, o in pairs:
                k = next((i for i, x in enumerate(self.lost) if x is m), None)
                if k is not None:
                    y = np.ravel(arr(o.value()))
                    need(np.all(np.isfinite(y)) and np.abs(y).max() < 1e60, "%s has the value %s" % (m, y))
                    m.set(y)
                    self.lost = [x for x in self.lost if x is not m]


_frozen = False


def case(s, tier, fg):
    global _frozen
    if not _frozen:
        gc.collect()
        gc.freeze()
        gc.disable()
        _frozen = True
    p = Program(s, fg)
    p.run()
    s.nontrivial = p.deep
    for t in ("v", "f", "g", "o", "a"):
        pass
    s.label("programs")
    if p.deep:
        s.label("used after a drop")


def replay(d):
    return common.replay_file(globals(), d)


if __name__ == "__main__":
    common.main(globals())
