"""Reference semantics of the variables and factors, in numpy, written from the documentation; and generators of
random variables, factors and graphs as the Python API sees them."""
import numpy as np
from scipy.spatial.transform import Rotation
from common import Fail, Discard

POSE, LM, ROT, INV, GEN, PLANE, POSE2 = "Pose", "Landmark", "Rotation", "InverseRange", "Generic", "Plane", "Pose2D"
KINDS = [GEN, LM, POSE, POSE2, ROT, PLANE, INV]
SIZE = {POSE: 6, LM: 3, ROT: 3, INV: 1, PLANE: 4, POSE2: 3}


def exp3(w):
    return Rotation.from_rotvec(np.array(w, float)).as_matrix()


def log3(R):
    return Rotation.from_matrix(np.array(R, float)).as_rotvec()


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class V:
    """Model of one variable: value vector x, and for rotations the matrix R"""

    def __init__(self, kind, vid, x, extra=None, const=False):
        self.kind, self.id, self.extra, self.const = kind, vid, extra, const
        self.lo, self.hi = 1e-6, 1e3
        self.set(np.array(x, float))

    def copy(self):
        c = object.__new__(V)
        c.__dict__.update(self.__dict__)
        c.x = self.x.copy()
        if self.kind in (POSE, ROT):
            c.R = self.R.copy()
        return c

    @property
    def size(self):
        return len(self.x)

    def set(self, x):
        x = np.array(x, float)
        self.x = x
        if self.kind == POSE:
            self.R = exp3(x[3:])
        elif self.kind == ROT:
            self.R = exp3(x)
        elif self.kind == PLANE:
            self.x = np.concatenate([unit(x[:3]), x[3:]])
        elif self.kind == INV:
            self.x = np.clip(x, self.lo, self.hi)
        elif self.kind == POSE2:
            self.x = np.array([x[0], x[1], wrap(x[2])])

    def inc(self, d):
        d = np.asarray(d, float)
        if self.kind == POSE:
            self.R = exp3(d[3:]) @ self.R
            self.x = np.concatenate([self.x[:3] + d[:3], log3(self.R)])
        elif self.kind == ROT:
            self.R = exp3(d) @ self.R
            self.x = log3(self.R)
        elif self.kind == PLANE:
            self.x = np.concatenate([unit(self.x[:3] + d[:3]), self.x[3:] + d[3:]])
        else:
            self.set(self.x + d)

    def pos(self):
        if self.kind == INV:
            return self.extra[0] + self.extra[1] / self.x[0]
        return self.x[:3]

    def __str__(self):
        return "%s#%d%s%s" % (self.kind, self.id, np.array2string(self.x, precision=5, separator=",", max_line_width=9999), " const" if self.const else "")


def near_pi(w):
    """is the rotation so close to half a turn that its vector has two answers"""
    return abs(np.linalg.norm(w) % (2 * np.pi) - np.pi) < 1e-3


def same_value(m, got, tol):
    """does a value() agree with the model's"""
    got = np.asarray(got, float).ravel()
    if got.shape != m.x.shape or not np.all(np.isfinite(got)):
        return False
    if m.kind == POSE:
        return np.abs(got[:3] - m.x[:3]).max() <= tol * (1 + np.abs(m.x[:3]).max()) and np.abs(exp3(got[3:]) - m.R).max() <= max(tol, 1e-8)
    if m.kind == ROT:
        return np.abs(exp3(got) - m.R).max() <= max(tol, 1e-8)
    if m.kind == POSE2:
        return np.abs(got[:2] - m.x[:2]).max() <= tol * (1 + np.abs(m.x[:2]).max()) and abs(wrap(got[2] - m.x[2])) <= tol and abs(got[2]) <= np.pi + 1e-9
    return np.abs(got - m.x).max() <= tol * (1 + np.abs(m.x).max())


# ------------------------------------------------------------------------------------------ generators
def gen_vec(s, n, m=4.0):
    return [s.sym(m) for _ in range(n)]


def gen_rotvec(s):
    w = np.array(gen_vec(s, 3, 1.6))
    n = np.linalg.norm(w)
    return list(w if n < 2.8 else w * 2.8 / n)


def gen_dir(s):
    d = gen_vec(s, 3, 1.0)
    if np.linalg.norm(d) < 0.2:
        d = [0.0, 0.0, 1.0]
    return d


def gen_var(s, kind, vid, size=None):
    if kind == POSE:
        return V(POSE, vid, gen_vec(s, 3) + gen_rotvec(s))
    if kind == LM:
        return V(LM, vid, gen_vec(s, 3))
    if kind == ROT:
        return V(ROT, vid, gen_rotvec(s))
    if kind == INV:
        return V(INV, vid, [1 / (0.5 + s.real(0, 8))], (np.array(gen_vec(s, 3)), unit(gen_dir(s))))
    if kind == PLANE:
        return V(PLANE, vid, list(unit(gen_dir(s))) + [s.sym(4)])
    if kind == POSE2:
        return V(POSE2, vid, gen_vec(s, 2) + [s.sym(3.1)])
    return V(GEN, vid, gen_vec(s, size or 1 + s.draw(5)))


def make_var(s, fg, m):
    """the Python object of a modelled variable; positional or keyword arguments, every constructor"""
    kw = s.chance(1, 2)

    def call(cls, names, *args):
        if kw:
            k = s.draw(len(names) + 1)
            return cls(*args[:k], **dict(zip(names[k:], args[k:])))
        return cls(*args)

    if m.kind == POSE:
        if s.chance(1, 2):
            p = call(fg.PoseVariable, ["id", "pos_W", "dcm_CW"], m.id, m.x[:3].copy(), m.R.copy())
        else:
            p = call(fg.PoseVariable, ["id", "pose_CW_init"], m.id, m.x.copy())
    elif m.kind == LM:
        p = call(fg.LandmarkVariable, ["id", "pos_W_init"], m.id, m.x.copy())
    elif m.kind == ROT:
        p = call(fg.RotationVariable, ["id", "dcm_AB"], m.id, m.R.copy())
    elif m.kind == INV:
        p = call(fg.InverseRangeVariable, ["id", "origin_pos_W", "bearing_W", "initial_range"], m.id, m.extra[0].copy(), m.extra[1].copy(), 1 / m.x[0])
    elif m.kind == PLANE:
        k = 1 + 3 * s.draw(2)
        p = call(fg.PlaneVariable, ["id", "normal_vector", "distance"], m.id, k * m.x[:3], float(m.x[3]))
    elif m.kind == POSE2:
        p = call(fg.Pose2DVariable, ["id", "pose_2d"], m.id, m.x.copy())
    else:
        x = m.x.copy() if s.draw(2) else [float(v) for v in m.x]
        p = call(fg.GenericVariable, ["id", "initial_value"], m.id, x)
    if m.const:
        p.set_constant(True)
    return p


class F:
    """Model of one factor: kind, ids of its variables (indices into the graph's list), parameters"""

    def __init__(self, kind, fid, v, **par):
        self.kind, self.id, self.v, self.par = kind, fid, v, par

    def __str__(self):
        def sh(x):
            return np.array2string(np.asarray(x), precision=5, separator=",") if isinstance(x, (list, np.ndarray)) else "%g" % x if isinstance(x, float) else str(x)
        return "%s#%d vars%s %s" % (self.kind, self.id, list(self.v), " ".join("%s=%s" % (k, sh(x).replace("\n", "")) for k, x in self.par.items()))


FAR = 0.4  # landmarks closer to the observer than this are not generated


def sigma(s):
    return s.pick([1.0, 0.5, 2.0, 0.25, 0.1, 0.05, 3.0, 10.0])


# python class: (kinds of its variables, argument names after id, python type code)
SPECS = {
    "BearingObservationFactor": ([POSE, LM], ["pose_var", "landmark_var", "bearing_C_observed", "angle_sigma"], "bearing_observation"),
    "BearingProjectionFactor2D": ([POSE, LM], ["pose", "landmark", "bearing_C_observed", "sigma", "along_tolerance_epsilon"], None),
    "InverseRangeBearingFactor": ([POSE, INV], ["pose_var", "inverse_range_var", "bearing_C_observed", "angle_sigma"], "inverse_range_bearing"),
    "GenericPriorFactor": (["vector"], ["variable", "prior_value", "sigma"], "generic_prior"),
    "GenericBetweenFactor": (["vector", "same", "same"], ["var_a", "var_b", "measured_diff", "sigma"], "generic_between"),
    "LinearVelocityFactor": (["vector", "same", "shorter"], ["var_1", "var_2", "velocity_variable", "dt", "sigma"], None),
    "PosePositionPriorFactor": ([POSE], ["pose", "pos_prior", "sigma"], "pose_position_prior"),
    "PoseOrientationPriorFactor": ([POSE], ["pose", "rotvec_prior", "sigma"], "pose_orientation_prior"),
    "RotationPriorFactor": ([ROT], ["rotation", "dcm_AB_prior", "sigma"], None),
    "PosePositionBetweenFactor": ([POSE, POSE, "vec3"], ["pose_a", "pose_b", "measured_diff", "sigma", "local_frame"], "pose_position_between"),
    "PoseOrientationBetweenFactor": ([POSE, POSE, ROT], ["pose1", "pose2", "calibration_rotation_12", "angle_sigma"], "pose_orientation_between"),
    "PlaneFactor": (["point", PLANE], ["point_var", "plane_var", "sigma", "do_distance_scaling", "dist_scaling_r0", "dist_scaling_p0"], "plane_factor"),
    "PlanePriorFactor": ([PLANE], ["plane", "normal_prior", "distance_prior", "normal_sigma", "distance_sigma"], "plane_prior"),
    "BearingObservationFactor2D": ([POSE2, "vec2"], ["pose_var", "landmark_var", "bearing_angle_obs", "angle_sigma"], "bearing_observation_2d"),
    "RangeBearingFactor2D": ([POSE2, "vec2"], ["pose_var", "landmark_var", "range_obs", "bearing_angle_obs", "range_sigma", "bearing_sigma"], "range_bearing_2d"),
    "Pose2DPriorFactor": ([POSE2], ["pose_var", "pose_prior", "position_sigma", "angle_sigma"], "pose_2d_prior"),
    "Pose2DBetweenFactor": ([POSE2, POSE2, "p2meas"], ["pose_a", "pose_b", "measured_between_variable", "position_sigma", "angle_sigma", "local_frame"], "pose_2d_between"),
    "CoordinateTransformFactor": ([ROT, "gen3", "gen1", LM, LM], ["rot_AB", "B_origin_A", "scale_AB", "lm_A", "lm_B", "sigma"], None),
}
DEFAULTS = {"angle_sigma": 1.0, "sigma": 1.0, "along_tolerance_epsilon": 1e-6, "local_frame": False, "normal_sigma": 1.0,
            "distance_sigma": 1.0, "range_sigma": 1.0, "bearing_sigma": 1.0}
NO_DEFAULT = {("Pose2DPriorFactor", "angle_sigma"), ("Pose2DBetweenFactor", "angle_sigma"), ("PlaneFactor", "do_distance_scaling")}
KIND_NAMES = list(SPECS)


def fits(m, want, prev):
    if want == "vector":
        return m.kind in (GEN, LM)
    if want == "same":
        return m.kind in (GEN, LM) and m.size == prev[0].size
    if want == "shorter":
        return m.kind in (GEN, LM) and m.size <= prev[0].size
    if want in ("vec3", "point"):
        return m.kind in (GEN, LM) and m.size == 3
    if want == "vec2":
        return m.kind == GEN and m.size == 2
    if want == "p2meas":
        return m.kind == GEN and m.size == 3
    if want == "gen3":
        return m.kind == GEN and m.size == 3
    if want == "gen1":
        return m.kind == GEN and m.size == 1
    return m.kind == want


def new_for(s, want, prev, vid):
    if want == "vector":
        return gen_var(s, s.pick([GEN, LM]), vid)
    if want == "same":
        return gen_var(s, GEN, vid, prev[0].size)
    if want == "shorter":
        return gen_var(s, GEN, vid, 1 + s.draw(prev[0].size))
    if want in ("vec3", "point"):
        return gen_var(s, s.pick([GEN, LM]), vid, 3)
    if want in ("p2meas", "gen3"):
        return gen_var(s, GEN, vid, 3)
    if want == "vec2":
        return gen_var(s, GEN, vid, 2)
    if want == "gen1":
        return V(GEN, vid, [0.5 + s.real(0, 2)])
    return gen_var(s, want, vid)


def gen_factor(s, kind, fid, vs, newvar, fresh=1):
    """a factor over variables of vs (a list of models; newvar(model) appends one and returns its index)"""
    idx, ms = [], []
    for want in SPECS[kind][0]:
        cand = [i for i, m in enumerate(vs) if i not in idx and fits(m, want, ms)]
        if cand and not s.chance(fresh, 4):
            i = s.pick(cand)
        else:
            i = newvar(new_for(s, want, ms, None))
        idx.append(i)
        ms.append(vs[i])
    par = {}
    if kind in ("BearingObservationFactor", "BearingProjectionFactor2D", "InverseRangeBearingFactor"):
        d = ms[0].R @ (ms[1].pos() - ms[0].x[:3])
        if np.linalg.norm(d) < FAR:
            raise Discard()
        b = unit(d) + 0.3 * np.array(gen_vec(s, 3, 1.0)) / 1.8
        par["m"] = unit(b) * s.pick([1.0, 1.0, 2.0])
        par["s"] = sigma(s)
        if kind == "BearingProjectionFactor2D":
            par["eps"] = s.pick([1e-6, 1e-3, 0.2])
    elif kind == "GenericPriorFactor":
        par["m"] = np.array(gen_vec(s, ms[0].size))
        par["s"] = sigma(s)
    elif kind == "GenericBetweenFactor":
        par["s"] = sigma(s)
    elif kind == "LinearVelocityFactor":
        par["dt"] = s.pick([1.0, 0.5, 0.1, 2.0])
        par["s"] = sigma(s)
    elif kind == "PosePositionPriorFactor":
        par["m"] = np.array(gen_vec(s, 3))
        par["s"] = sigma(s)
    elif kind in ("PoseOrientationPriorFactor", "RotationPriorFactor"):
        par["m"] = exp3(np.array(gen_vec(s, 3, 0.8))) @ ms[0].R
        par["s"] = sigma(s)
    elif kind == "PosePositionBetweenFactor":
        par["s"] = sigma(s)
        par["local"] = bool(s.draw(2))
    elif kind == "PoseOrientationBetweenFactor":
        par["s"] = sigma(s)
    elif kind == "PlaneFactor":
        par["s"] = sigma(s)
        if s.draw(2):
            par["r0"] = s.pick([1.0, 3.0, 10.0])
            par["p0"] = np.array(gen_vec(s, 3))
            if np.linalg.norm(par["p0"] - ms[0].x[:3]) < 1e-2:
                raise Discard()
            par["scale"] = not s.chance(1, 6)
    elif kind == "PlanePriorFactor":
        par["m"] = unit(ms[0].x[:3] + 0.3 * np.array(gen_vec(s, 3, 1.0)) / 1.8)
        par["d"] = s.sym(4)
        par["s"], par["s2"] = sigma(s), sigma(s)
    elif kind in ("BearingObservationFactor2D", "RangeBearingFactor2D"):
        d = ms[1].x[:2] - ms[0].x[:2]
        if np.linalg.norm(d) < FAR:
            raise Discard()
        par["b"] = float(np.arctan2(d[1], d[0]) - ms[0].x[2] + s.sym(1.0)) + 2 * np.pi * s.pick([0, 0, 0, 1, -1])
        par["s"] = sigma(s)
        if kind == "RangeBearingFactor2D":
            par["r"] = 0.5 + s.real(0, 6)
            par["s2"] = sigma(s)
    elif kind == "Pose2DPriorFactor":
        par["m"] = np.array(gen_vec(s, 2) + [ms[0].x[2] + s.sym(1.5)])
        par["s"], par["s2"] = sigma(s), sigma(s)
    elif kind == "Pose2DBetweenFactor":
        par["s"], par["s2"] = sigma(s), sigma(s)
        par["local"] = bool(s.draw(2))
    elif kind == "CoordinateTransformFactor":
        par["s"] = sigma(s)
    f = F(kind, fid, idx, **par)
    if not smooth(f, vs):
        raise Discard()
    return f


def args_of(f, objs):
    """constructor arguments after the id, in order"""
    p = f.par
    vo = [objs[i] for i in f.v]
    k = f.kind
    if k in ("BearingObservationFactor", "InverseRangeBearingFactor", "GenericPriorFactor", "PosePositionPriorFactor",
             "PoseOrientationPriorFactor", "RotationPriorFactor"):
        return vo + [np.array(p["m"]), p["s"]]
    if k == "BearingProjectionFactor2D":
        return vo + [np.array(p["m"]), p["s"], p["eps"]]
    if k in ("GenericBetweenFactor", "PoseOrientationBetweenFactor", "CoordinateTransformFactor"):
        return vo + [p["s"]]
    if k == "LinearVelocityFactor":
        return vo + [p["dt"], p["s"]]
    if k == "PosePositionBetweenFactor":
        return vo + [p["s"], p["local"]]
    if k == "PlaneFactor":
        return vo + [p["s"]] + ([p["scale"], p["r0"], np.array(p["p0"])] if "p0" in p else [])
    if k == "PlanePriorFactor":
        return vo + [np.array(p["m"]), p["d"], p["s"], p["s2"]]
    if k == "BearingObservationFactor2D":
        return vo + [p["b"], p["s"]]
    if k == "RangeBearingFactor2D":
        return vo + [p["r"], p["b"], p["s"], p["s2"]]
    if k == "Pose2DPriorFactor":
        return vo + [np.array(p["m"]), p["s"], p["s2"]]
    if k == "Pose2DBetweenFactor":
        return vo + [p["s"], p["s2"], p["local"]]
    raise AssertionError(k)


def make_factor(s, fg, f, objs):
    """positional, keyword and defaulted arguments at random"""
    cls = getattr(fg, f.kind)
    names = ["id"] + SPECS[f.kind][1]
    args = [f.id] + args_of(f, objs)
    names = names[:len(args)]
    cut = s.draw(len(args) + 1) if s.draw(2) else len(args)
    kw = dict(zip(names[cut:], args[cut:]))
    for n in list(kw):
        d = DEFAULTS.get(n)
        if d is not None and (f.kind, n) not in NO_DEFAULT and kw[n] == d and not (f.kind == "PlaneFactor" and "p0" in f.par) and s.draw(2):
            del kw[n]
    # trailing positional defaults may be left out too
    pos = args[:cut]
    if not kw:
        while pos and len(pos) > 1 + len(f.v):
            n = names[len(pos) - 1]
            d = DEFAULTS.get(n)
            if d is None or (f.kind, n) in NO_DEFAULT or (f.kind == "PlaneFactor" and "p0" in f.par) or pos[-1] != d or not s.draw(2):
                break
            pos = pos[:-1]
    if s.draw(2):
        kw = dict(reversed(list(kw.items())))
    return cls(*pos, **kw)


# ------------------------------------------------------------------------------------------ residuals
def parts(f, vs):
    """(unweighted error, standard deviations, indices of angles); None for the projection factor's basis-dependent error"""
    p, k = f.par, f.kind
    a = [vs[i] for i in f.v]
    if k in ("BearingObservationFactor", "InverseRangeBearingFactor"):
        e = unit(a[0].R @ (a[1].pos() - a[0].x[:3])) - unit(p["m"])
        return e, [p["s"]] * 3, []
    if k == "GenericPriorFactor":
        return a[0].x - p["m"], [p["s"]] * a[0].size, []
    if k == "GenericBetweenFactor":
        return a[1].x - a[0].x - a[2].x, [p["s"]] * a[0].size, []
    if k == "LinearVelocityFactor":
        n = a[2].size
        return a[1].x[:n] - a[0].x[:n] - a[2].x * p["dt"], [p["s"]] * n, []
    if k == "PosePositionPriorFactor":
        return a[0].x[:3] - p["m"], [p["s"]] * 3, []
    if k in ("PoseOrientationPriorFactor", "RotationPriorFactor"):
        return log3(a[0].R @ p["m"].T), [p["s"]] * 3, []
    if k == "PosePositionBetweenFactor":
        d = a[1].x[:3] - a[0].x[:3]
        return (a[0].R @ d if p["local"] else d) - a[2].x, [p["s"]] * 3, []
    if k == "PoseOrientationBetweenFactor":
        return log3(a[1].R @ a[0].R.T @ a[2].R), [p["s"]] * 3, []
    if k == "PlaneFactor":
        d = a[1].x[:3] @ a[0].x[:3] + a[1].x[3]
        if p.get("scale"):
            d /= 1 + np.linalg.norm(a[0].x[:3] - p["p0"]) / p["r0"]
        return np.array([d]), [p["s"]], []
    if k == "PlanePriorFactor":
        n = a[0].x[:3]
        e = n - p["m"]
        return np.concatenate([e - (n @ e) * n, [a[0].x[3] - p["d"]]]), [p["s"]] * 3 + [p["s2"]], []
    if k in ("BearingObservationFactor2D", "RangeBearingFactor2D"):
        d = a[1].x[:2] - a[0].x[:2]
        b = wrap(np.arctan2(d[1], d[0]) - a[0].x[2] - p["b"])
        if k == "BearingObservationFactor2D":
            return np.array([b]), [p["s"]], [0]
        return np.array([np.linalg.norm(d) - p["r"], b]), [p["s"], p["s2"]], [1]
    if k == "Pose2DPriorFactor":
        e = a[0].x - p["m"]
        return np.array([e[0], e[1], wrap(e[2])]), [p["s"], p["s"], p["s2"]], [2]
    if k == "Pose2DBetweenFactor":
        d = a[1].x[:2] - a[0].x[:2]
        if p["local"]:
            c, sn = np.cos(a[0].x[2]), np.sin(a[0].x[2])
            d = np.array([[c, -sn], [sn, c]]) @ d  # the rotation the existing tests pin (P05's known finding)
        e = wrap(a[1].x[2] - a[0].x[2] - a[2].x[2])
        return np.concatenate([d - a[2].x[:2], [e]]), [p["s"], p["s"], p["s2"]], [2]
    if k == "CoordinateTransformFactor":
        return a[3].x - (a[2].x[0] * (a[0].R @ a[4].x) - a[1].x), [p["s"]] * 3, []
    if k == "BearingProjectionFactor2D":
        b = unit(a[0].R @ (a[1].pos() - a[0].x[:3]))
        m = unit(p["m"])
        # coordinates of the bearing in some orthonormal basis of the plane normal to m; the documented one:
        i = int(np.argmin(np.abs(m)))
        u = np.zeros(3)
        u[i] = 1
        t1 = unit(u - (m @ u) * m)
        return np.array([t1 @ b, np.cross(m, t1) @ b]), [p["s"]] * 2, []
    raise AssertionError(k)


def residual(f, vs):
    e, sg, _ = parts(f, vs)
    return e / np.array(sg)


def smooth(f, vs):
    """is the residual's value here away from the places where it jumps"""
    e, _, ang = parts(f, vs)
    if any(abs(abs(e[i]) - np.pi) < 0.02 for i in ang):
        return False
    if f.kind in ("PoseOrientationPriorFactor", "RotationPriorFactor", "PoseOrientationBetweenFactor") and np.linalg.norm(e) > 3.1:
        return False
    a = [vs[i] for i in f.v]
    if any(v.kind == INV and not max(0.01, 1.1 * v.lo) < v.x[0] < 0.9 * v.hi for v in a):
        return False  # at a bound the value does not follow the increment
    if f.kind in ("BearingObservationFactor", "BearingProjectionFactor2D", "InverseRangeBearingFactor"):
        d = a[0].R @ (a[1].pos() - a[0].x[:3])
        if np.linalg.norm(d) < FAR:
            return False
        if f.kind == "BearingProjectionFactor2D" and unit(f.par["m"]) @ unit(d) < 0.3:
            return False
    if f.kind in ("BearingObservationFactor2D", "RangeBearingFactor2D") and np.linalg.norm(a[1].x[:2] - a[0].x[:2]) < FAR:
        return False
    if f.kind == "PlaneFactor" and f.par.get("scale") and np.linalg.norm(a[0].x[:3] - f.par["p0"]) < 1e-2:
        return False
    return True


def full_residual(fs, vs):
    return np.concatenate([residual(f, vs) for f in fs]) if fs else np.zeros(0)


def jacobian(fs, vs):
    """five-point differences along the variables' own increments; columns in the order of the free variables"""
    rows = sum(len(parts(f, vs)[0]) for f in fs)
    cols = sum(v.size for v in vs if not v.const)
    J = np.zeros((rows, cols))
    h = 2e-3
    c = 0
    at = []
    r = 0
    for f in fs:
        n = len(parts(f, vs)[0])
        at.append((r, n))
        r += n
    for i, v in enumerate(vs):
        if v.const:
            continue
        use = [(f, a) for f, a in zip(fs, at) if i in f.v]
        hv = h * v.x[0] if v.kind == INV else h
        for j in range(v.size):
            pert = {}
            for k in (-2, -1, 1, 2):
                w = v.copy()
                d = np.zeros(v.size)
                d[j] = k * hv
                w.inc(d)
                vv = list(vs)
                vv[i] = w
                pert[k] = vv
            for f, (r0, n) in use:
                e = {k: parts(f, pert[k]) for k in pert}
                base = parts(f, vs)
                for k in e:
                    for q in base[2]:
                        e[k][0][q] = base[0][q] + wrap(e[k][0][q] - base[0][q])
                d = (e[-2][0] - 8 * e[-1][0] + 8 * e[1][0] - e[2][0]) / (12 * hv)
                J[r0:r0 + n, c + j] = d / np.array(base[1])
        c += v.size
    return J


# ------------------------------------------------------------------------------------------ graphs
def gen_graph(s, nf, kinds=None, consts=True):
    """(variables, factors) in insertion order; ids are distinct and unordered"""
    vs, fs = [], []
    ids = s.pick([lambda k: k, lambda k: 100 - 3 * k, lambda k: 7 * k - 20])

    def newvar(m):
        m.id = ids(len(vs))
        m.const = consts and s.chance(1, 6)
        vs.append(m)
        return len(vs) - 1

    for k in range(nf):
        kind = s.pick(kinds or KIND_NAMES)
        try:
            n0 = len(vs)
            fs.append(gen_factor(s, kind, 3 * k + 1, vs, newvar))
        except Discard:
            del vs[n0:]
    return vs, fs


def square_up(s, vs, fs):
    """priors that make the graph observable and leave at least as many residuals as free values"""
    fid = 1000
    for i, v in enumerate(vs):
        if v.const:
            continue
        if v.kind in (GEN, LM, INV):
            fs.append(F("GenericPriorFactor", fid, [i], m=v.x + 0.1 * np.array(gen_vec(s, v.size, 1.0)) * (v.x if v.kind == INV else 1), s=sigma(s)))
        elif v.kind == POSE:
            fs.append(F("PosePositionPriorFactor", fid, [i], m=v.x[:3] + 0.1 * np.array(gen_vec(s, 3, 1.0)), s=sigma(s)))
            fid += 1
            fs.append(F("PoseOrientationPriorFactor", fid, [i], m=exp3(0.1 * np.array(gen_vec(s, 3, 1.0))) @ v.R, s=sigma(s)))
        elif v.kind == ROT:
            fs.append(F("RotationPriorFactor", fid, [i], m=exp3(0.1 * np.array(gen_vec(s, 3, 1.0))) @ v.R, s=sigma(s)))
        elif v.kind == PLANE:
            fs.append(F("PlanePriorFactor", fid, [i], m=unit(v.x[:3] + 0.05 * np.array(gen_vec(s, 3, 1.0))), d=v.x[3] + s.sym(0.2), s=sigma(s), s2=sigma(s)))
        elif v.kind == POSE2:
            fs.append(F("Pose2DPriorFactor", fid, [i], m=v.x + 0.1 * np.array(gen_vec(s, 3, 1.0)), s=sigma(s), s2=sigma(s)))
        fid += 1
