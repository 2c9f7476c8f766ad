"""P23: PlotFactorGraph draws every graph truthfully and without errors."""
import os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import common
from common import Fail, Discard
import model as M
from model import POSE, LM, ROT, INV, GEN, PLANE, POSE2

PID, FLAVOUR = "P23", "rel"
PLAN = {"quick": (20000, 25), "thorough": (600000, 420)}
RULE = ("one case: a graph of drawn variables and factors (all kinds), optionally finalized, optimized and changed afterwards, drawn by "
        "PlotFactorGraph with drawn flags on a new or given axis; every marker, arrow, line and covariance outline on the axis is compared "
        "with the one computed from the model; non-trivial: at least one variable was plottable")

MARK = {POSE: "3D Poses", LM: "3D Landmarks", POSE2: "2D Poses", GEN: "2D Landmarks"}


def need(c, msg):
    if not c:
        raise Fail(msg)


def same_sets(got, want, tol, what):
    """equal as multisets of points"""
    got, want = [np.ravel(np.asarray(g, float)) for g in got], [np.ravel(np.asarray(w, float)) for w in want]
    if len(got) != len(want):
        raise Fail("%d %s drawn, expected %d (drawn %s, expected %s)" % (len(got), what, len(want), [g.tolist() for g in got][:6], [w.tolist() for w in want][:6]))
    left = list(got)
    for w in want:
        ds = [np.abs(g - w).max() / (1 + np.abs(w).max()) if g.shape == w.shape and np.all(np.isfinite(g)) else np.inf for g in left]
        k = int(np.argmin(ds))
        if not ds[k] <= tol:
            raise Fail("no %s at %s: drawn %s" % (what, w.tolist(), [g.tolist() for g in left][:6]))
        del left[k]


def gen(s):
    kinds = list(M.KIND_NAMES) if s.draw(3) else s.pick([
        ["BearingObservationFactor", "BearingProjectionFactor2D", "PosePositionBetweenFactor", "PoseOrientationBetweenFactor"],
        ["BearingObservationFactor2D", "RangeBearingFactor2D", "Pose2DBetweenFactor", "Pose2DPriorFactor"]])
    vs, fs = M.gen_graph(s, s.draw(7), kinds)
    ids = set(v.id for v in vs)
    for _ in range(s.draw(3)):  # variables no factor refers to
        i = 1000
        while i in ids:
            i += 1
        ids.add(i)
        vs.append(M.gen_var(s, s.pick(M.KINDS), i))
    for j in range(s.draw(4) if s.chance(1, 4) else 0):  # generic betweens of the value vectors of two poses, or of a pose and something else
        kind = s.pick([POSE, POSE2])
        n0 = len(vs)
        for k, m in enumerate(((kind, kind, GEN), (kind, GEN, GEN), (GEN, kind, GEN))[s.draw(3)]):
            i = 2000 + 3 * j + k
            vs.append(M.gen_var(s, m, i, 6 if kind == POSE else 3) if m == GEN else M.gen_var(s, m, i))
        fs.insert(s.draw(len(fs) + 1), M.F("GenericBetweenFactor", 999 - j, [n0, n0 + 1, n0 + 2], s=M.sigma(s)))
    return vs, fs


def world_dir(f, vs):
    """unit vector of the measured direction in the world, of a pose's bearing"""
    a = vs[f.v[0]]
    if a.kind == POSE:
        return a.R.T @ M.unit(f.par["m"])
    t = a.x[2] + f.par["b"]
    return np.array([np.cos(t), np.sin(t)])


def pad(p, dim):
    p = np.asarray(p, float)
    return np.concatenate([p, [0.0]])[:dim] if len(p) == 2 else p[:dim]


def want_lines(vs, fs, dim):
    out = {"Bearing measurements": [], "Range-bearing measurements": [], "Between factors": []}
    for f in fs:
        a = [vs[i] for i in f.v]
        if f.kind in ("BearingObservationFactor", "BearingProjectionFactor2D"):
            p = a[0].x[:3]
            q = p + np.linalg.norm(a[1].x - p) * world_dir(f, vs)
            out["Bearing measurements"].append(np.concatenate([pad(p, dim), pad(q, dim)]))
        elif f.kind in ("BearingObservationFactor2D", "RangeBearingFactor2D"):
            p = a[0].x[:2]
            r = f.par["r"] if "r" in f.par else np.linalg.norm(a[1].x[:2] - p)
            q = p + r * world_dir(f, vs)
            out["Range-bearing measurements" if "r" in f.par else "Bearing measurements"].append(np.concatenate([pad(p, dim), pad(q, dim)]))
        elif f.kind in ("PosePositionBetweenFactor", "PoseOrientationBetweenFactor", "Pose2DBetweenFactor", "GenericBetweenFactor") and a[0].kind in (POSE, POSE2) and a[1].kind in (POSE, POSE2):
            n = 3 if a[0].kind == POSE else 2
            out["Between factors"].append(np.concatenate([pad(a[0].x[:n], dim), pad(a[1].x[:n], dim)]))
    return out


def line_data(l, dim):
    d = np.array(l.get_data_3d() if dim == 3 else l.get_data(), float)
    return d  # dim x points


def check_lines(lines, vs, fs, dim, meas, betw):
    style = lambda l: (l.get_color(), l.get_linestyle())
    legend, segs = {}, []
    for l in lines:
        d = line_data(l, dim)
        if d.shape[1] == 0:
            need(not l.get_label().startswith("_"), "an empty line without a label")
            need(style(l) not in legend, "two legend entries with one style")
            legend[style(l)] = l.get_label()
        else:
            need(d.shape[1] == 2, "a line of %d points" % d.shape[1])
            segs.append((style(l), np.concatenate([d[:, 0], d[:, 1]])))
    want = want_lines(vs, fs, dim)
    if not meas:
        want["Bearing measurements"], want["Range-bearing measurements"] = [], []
    if not betw:
        want["Between factors"] = []
    need(sorted(legend.values()) == sorted(k for k, v in want.items() if v), "legend has %s for lines %s" % (sorted(legend.values()), {k: len(v) for k, v in want.items()}))
    for st, g in segs:
        need(st in legend, "a line of style %s is not in the legend (from, to: %s)" % (st, g.tolist()))
    for k, w in want.items():
        g = [x for st, x in segs if legend[st] == k]
        if k == "Between factors":  # undirected
            def order(x):
                return x if tuple(x[:dim]) <= tuple(x[dim:]) else np.concatenate([x[dim:], x[:dim]])
            g, w = [order(np.round(x, 12)) for x in g], [order(np.round(x, 12)) for x in w]
        same_sets(g, w, 1e-7, "lines (%s)" % k)


def case(s, tier, fg):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection
    from matplotlib.patches import Ellipse, FancyArrow
    from mpl_toolkits.mplot3d.art3d import Line3DCollection, Poly3DCollection
    plt.close("all")
    vs, fs = gen(s)
    solve = s.chance(1, 2)
    if solve:
        M.square_up(s, vs, fs)
        fs = [f for f in fs if f.id != 999]  # its Jacobian is not defined on poses
        if s.chance(1, 3):  # a graph in other units of confidence: outlines much smaller or larger than the scene
            k = s.pick([1e-2, 1e-3, 1e-4, 1e2])
            for f in fs:
                for key in ("s", "s2"):
                    if key in f.par:
                        f.par[key] *= k
            s.label("sigmas times %g" % k)
    objs = [M.make_var(s, fg, v) for v in vs]
    g = fg.FactorGraph()
    for o in objs:
        g.add_variable(o)
    facs = [M.make_factor(s, fg, f, objs) for f in fs]
    for f in facs:
        g.add_factor(f)
    opt = None
    if solve and any(not v.const for v in vs):
        g.finalize_structure()
        st = fg.OptimizerSettings()
        st.method = fg.OptimizerMethod.LevenbergMarquardt if s.draw(2) else fg.OptimizerMethod.GaussNewton
        st.max_num_iterations = s.pick([3, 1, 0, 20])
        opt = fg.SparseOptimizer()
        opt.setup(g, st)
        if s.chance(5, 6):
            opt.optimize()
        for v, o in zip(vs, objs):
            x = np.ravel(o.value())
            if not np.all(np.isfinite(x)):
                raise Discard()
            v.set(x)
        if s.chance(1, 5) and vs:
            i = s.draw(len(vs))
            d = 0.5 * np.array(M.gen_vec(s, vs[i].size, 1.0))
            objs[i].apply_increment(d)
            vs[i].set(np.ravel(objs[i].value()))
    for f in fs:
        if f.kind in ("BearingObservationFactor", "BearingProjectionFactor2D") and np.linalg.norm(vs[f.v[1]].x - vs[f.v[0]].x[:3]) < 1e-9:
            raise Discard()
    if not solve and s.draw(2):
        try:
            g.finalize_structure()
        except Exception:
            pass
    before = [np.array(o.value()) for o in objs]
    p3 = bool(s.draw(2))
    dim = 3 if p3 else 2
    pc = bool(s.draw(2))
    meas, betw = not s.chance(1, 4), not s.chance(1, 4)
    given = bool(s.draw(2))
    s.note("%s | %s | 3d=%s cov=%s optimizer=%s measurements=%s between=%s axis %s" % (
        ", ".join(map(str, vs)), "; ".join(map(str, fs)), p3, pc, opt is not None, meas, betw, "given" if given else "created"))
    ax = None
    old = []
    if given:
        fig = plt.figure()
        ax = fig.add_subplot(111, projection="3d") if p3 else fig.add_subplot(111)
        if s.draw(2):
            ax.plot([1, 2], [3, 4], **({"zs": [5, 6]} if p3 else {}))
        if s.draw(2):
            ax.scatter([7.0], [8.0], label="mine")
        old = list(ax.lines) + list(ax.collections) + list(ax.patches)
    nfig = len(plt.get_fignums())
    kw = {}
    if given or s.draw(2):
        kw["axis_handle"] = ax
    if pc or s.draw(2):
        kw["plot_covariance"] = pc
    if opt is not None or s.draw(2):
        kw["optimizer"] = opt
    if not p3 or s.draw(2):
        kw["plot_3d"] = p3
    if not meas or s.draw(2):
        kw["plot_measurements"] = meas
    if not betw or s.draw(2):
        kw["plot_between_factors"] = betw
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        names = ["axis_handle", "plot_covariance", "optimizer", "plot_3d", "plot_measurements", "plot_between_factors"]
        if s.chance(1, 3):
            full = {"axis_handle": ax, "plot_covariance": pc, "optimizer": opt, "plot_3d": p3, "plot_measurements": meas, "plot_between_factors": betw}
            r = fg.PlotFactorGraph(g, *[full[n] for n in names])
        elif s.draw(2):
            r = fg.PlotFactorGraph(g, **kw)
        else:
            r = fg.PlotFactorGraph(factor_graph=g, **kw)
    if given:
        need(r is ax, "the axis returned is not the one given")
        need(len(plt.get_fignums()) == nfig, "a figure was created although an axis was given")
    else:
        need(len(plt.get_fignums()) == nfig + 1, "no figure (or more than one) was created")
        need(r is plt.figure(plt.get_fignums()[-1]).axes[0], "the axis returned is not the created one")
        need((getattr(r, "name", "") == "3d") == p3, "the created axis is a %s one" % r.name)
        ax = r
    # nothing of the graph changed
    for v, o, b in zip(vs, objs, before):
        need(np.array_equal(np.asarray(o.value()), b), "plotting changed variable %d" % v.id)
        need(o.is_constant() is v.const, "plotting changed the flag of variable %d" % v.id)
    need([v.id() for v in g.get_all_variables()] == [v.id for v in vs], "plotting changed the graph's variables")
    # what is on the axis
    everything = list(ax.lines) + list(ax.collections) + list(ax.patches)
    for a in old:
        need(any(a is e for e in everything), "plotting removed what was on the axis")
    new = [e for e in everything if not any(e is a for a in old)]
    lines = [e for e in new if e in list(ax.lines)]
    colls = [e for e in new if e in list(ax.collections)]
    patches = [e for e in new if e in list(ax.patches)]
    # markers
    got = {}
    for c in colls:
        if isinstance(c, PathCollection):
            if p3:
                pts = np.array([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in c._offsets3d]).T
            else:
                pts = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
            got.setdefault(c.get_label(), []).extend(list(pts))
    want = {}
    for v in vs:
        if v.kind in (POSE, LM, POSE2) or (v.kind == GEN and v.size == 2):
            n = 3 if v.kind in (POSE, LM) else 2
            want.setdefault(MARK[v.kind], []).append(pad(v.x[:n], dim))
    need(set(got) == set(want), "marker groups %s, expected %s" % (sorted(got), sorted(want)))
    for k in want:
        same_sets(got[k], want[k], 1e-9, "markers (%s)" % k)
    # lines
    check_lines(lines, vs, fs, dim, meas, betw)
    # orientation
    if p3:
        arrows = []
        for c in colls:
            if isinstance(c, Line3DCollection):
                col = tuple(np.round(np.ravel(c.get_color())[:3], 3))
                segs = [np.asarray(x, float) for x in c._segments3d]
                # a quiver's shaft and head: the longest segment is the shaft
                k = {(1.0, 0.0, 0.0): 0, (0.0, 0.502, 0.0): 1, (0.0, 1.0, 0.0): 1, (0.0, 0.0, 1.0): 2}.get(col)
                need(k is not None, "an arrow of colour %s" % (col,))
                nq = len(segs) // 3
                need(len(segs) == 3 * nq and nq, "an arrow collection of %d segments" % len(segs))
                order = sorted(segs, key=lambda y: -np.linalg.norm(y[1] - y[0]))
                heads = [e for y in order[nq:] for e in (y[0], y[1])]
                for x in order[:nq]:  # the head's lines meet at the tip
                    near = [sum(np.abs(e - x[j]).max() < 1e-9 for e in heads) for j in (0, 1)]
                    need(max(near) >= 2, "an arrow without a head")
                    tip = int(np.argmax(near))
                    arrows.append((k, x[1 - tip], x[tip] - x[1 - tip]))
        exp = [(k, v.x[:3], v.R.T[:, k]) for v in vs if v.kind == POSE for k in range(3)]
        same_sets([np.concatenate([[k], p, M.unit(d)]) for k, p, d in arrows], [np.concatenate([[k], p, d]) for k, p, d in exp], 1e-6, "pose arrows (axis, from, direction)")
        if arrows:
            ls = [np.linalg.norm(d) for _, _, d in arrows]
            need(min(ls) > 1e-3 and max(ls) - min(ls) < 1e-6 * max(ls), "arrow lengths %s" % ls)
    else:
        need(not any(isinstance(c, Line3DCollection) for c in colls), "3D arrows on a 2D plot")
        arr = []
        for p in patches:
            if isinstance(p, FancyArrow):
                arr.append(np.asarray(p.get_xy(), float))
        poses = [v for v in vs if v.kind == POSE2]
        need(len(arr) == len(poses), "%d arrows for %d 2D poses" % (len(arr), len(poses)))
        left = list(arr)
        for v in poses:
            u = np.array([np.cos(v.x[2]), np.sin(v.x[2])])
            n = np.array([-u[1], u[0]])
            hit = None
            for i, xy in enumerate(left):
                d = xy - v.x[:2]
                al, ac = d @ u, d @ n
                L = al.max()
                # starts at the pose, is symmetric about the heading and its tip is on it
                if L > 1e-3 and abs(al.min()) < 1e-6 * (1 + L) and abs(ac.max() + ac.min()) < 1e-6 * (1 + L) and ac.max() < 0.5 * L and \
                        abs(ac[np.argmax(al)]) < 1e-6 * (1 + L):
                    hit = i
                    break
            need(hit is not None, "no arrow from %s along heading %g" % (v.x[:2], v.x[2]))
            del left[hit]
    # covariances
    outlines = []
    if pc and opt is not None:
        opt.prepare_to_estimate_covariances()
        for v, o in zip(vs, objs):
            n = {POSE: 3, LM: 3, POSE2: 2}.get(v.kind, 2 if v.kind == GEN and v.size == 2 else 0)
            if n and (n == 3 or not p3):
                cov, ok = opt.estimate_covariance(o)
                need(not (ok and v.const), "a constant has a covariance")
                if ok:
                    outlines.append((v, pad(v.x[:n], dim), np.asarray(cov)[:dim, :dim]))
    if p3:
        surf = [c for c in colls if isinstance(c, Poly3DCollection)]
        need(len(surf) == len(outlines), "%d ellipsoids drawn, expected %d" % (len(surf), len(outlines)))
        pts = [np.asarray(c._vec, float)[:3].T for c in surf]
        for v, c0, S in outlines:
            w, U = np.linalg.eigh(S)
            hit = None
            for i, q in enumerate(pts):
                if not np.all(np.isfinite(q)):
                    continue
                t = (q - c0) @ U / np.sqrt(w)
                r = np.linalg.norm(t, axis=1)
                if np.abs(r - 1).max() < 1e-5 and t.max(axis=0).min() > 0.9 and t.min(axis=0).max() < -0.9:
                    hit = i
                    break
            need(hit is not None, "no ellipsoid around variable %d at %s for the covariance %s" % (v.id, c0, S.tolist()))
            del pts[hit]
        s.label("3D outlines", ) if outlines else None
    else:
        els = [p for p in patches if isinstance(p, Ellipse)]
        got = []
        for e in els:
            a = np.radians(e.get_angle())
            U = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            S = U @ np.diag([(e.get_width() / 2) ** 2, (e.get_height() / 2) ** 2]) @ U.T
            got.append((np.array(e.get_center(), float), S))
        need(len(got) == len(outlines), "%d ellipses drawn, expected %d" % (len(got), len(outlines)))
        for v, c0, S in outlines:
            hit = [i for i, (c, T) in enumerate(got) if np.abs(c - c0).max() < 1e-9 * (1 + np.abs(c0).max()) and np.abs(T - S).max() < 1e-6 * np.abs(S).max()]
            need(hit, "no ellipse around variable %d at %s for the covariance %s: drawn %s" % (v.id, c0, S.tolist(), [(c.tolist(), T.tolist()) for c, T in got]))
            del got[hit[0]]
        s.label("2D outlines") if outlines else None
    # every plottable thing is inside the view
    if want:
        allp = np.array([p for k in want for p in want[k]])
        lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if p3 else [])
        for d in range(dim):
            lo, hi = min(lim[d]), max(lim[d])
            need(allp[:, d].min() >= lo - 1e-6 * (1 + abs(lo)) and allp[:, d].max() <= hi + 1e-6 * (1 + abs(hi)), "markers outside the limits %s of axis %d" % (lim[d], d))
        # to one scale
        if p3:
            r = max(np.ptp(allp[:, d]) for d in range(3))
            spans = [abs(l[1] - l[0]) for l in lim]
            need(r < 1e-6 * (1 + np.abs(allp).max()) or max(spans) - min(spans) < 1e-6 * max(spans), "the axes show %s" % spans)
            need(r < 1e-6 * (1 + np.abs(allp).max()) or max(spans) < 1.5 * r, "the axes show %s of a scene that spans %g" % (spans, r))
    if not p3:
        need(ax.get_aspect() in ("equal", 1, 1.0), "the axes of a 2D plot have the aspect %s" % ax.get_aspect())
    # every kind drawn has its entry in the legend
    leg = ax.get_legend()
    named = [x.get_text() for x in leg.get_texts()] if leg is not None else []
    kinds = list(want) + [l.get_label() for l in lines if not l.get_label().startswith("_")]
    for k in kinds:
        need(named.count(k) == 1, "%s are drawn, the legend has %s" % (k, named))
    plt.close("all")
    s.nontrivial = bool(want)
    s.label("%s, %s" % ("3D" if p3 else "2D", "optimized" if opt is not None else "not optimized"))


def replay(d):
    return common.replay_file(globals(), d)


if __name__ == "__main__":
    common.main(globals())
