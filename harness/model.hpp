// Specifications of variables, factors and graphs; how to build the real objects from them; and the
// reference model of every factor's residual.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <factorama/base_types.hpp>
#include <factorama/bearing_observation_factor.hpp>
#include <factorama/bearing_observation_factor_2d.hpp>
#include <factorama/bearing_projection_factor_2d.hpp>
#include <factorama/coordinate_transform_factor.hpp>
#include <factorama/factor_graph.hpp>
#include <factorama/generic_between_factor.hpp>
#include <factorama/generic_prior_factor.hpp>
#include <factorama/generic_variable.hpp>
#include <factorama/inverse_range_bearing_factor.hpp>
#include <factorama/inverse_range_variable.hpp>
#include <factorama/landmark_variable.hpp>
#include <factorama/linear_velocity_factor.hpp>
#include <factorama/numerical_jacobian.hpp>
#include <factorama/plane_factor.hpp>
#include <factorama/plane_prior_factor.hpp>
#include <factorama/plane_variable.hpp>
#include <factorama/pose_2d_between_factor.hpp>
#include <factorama/pose_2d_prior_factor.hpp>
#include <factorama/pose_2d_variable.hpp>
#include <factorama/pose_between_factors.hpp>
#include <factorama/pose_prior_factors.hpp>
#include <factorama/pose_variable.hpp>
#include <factorama/random_utils.hpp>
#include <factorama/range_bearing_factor_2d.hpp>
#include <factorama/rotation_prior_factor.hpp>
#include <factorama/rotation_variable.hpp>
#include <factorama/sparse_optimizer.hpp>

namespace fg = factorama;
using pbt::Cat;
using pbt::Ctx;
using pbt::Discard;
using pbt::Src;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;

enum VK
{
    POSE,
    LM,
    ROT,
    INV,
    GEN,
    PLANE,
    POSE2,
    NUM_VK
};
inline const char *vk_name(VK k)
{
    static const char *n[] = {"Pose", "Landmark", "Rotation", "InverseRange", "Generic", "Plane", "Pose2D"};
    return n[k];
}

struct VarSpec
{
    VK k = GEN;
    int id = 0;
    std::vector<double> x; // value; for INV: {range}; for ROT: rotation vector
    std::vector<double> extra; // INV: origin(3), bearing(3)
    bool constant = false;
    bool via_dcm = false; // POSE: use the matrix constructor
};

enum FK
{
    F_BEARING,
    F_PROJ,
    F_INVB,
    F_PRIOR,
    F_BETWEEN,
    F_VELOCITY,
    F_POSPRIOR,
    F_ORIPRIOR,
    F_ROTPRIOR,
    F_POSBETWEEN,
    F_ORIBETWEEN,
    F_PLANE,
    F_PLANEPRIOR,
    F_BEARING2,
    F_RB2,
    F_P2PRIOR,
    F_P2BETWEEN,
    F_COORD,
    NUM_FK
};
inline const char *fk_name(FK k)
{
    static const char *n[] = {"BearingObservation", "BearingProjection2D", "InverseRangeBearing", "GenericPrior",
                              "GenericBetween", "LinearVelocity", "PosePositionPrior", "PoseOrientationPrior",
                              "RotationPrior", "PosePositionBetween", "PoseOrientationBetween", "Plane", "PlanePrior",
                              "BearingObservation2D", "RangeBearing2D", "Pose2DPrior", "Pose2DBetween",
                              "CoordinateTransform"};
    return n[k];
}

struct FacSpec
{
    FK k = F_PRIOR;
    int id = 0;
    std::vector<int> v;    // indices into the variable list
    std::vector<double> a; // measurement: vectors, angles; orientation priors: rotation vector
    double s1 = 1, s2 = 1;
    bool flag = false; // local frame / distance scaling
    double d1 = 0;     // dt / r0 / eps
    std::vector<double> b; // p0 of the scaled plane factor
    int idx0 = 0;
};

struct GraphSpec
{
    std::vector<VarSpec> vars;
    std::vector<FacSpec> facs;
};

template <typename T>
inline void show(std::ostream& o, const std::vector<T>& v)
{
    o << "[";
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    o << "]";
}
inline void show(std::ostream& o, const VarSpec& v)
{
    o << vk_name(v.k) << "#" << v.id;
    show(o, v.x);
    if (!v.extra.empty()) {
        o << "@";
        show(o, v.extra);
    }
    if (v.constant) o << " const";
}
inline void show(std::ostream& o, const FacSpec& f)
{
    o << fk_name(f.k) << "#" << f.id << " vars";
    show(o, f.v);
    o << " meas";
    show(o, f.a);
    o << " sigma " << f.s1;
    if (f.k == F_PLANEPRIOR || f.k == F_RB2 || f.k == F_P2PRIOR || f.k == F_P2BETWEEN) o << "/" << f.s2;
    if (f.flag) o << " flag";
    if (f.k == F_VELOCITY) o << " dt " << f.d1 << " from " << f.idx0;
    if (f.k == F_PROJ) o << " eps " << f.d1;
    if (f.k == F_PLANE && f.flag) {
        o << " r0 " << f.d1 << " p0";
        show(o, f.b);
    }
}
inline void show(std::ostream& o, const GraphSpec& g)
{
    for (auto& v : g.vars) {
        show(o, v);
        o << "; ";
    }
    for (auto& f : g.facs) {
        show(o, f);
        o << "; ";
    }
}

inline Vec evec(const std::vector<double>& x)
{
    Vec v(static_cast<Eigen::Index>(x.size()));
    for (size_t i = 0; i < x.size(); i++) v[static_cast<Eigen::Index>(i)] = x[i];
    return v;
}
inline std::vector<double> svec(const Vec& v)
{
    return std::vector<double>(v.data(), v.data() + v.size());
}
inline Eigen::Vector3d e3(const std::vector<double>& x, size_t o = 0)
{
    return Eigen::Vector3d(x[o], x[o + 1], x[o + 2]);
}
inline ref::V3 r3(const Eigen::Vector3d& v) { return ref::vec(v[0], v[1], v[2]); }
inline ref::V3 r3(const std::vector<double>& v, size_t o = 0) { return ref::vec(v[o], v[o + 1], v[o + 2]); }
// A rotation matrix rounded from the reference exponential
inline Eigen::Matrix3d dcm_of(const std::vector<double>& rotvec, size_t o = 0)
{
    ref::M3 A = ref::exp3(r3(rotvec, o));
    Eigen::Matrix3d M;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) M(i, j) = static_cast<double>(A.m[i][j]);
    return M;
}
inline ref::M3 rmat(const Eigen::Matrix3d& M)
{
    ref::M3 A;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) A.m[i][j] = M(i, j);
    return A;
}

using VarPtr = std::shared_ptr<fg::Variable>;
using FacPtr = std::shared_ptr<fg::Factor>;

inline VarPtr make_var(const VarSpec& v)
{
    VarPtr p;
    switch (v.k) {
    case POSE:
        if (v.via_dcm) {
            p = std::make_shared<fg::PoseVariable>(v.id, e3(v.x), dcm_of(v.x, 3));
        } else {
            Eigen::Matrix<double, 6, 1> x = evec(v.x);
            p = std::make_shared<fg::PoseVariable>(v.id, x);
        }
        break;
    case LM: p = std::make_shared<fg::LandmarkVariable>(v.id, e3(v.x)); break;
    case ROT: p = std::make_shared<fg::RotationVariable>(v.id, dcm_of(v.x)); break;
    case INV: p = std::make_shared<fg::InverseRangeVariable>(v.id, e3(v.extra), e3(v.extra, 3), v.x[0]); break;
    case GEN: p = std::make_shared<fg::GenericVariable>(v.id, evec(v.x)); break;
    case PLANE: p = std::make_shared<fg::PlaneVariable>(v.id, e3(v.x), v.x[3]); break;
    case POSE2: p = std::make_shared<fg::Pose2DVariable>(v.id, e3(v.x)); break;
    default: pbt::fail("bad kind");
    }
    if (v.constant) p->set_constant(true);
    return p;
}

template <typename T>
inline T *as(const VarPtr& p)
{
    return dynamic_cast<T *>(p.get());
}

inline FacPtr make_factor(const FacSpec& f, const std::vector<VarPtr>& vs)
{
    auto V = [&](int i) -> const VarPtr& { return vs[static_cast<size_t>(f.v[static_cast<size_t>(i)])]; };
    auto P = [&](int i) { return as<fg::PoseVariable>(V(i)); };
    auto L = [&](int i) { return as<fg::LandmarkVariable>(V(i)); };
    auto G = [&](int i) { return as<fg::GenericVariable>(V(i)); };
    auto Rv = [&](int i) { return as<fg::RotationVariable>(V(i)); };
    auto P2 = [&](int i) { return as<fg::Pose2DVariable>(V(i)); };
    auto Pl = [&](int i) { return as<fg::PlaneVariable>(V(i)); };
    switch (f.k) {
    case F_BEARING: return std::make_shared<fg::BearingObservationFactor>(f.id, P(0), L(1), e3(f.a), f.s1);
    case F_PROJ: return std::make_shared<fg::BearingProjectionFactor2D>(f.id, P(0), L(1), e3(f.a), f.s1, f.d1);
    case F_INVB:
        return std::make_shared<fg::InverseRangeBearingFactor>(f.id, P(0), as<fg::InverseRangeVariable>(V(1)), e3(f.a),
                                                               f.s1);
    case F_PRIOR: return std::make_shared<fg::GenericPriorFactor>(f.id, V(0).get(), evec(f.a), f.s1);
    case F_BETWEEN:
        return std::make_shared<fg::GenericBetweenFactor>(f.id, V(0).get(), V(1).get(), V(2).get(), f.s1);
    case F_VELOCITY:
        return std::make_shared<fg::LinearVelocityFactor>(f.id, V(0).get(), V(1).get(), V(2).get(), f.d1, f.s1,
                                                          f.idx0);
    case F_POSPRIOR: return std::make_shared<fg::PosePositionPriorFactor>(f.id, P(0), e3(f.a), f.s1);
    case F_ORIPRIOR: return std::make_shared<fg::PoseOrientationPriorFactor>(f.id, P(0), dcm_of(f.a), f.s1);
    case F_ROTPRIOR: return std::make_shared<fg::RotationPriorFactor>(f.id, Rv(0), dcm_of(f.a), f.s1);
    case F_POSBETWEEN:
        return std::make_shared<fg::PosePositionBetweenFactor>(f.id, P(0), P(1), V(2).get(), f.s1, f.flag);
    case F_ORIBETWEEN: return std::make_shared<fg::PoseOrientationBetweenFactor>(f.id, P(0), P(1), Rv(2), f.s1);
    case F_PLANE:
        if (f.flag)
            return std::make_shared<fg::PlaneFactor>(f.id, V(0).get(), Pl(1), f.s1, true, f.d1, e3(f.b));
        return std::make_shared<fg::PlaneFactor>(f.id, V(0).get(), Pl(1), f.s1);
    case F_PLANEPRIOR: return std::make_shared<fg::PlanePriorFactor>(f.id, Pl(0), e3(f.a), f.a[3], f.s1, f.s2);
    case F_BEARING2:
        return std::make_shared<fg::BearingObservationFactor2D>(f.id, P2(0), V(1).get(), f.a[0], f.s1);
    case F_RB2:
        return std::make_shared<fg::RangeBearingFactor2D>(f.id, P2(0), V(1).get(), f.a[0], f.a[1], f.s1, f.s2);
    case F_P2PRIOR: return std::make_shared<fg::Pose2DPriorFactor>(f.id, P2(0), e3(f.a), f.s1, f.s2);
    case F_P2BETWEEN:
        return std::make_shared<fg::Pose2DBetweenFactor>(f.id, P2(0), P2(1), V(2).get(), f.s1, f.s2, f.flag);
    case F_COORD:
        return std::make_shared<fg::CoordinateTransformFactor>(f.id, Rv(0), G(1), G(2), L(3), L(4), f.s1);
    default: pbt::fail("bad factor kind");
    }
}

struct Built
{
    std::vector<VarPtr> vars;
    std::vector<FacPtr> facs;
    std::shared_ptr<fg::FactorGraph> graph;
};

inline Built build(const GraphSpec& g, bool finalize = true)
{
    Built b;
    b.graph = std::make_shared<fg::FactorGraph>();
    for (auto& v : g.vars) {
        b.vars.push_back(make_var(v));
        b.graph->add_variable(b.vars.back());
    }
    for (auto& f : g.facs) {
        b.facs.push_back(make_factor(f, b.vars));
        b.graph->add_factor(b.facs.back());
    }
    if (finalize) b.graph->finalize_structure();
    return b;
}

// ---------------------------------------------------------------- reference state and residuals
using ref::R;
using ref::V3;

struct State
{
    VK k = GEN;
    std::vector<R> x;  // value; rotations live in rot
    ref::M3 rot;       // POSE, ROT
    V3 origin, bearing; // INV
    int dof() const { return k == POSE ? 6 : k == ROT ? 3 : static_cast<int>(x.size()); }
};

// The state a variable publishes through value()
inline State state_of(const VarSpec& spec, const fg::Variable& v)
{
    State s;
    s.k = spec.k;
    const Vec& x = v.value();
    for (Eigen::Index i = 0; i < x.size(); i++) s.x.push_back(x[i]);
    if (s.k == POSE) s.rot = ref::exp3(ref::vec(x[3], x[4], x[5]));
    if (s.k == ROT) s.rot = rmat(dynamic_cast<const fg::RotationVariable&>(v).rotation());
    if (s.k == INV) {
        auto& iv = dynamic_cast<const fg::InverseRangeVariable&>(v);
        s.origin = r3(iv.origin_pos_W());
        s.bearing = r3(iv.bearing_W());
    }
    return s;
}

// Move along the variable's own increment number i by h
inline State moved(State s, int i, R h)
{
    if (s.k == POSE && i >= 3) {
        V3 d;
        d[i - 3] = h;
        s.rot = ref::exp3(d) * s.rot;
    } else if (s.k == ROT) {
        V3 d;
        d[i] = h;
        s.rot = ref::exp3(d) * s.rot;
    } else {
        s.x[static_cast<size_t>(i)] += h;
        if (s.k == PLANE) {
            V3 n = ref::unit(ref::vec(s.x[0], s.x[1], s.x[2]));
            for (int j = 0; j < 3; j++) s.x[static_cast<size_t>(j)] = n[j];
        }
    }
    return s;
}

struct Residual
{
    std::vector<R> r;      // unweighted error
    std::vector<R> w;      // weight of each row
    std::vector<R> period; // rows that are angles: 2 pi; else 0
    bool rotlog = false;   // rows 0..2 are a rotation vector
    bool flat = false;     // deliberately down-weighted region: residual constant, Jacobian zero
    R scale = 1;           // magnitude of the numbers that were subtracted: for rounding tolerances
    R turns = 0;           // size of the angle that was measured
    R dist = 1;            // distance that a direction was normalised by
    size_t size() const { return r.size(); }
    R weighted(size_t i) const { return r[i] * w[i]; }
};

// Variants: how the local-frame 2D between factor rotates (see known_findings: the pinned tests fix
// the rotation the wrong way round).
enum LocalFrame
{
    LF_DOCUMENTED,
    LF_PINNED
};

struct Basis // tangent basis of the projection factor; recovered from the library by probing
{
    V3 t1, t2;
};

inline Residual residual_of(const FacSpec& f, const std::vector<State>& st, LocalFrame lf = LF_DOCUMENTED,
                            const Basis *basis = nullptr)
{
    auto S = [&](int i) -> const State& { return st[static_cast<size_t>(f.v[static_cast<size_t>(i)])]; };
    auto pos = [&](int i) { return ref::vec(S(i).x[0], S(i).x[1], S(i).x[2]); };
    Residual o;
    const R w1 = 1 / static_cast<R>(f.s1), w2 = 1 / static_cast<R>(f.s2);
    auto push = [&](R v, R w, R period = 0) {
        o.r.push_back(v);
        o.w.push_back(w);
        o.period.push_back(period);
    };
    auto mag = [&](V3 v) {
        for (int i = 0; i < 3; i++) o.scale = std::max(o.scale, std::fabs(v[i]));
    };
    auto wv = [&](V3 v) {
        for (int i = 0; i < 3; i++) push(v[i], w1);
    };
    switch (f.k) {
    case F_BEARING:
    case F_PROJ:
    case F_INVB: {
        V3 t = pos(0), l;
        if (f.k == F_INVB)
            l = S(1).origin + (1 / S(1).x[0]) * S(1).bearing;
        else
            l = pos(1);
        mag(t);
        mag(l);
        if (f.k == F_INVB) {
            mag(S(1).origin);
            mag((1 / S(1).x[0]) * S(1).bearing);
        }
        V3 pc = S(0).rot * (l - t);
        o.dist = ref::norm(pc);
        if (o.dist == 0) throw Discard{};
        V3 b = (1 / o.dist) * pc;
        V3 m = ref::unit(r3(f.a));
        if (f.k == F_PROJ) {
            o.flat = ref::dot(m, b) <= f.d1;
            if (basis) {
                push(ref::dot(basis->t1, b), w1);
                push(ref::dot(basis->t2, b), w1);
            }
        } else {
            wv(b - m);
        }
        break;
    }
    case F_PRIOR:
        for (size_t i = 0; i < f.a.size(); i++) {
            push(S(0).x[i] - f.a[i], w1);
            o.scale = std::max({o.scale, std::fabs(S(0).x[i]), std::fabs(static_cast<R>(f.a[i]))});
        }
        break;
    case F_BETWEEN:
        for (size_t i = 0; i < S(0).x.size(); i++) {
            push(S(1).x[i] - S(0).x[i] - S(2).x[i], w1);
            o.scale = std::max({o.scale, std::fabs(S(0).x[i]), std::fabs(S(1).x[i]), std::fabs(S(2).x[i])});
        }
        break;
    case F_VELOCITY:
        for (size_t i = 0; i < S(2).x.size(); i++) {
            size_t j = i + static_cast<size_t>(f.idx0);
            push(S(1).x[j] - S(0).x[j] - S(2).x[i] * f.d1, w1);
            o.scale =
                std::max({o.scale, std::fabs(S(0).x[j]), std::fabs(S(1).x[j]), std::fabs(S(2).x[i] * f.d1)});
        }
        break;
    case F_POSPRIOR:
        wv(pos(0) - r3(f.a));
        mag(pos(0));
        mag(r3(f.a));
        break;
    case F_ORIPRIOR:
    case F_ROTPRIOR: {
        wv(ref::log3(S(0).rot * ref::tr(rmat(dcm_of(f.a)))));
        o.rotlog = true;
        break;
    }
    case F_ORIBETWEEN:
        wv(ref::log3(S(1).rot * (ref::tr(S(0).rot) * S(2).rot)));
        o.rotlog = true;
        break;
    case F_POSBETWEEN: {
        V3 d = pos(1) - pos(0), m = pos(2);
        mag(pos(0));
        mag(pos(1));
        mag(m);
        wv(f.flag ? S(0).rot * d - m : d - m);
        break;
    }
    case F_PLANE: {
        V3 p = pos(0), n = ref::vec(S(1).x[0], S(1).x[1], S(1).x[2]);
        R d = ref::dot(n, p) + S(1).x[3];
        mag(p);
        o.scale = std::max(o.scale, std::fabs(S(1).x[3]));
        if (f.flag) {
            mag(r3(f.b));
            d /= 1 + ref::norm(p - r3(f.b)) / static_cast<R>(f.d1);
        }
        push(d, w1);
        break;
    }
    case F_PLANEPRIOR: {
        V3 n = ref::vec(S(0).x[0], S(0).x[1], S(0).x[2]);
        V3 e = n - ref::unit(r3(f.a));
        wv(e - ref::dot(n, e) * n);
        push(S(0).x[3] - f.a[3], w2);
        o.scale = std::max({o.scale, std::fabs(S(0).x[3]), std::fabs(static_cast<R>(f.a[3]))});
        break;
    }
    case F_BEARING2:
    case F_RB2: {
        R dx = S(1).x[0] - S(0).x[0], dy = S(1).x[1] - S(0).x[1];
        for (int i = 0; i < 2; i++)
            o.scale = std::max({o.scale, std::fabs(S(0).x[static_cast<size_t>(i)]), std::fabs(S(1).x[static_cast<size_t>(i)])});
        o.dist = std::sqrt(dx * dx + dy * dy);
        if (o.dist == 0) throw Discard{};
        R ang = std::atan2(dy, dx) - S(0).x[2];
        o.turns = std::fabs(static_cast<R>(f.a.back()));
        if (f.k == F_BEARING2) {
            push(ref::wrap(ang - f.a[0]), w1, 2 * ref::PI);
        } else {
            push(o.dist - f.a[0], w1);
            push(ref::wrap(ang - f.a[1]), w2, 2 * ref::PI);
        }
        break;
    }
    case F_P2PRIOR:
        push(S(0).x[0] - f.a[0], w1);
        push(S(0).x[1] - f.a[1], w1);
        push(ref::wrap(S(0).x[2] - f.a[2]), w2, 2 * ref::PI);
        o.turns = std::fabs(static_cast<R>(f.a[2]));
        for (int i = 0; i < 2; i++)
            o.scale = std::max({o.scale, std::fabs(S(0).x[static_cast<size_t>(i)]), std::fabs(static_cast<R>(f.a[static_cast<size_t>(i)]))});
        break;
    case F_P2BETWEEN: {
        R dx = S(1).x[0] - S(0).x[0], dy = S(1).x[1] - S(0).x[1];
        for (int v = 0; v < 3; v++)
            for (size_t i = 0; i < 2; i++) o.scale = std::max(o.scale, std::fabs(S(v).x[i]));
        if (f.flag) {
            R c = std::cos(S(0).x[2]), s = std::sin(S(0).x[2]);
            if (lf == LF_PINNED) s = -s;
            R lx = c * dx + s * dy, ly = -s * dx + c * dy;
            dx = lx;
            dy = ly;
        }
        push(dx - S(2).x[0], w1);
        push(dy - S(2).x[1], w1);
        push(ref::wrap(S(1).x[2] - S(0).x[2] - S(2).x[2]), w2, 2 * ref::PI);
        o.turns = std::fabs(S(2).x[2]);
        break;
    }
    case F_COORD: {
        V3 lb = S(0).rot * pos(4);
        V3 e = pos(3) - (S(2).x[0] * lb - pos(1));
        mag(pos(3));
        mag(pos(1));
        mag(S(2).x[0] * lb);
        wv(e);
        break;
    }
    default: pbt::fail("bad factor kind");
    }
    return o;
}

inline std::vector<State> states_of(const GraphSpec& g, const std::vector<VarPtr>& vars)
{
    std::vector<State> s;
    for (size_t i = 0; i < vars.size(); i++) s.push_back(state_of(g.vars[i], *vars[i]));
    return s;
}

// Tangent basis of a projection factor with this measurement, recovered by probing the library:
// with an identity pose at the origin the residual is T^T l/|l| / sigma.
inline Basis probe_basis(const FacSpec& f)
{
    Eigen::Matrix<double, 6, 1> z = Eigen::Matrix<double, 6, 1>::Zero();
    fg::PoseVariable pose(1, z);
    fg::LandmarkVariable lm(2, Eigen::Vector3d::UnitX());
    fg::BearingProjectionFactor2D fac(3, &pose, &lm, e3(f.a), 1.0, 1e-6);
    V3 b = ref::unit(r3(f.a));
    Basis B;
    for (int i = 0; i < 3; i++) {
        V3 d = b;
        d[i] += (d[i] >= 0 ? 0.5L : -0.5L);
        R n = ref::norm(d);
        lm.set_pos_W(Eigen::Vector3d(static_cast<double>(d[0]), static_cast<double>(d[1]), static_cast<double>(d[2])));
        Vec r = fac.compute_residual();
        // T^T d = n r, and T^T b = 0, so the i-th column of T^T is (n r) / (+-0.5)
        R h = d[i] - b[i];
        B.t1[i] = n * r[0] / h;
        B.t2[i] = n * r[1] / h;
    }
    return B;
}

inline bool close(R a, R b, R tol) { return std::fabs(a - b) <= tol; }

inline double maxabs(const Mat& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }

// Everything observable about a variable
struct Obs
{
    std::vector<double> num;
    std::string txt;
    bool operator==(const Obs& o) const { return num == o.num && txt == o.txt; }
};
inline Obs observe(const fg::Variable& v)
{
    Obs o;
    o.txt = v.name() + "/" + std::to_string(v.id()) + "/" + std::to_string(v.type()) + "/" + std::to_string(v.size()) + "/" +
            (v.is_constant() ? "c" : "f");
    auto add = [&](const auto& m) {
        for (Eigen::Index j = 0; j < m.cols(); j++)
            for (Eigen::Index i = 0; i < m.rows(); i++) o.num.push_back(m(i, j));
    };
    add(v.value());
    if (auto *p = dynamic_cast<const fg::PoseVariable *>(&v)) add(p->dcm_CW());
    if (auto *p = dynamic_cast<const fg::RotationVariable *>(&v)) add(p->rotation());
    if (auto *p = dynamic_cast<const fg::Pose2DVariable *>(&v)) add(p->dcm_2d());
    if (auto *p = dynamic_cast<const fg::PlaneVariable *>(&v)) {
        add(p->unit_vector());
        o.num.push_back(p->distance_from_origin());
    }
    if (auto *p = dynamic_cast<const fg::InverseRangeVariable *>(&v)) {
        add(p->origin_pos_W());
        add(p->bearing_W());
        o.num.push_back(p->minimum_inverse_range_);
        o.num.push_back(p->maximum_inverse_range_);
        o.num.push_back(p->inverse_range());
    }
    return o;
}
