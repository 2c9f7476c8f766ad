// P05-P07: factors. P20: the Huber kernel.
#include "gen.hpp"
#include <factorama/kernels.hpp>

using namespace ref;
static const char *LOCAL2D = "pose2d-between-local-frame";

namespace
{
    // Rounding allowance, per row, of an unweighted residual
    R row_tol(const FacSpec& f, const Residual& m, const std::vector<State>& st, size_t i)
    {
        if (m.rotlog) {
            R t = 0;
            for (auto& x : st) t += log_tol(norm(log3(x.rot))) * 3;
            if (f.a.size() == 3) t += log_tol(norm(log3(exp3(r3(f.a))))) * 3;
            return t + log_tol(std::sqrt(m.r[0] * m.r[0] + m.r[1] * m.r[1] + m.r[2] * m.r[2])) + 1e-13L;
        }
        switch (f.k) {
        case F_BEARING:
        case F_PROJ:
        case F_INVB: return 4e-15L * (2 + 4 * m.scale / m.dist);
        case F_BEARING2: return 1e-15L * (40 + m.turns + 8 * m.scale / m.dist);
        case F_RB2: return i == 0 ? 4e-15L * (m.scale + std::fabs(static_cast<R>(f.a[0]))) : 1e-15L * (40 + m.turns + 8 * m.scale / m.dist);
        default: return 2e-14L * (1 + m.scale) + (m.period[i] > 0 ? 4e-14L + 1e-15L * m.turns : 0);
        }
    }
    // Does the library's residual agree with the model's?
    bool agrees(const FacSpec& f, const Residual& m, const std::vector<State>& st, const Vec& r, std::string& why)
    {
        std::ostringstream o;
        o.precision(17);
        if (r.size() != static_cast<Eigen::Index>(m.size())) {
            o << "residual has " << r.size() << " entries instead of " << m.size();
            why = o.str();
            return false;
        }
        if (m.rotlog) {
            V3 want = vec(m.r[0], m.r[1], m.r[2]), got = vec(r[0] / m.w[0], r[1] / m.w[1], r[2] / m.w[2]);
            R d = norm(got - want), tol = row_tol(f, m, st, 0);
            if (norm(want) > PI - 1e-6L) d = std::min(d, norm(got + want));
            if (norm(want) > PI - 1e-6L) tol += 4e-6L;
            if (!(d <= tol) || norm(got) > PI + 1e-9L) {
                o << "orientation error " << show3(got) << " instead of " << show3(want);
                why = o.str();
                return false;
            }
            return true;
        }
        for (size_t i = 0; i < m.size(); i++) {
            R got = r[static_cast<Eigen::Index>(i)] / m.w[i];
            R d = m.period[i] > 0 ? angdist(got, m.r[i]) : std::fabs(got - m.r[i]);
            if (!(d <= row_tol(f, m, st, i)) || (m.period[i] > 0 && !(std::fabs(got) <= PI + 1e-12L))) {
                o << "residual row " << i << " is " << r[static_cast<Eigen::Index>(i)] << " instead of " << m.r[i] * m.w[i] << " (unweighted error " << got
                  << " instead of " << m.r[i] << ", allowance " << row_tol(f, m, st, i) << ")";
                why = o.str();
                return false;
            }
        }
        return true;
    }
    LocalFrame local_frame_of_library()
    {
        fg::Pose2DVariable a(1, Eigen::Vector3d(0, 0, 0.5)), b(2, Eigen::Vector3d(1, 0, 0));
        fg::GenericVariable m(3, Vec::Zero(3));
        Vec r = fg::Pose2DBetweenFactor(4, &a, &b, &m, 1, 1, true).compute_residual();
        return r.size() == 3 && r[1] > 0 ? LF_PINNED : LF_DOCUMENTED;
    }
    bool ill_posed(const FacSpec& f, const Residual& m)
    {
        switch (f.k) {
        case F_BEARING:
        case F_PROJ:
        case F_INVB:
        case F_BEARING2:
        case F_RB2: return m.dist < 1e-8L || m.scale / m.dist > 1e9L;
        default: return false;
        }
    }
    Vec legal_step(Src& s, const VarSpec& v)
    {
        int n = gen::value_size(v);
        Vec x(n);
        double m = s.pick(std::vector<double>{0.1, 1, 1e-4});
        for (int i = 0; i < n; i++) x[i] = s.symmetric(m);
        if (v.k == PLANE) x.head<3>() *= 0.3;
        if (v.k == INV) x *= 0.01;
        return x;
    }
    // The landmark close to the sensor in one case of twenty; for projection factors on the side that it looks at
    void near_sensor(Src& s, Ctx& c, GraphSpec& g, int n)
    {
        if (!s.chance(1, 20)) return;
        c.label("landmark close to the sensor");
        FacSpec& f = g.facs[0];
        VarSpec &x = g.vars[static_cast<size_t>(f.v[0])], &l = g.vars[static_cast<size_t>(f.v[1])];
        if (s.coin())
            for (int i = 0; i < n; i++) x.x[static_cast<size_t>(i)] *= 1e-3;
        double d = s.logu(1e-7, 1);
        std::vector<double> u = gen::direction(s);
        if (f.k == F_PROJ) {
            V3 m = unit(r3(f.a));
            VarPtr v = make_var(x);
            auto *p = dynamic_cast<fg::PoseVariable *>(v.get());
            Eigen::Vector3d w = p->dcm_CW().transpose() * (Eigen::Vector3d(static_cast<double>(m[0]), static_cast<double>(m[1]), static_cast<double>(m[2])) + 0.7 * Eigen::Vector3d(u[0], u[1], u[2]).normalized());
            for (size_t i = 0; i < 3; i++) u[i] = w[static_cast<Eigen::Index>(i)];
        }
        for (size_t i = 0; i < static_cast<size_t>(n); i++) l.x[i] = x.x[i] + d * u[i];
    }
    void check_basis(const Basis& b, const FacSpec& f)
    {
        V3 m = unit(r3(f.a));
        PBT_REQUIRE(std::fabs(norm(b.t1) - 1) < 1e-12L && std::fabs(norm(b.t2) - 1) < 1e-12L && std::fabs(dot(b.t1, b.t2)) < 1e-12L &&
                        std::fabs(dot(b.t1, m)) < 1e-12L && std::fabs(dot(b.t2, m)) < 1e-12L,
                    "the projection axes " << show3(b.t1) << " " << show3(b.t2) << " are not an orthonormal basis of the plane normal to the bearing "
                                           << show3(m));
    }
} // namespace

// What a factor tells about itself
static void check_settings(const FacSpec& f, const FacPtr& p)
{
    auto weight = [&](double w, double sigma, const char *what) {
        PBT_REQUIRE(std::fabs(w * sigma - 1) <= 1e-12, fk_name(f.k) << ": " << what << "() is " << w << " for a standard deviation of " << sigma);
    };
    auto direction = [&](const Eigen::Vector3d& d) {
        V3 u = unit(r3(f.a));
        for (int i = 0; i < 3; i++) PBT_REQUIRE(std::fabs(static_cast<R>(d[i]) - u[i]) <= 1e-14L, fk_name(f.k) << ": bearing_C_obs() is " << d.transpose() << " for " << show3(r3(f.a)));
    };
    auto angle = [&](double a, double given) {
        PBT_REQUIRE(std::fabs(std::remainder(a - given, 2 * M_PI)) <= 1e-14 * (1 + std::fabs(given)), fk_name(f.k) << ": bearing_angle_obs() is " << a << " for " << given);
    };
#define ONE(kind, cls, what) \
    case kind: weight(dynamic_cast<const fg::cls&>(*p).what(), f.s1, #what); break
#define TWO(kind, cls, what1, what2) \
    case kind: weight(dynamic_cast<const fg::cls&>(*p).what1(), f.s1, #what1), weight(dynamic_cast<const fg::cls&>(*p).what2(), f.s2, #what2); break
    switch (f.k) {
        ONE(F_BEARING, BearingObservationFactor, weight);
        ONE(F_PROJ, BearingProjectionFactor2D, weight);
        ONE(F_INVB, InverseRangeBearingFactor, weight);
        ONE(F_PRIOR, GenericPriorFactor, weight);
        ONE(F_BETWEEN, GenericBetweenFactor, weight);
        ONE(F_VELOCITY, LinearVelocityFactor, weight);
        ONE(F_POSPRIOR, PosePositionPriorFactor, weight);
        ONE(F_ORIPRIOR, PoseOrientationPriorFactor, weight);
        ONE(F_ROTPRIOR, RotationPriorFactor, weight);
        ONE(F_POSBETWEEN, PosePositionBetweenFactor, weight);
        ONE(F_ORIBETWEEN, PoseOrientationBetweenFactor, weight);
        ONE(F_COORD, CoordinateTransformFactor, weight);
        ONE(F_BEARING2, BearingObservationFactor2D, weight);
        TWO(F_RB2, RangeBearingFactor2D, range_weight, bearing_weight);
        TWO(F_P2PRIOR, Pose2DPriorFactor, position_weight, angle_weight);
        TWO(F_P2BETWEEN, Pose2DBetweenFactor, position_weight, angle_weight);
    default:
        if (f.k == F_PLANE && !f.flag) weight(dynamic_cast<const fg::PlaneFactor&>(*p).weight(), f.s1, "weight");
    }
#undef ONE
#undef TWO
    if (f.k == F_BEARING) direction(dynamic_cast<const fg::BearingObservationFactor&>(*p).bearing_C_obs());
    if (f.k == F_PROJ) direction(dynamic_cast<const fg::BearingProjectionFactor2D&>(*p).bearing_C_obs());
    if (f.k == F_INVB) direction(dynamic_cast<const fg::InverseRangeBearingFactor&>(*p).bearing_C_obs());
    if (f.k == F_BEARING2) angle(dynamic_cast<const fg::BearingObservationFactor2D&>(*p).bearing_angle_obs(), f.a[0]);
    if (f.k == F_RB2) {
        auto& q = dynamic_cast<const fg::RangeBearingFactor2D&>(*p);
        angle(q.bearing_angle_obs(), f.a[1]);
        PBT_REQUIRE(q.range_obs() == f.a[0], "range_obs() is " << q.range_obs() << " for " << f.a[0]);
    }
}

PROPERTY(P05, "one case: one factor of one of the 18 kinds over variables of every admissible kind, wild values and "
              "parameters (angles at wrap-around, half turns, unnormalised directions, sigmas 1e-3..1e3), evaluated at 1..3 states; "
              "non-trivial: the geometry is defined at one of the states and the residual is not zero")
{
    FK k = static_cast<FK>(s.draw(NUM_FK));
    gen::Single one = gen::single(s, k, false, true);
    if (k == F_BEARING || k == F_PROJ || k == F_BEARING2 || k == F_RB2) near_sensor(s, c, one.g, k == F_BEARING || k == F_PROJ ? 3 : 2);
    if (c.want_text) show(c.text, one.g);
    c.label(fk_name(k));
    std::vector<VarPtr> vars;
    for (auto& v : one.g.vars) vars.push_back(make_var(v));
    FacPtr f = make_factor(one.f(), vars);
    PBT_REQUIRE(f->id() == one.f().id && f->type() >= 0 && f->type() < fg::FactorType::num_factor_types, "id or type of the factor: " << f->id() << " " << f->type());
    Basis basis;
    if (k == F_PROJ) {
        basis = probe_basis(one.f());
        check_basis(basis, one.f());
    }
    check_settings(one.f(), f);
    int states = s.range(1, 3);
    for (int i = 0; i < states; i++) {
        if (i > 0)
            for (size_t j = 0; j < vars.size(); j++)
                if (s.coin()) {
                    Vec dx = legal_step(s, one.g.vars[j]);
                    vars[j]->apply_increment(dx);
                    if (c.want_text) c.text << " then #" << j << " += " << dx.transpose();
                }
        std::vector<State> st = states_of(one.g, vars);
        Residual m = residual_of(one.f(), st, LF_DOCUMENTED, &basis);
        std::vector<Obs> before;
        for (auto& v : vars) before.push_back(observe(*v));
        int n = f->residual_size();
        Vec r = f->compute_residual();
        PBT_REQUIRE(r.size() == n, "compute_residual() returned " << r.size() << " entries, residual_size() is " << n);
        Vec big = Vec::Constant(n + 4, 123.25);
        f->compute_residual(big.segment(2, n));
        PBT_REQUIRE(big[0] == 123.25 && big[1] == 123.25 && big[n + 2] == 123.25 && big[n + 3] == 123.25, "compute_residual(Ref) wrote outside its segment");
        for (size_t j = 0; j < vars.size(); j++)
            PBT_REQUIRE(observe(*vars[j]) == before[j], "evaluating the residual changed variable " << j);
        if (ill_posed(one.f(), m)) {
            c.label("degenerate");
            continue;
        }
        for (int q = 0; q < n; q++)
            PBT_REQUIRE(std::fabs(big[2 + q] - r[q]) <= 1e-12 * (1 + std::fabs(r[q])), "the two residual overloads differ in row " << q << ": " << r[q] << " and " << big[2 + q]);
        if (k == F_PROJ) {
            R align = dot(unit(r3(one.f().a)), unit(st[static_cast<size_t>(one.f().v[0])].rot * (ref::vec(st[1].x[0], st[1].x[1], st[1].x[2]) - ref::vec(st[0].x[0], st[0].x[1], st[0].x[2]))));
            if (std::fabs(align - one.f().d1) < 1e-13L * (1 + m.scale / m.dist)) continue; // on the boundary
            if (m.flat) {
                c.label("behind the camera");
                PBT_REQUIRE(r.allFinite(), "residual behind the camera is not finite");
                continue;
            }
        }
        std::string why;
        if (!agrees(one.f(), m, st, r, why)) {
            std::string why2;
            if (k == F_P2BETWEEN && one.f().flag && agrees(one.f(), residual_of(one.f(), st, LF_PINNED), st, r, why2))
                c.finding(LOCAL2D, why);
            else
                pbt::fail(std::string(fk_name(k)) + ": " + why);
        }
        if (r.norm() > 0) c.nontrivial = true;
    }
}

// ------------------------------------------------------------------------------------------- P06
PROPERTY(P06, "one case: one factor of one of the 18 kinds, any subset of its variables constant, output vector pre-filled "
              "with 0..7 blocks of arbitrary sizes and values, evaluated at 1..3 states with the same output vector, every entry "
              "compared with a central difference of the long-double model; non-trivial: smooth state with a non-zero "
              "Jacobian block")
{
    FK k = static_cast<FK>(s.draw(NUM_FK));
    gen::Single one = gen::single(s, k, true, true);
    bool degenerate = (k == F_BEARING || k == F_PROJ || k == F_BEARING2 || k == F_RB2) && s.chance(1, 20);
    if (degenerate)
        for (size_t i = 0; i < (k == F_BEARING || k == F_PROJ ? 3u : 2u); i++) one.g.vars[1].x[i] = one.g.vars[0].x[i];
    else if (k == F_BEARING || k == F_PROJ || k == F_BEARING2 || k == F_RB2)
        near_sensor(s, c, one.g, k == F_BEARING || k == F_PROJ ? 3 : 2);
    if (c.want_text) show(c.text, one.g);
    c.label(fk_name(k));
    std::vector<VarPtr> vars;
    for (auto& v : one.g.vars) vars.push_back(make_var(v));
    FacPtr f = make_factor(one.f(), vars);
    const FacSpec& fs = one.f();
    Basis basis;
    if (k == F_PROJ) basis = probe_basis(fs);

    std::vector<fg::Variable *> order = f->variables();
    PBT_REQUIRE(order.size() == vars.size(), "variables() lists " << order.size() << " variables instead of " << vars.size());
    std::vector<int> at; // position in the spec of each of variables()
    for (auto *p : order) {
        int i = 0;
        while (i < static_cast<int>(vars.size()) && vars[static_cast<size_t>(i)].get() != p) i++;
        PBT_REQUIRE(i < static_cast<int>(vars.size()), "variables() lists a variable that was not given");
        for (int q : at) PBT_REQUIRE(q != i, "variables() lists a variable twice");
        at.push_back(i);
    }

    std::vector<Mat> J;
    int junk = s.range(0, 7);
    for (int i = 0; i < junk; i++) {
        int rows = s.range(0, 6), cols = s.range(0, 7);
        if (s.coin() && i < static_cast<int>(order.size())) rows = f->residual_size(), cols = order[static_cast<size_t>(i)]->size();
        J.push_back(Mat::Constant(rows, cols, 77.5 + i));
    }
    if (junk) c.label("output prefilled");

    int states = s.range(1, 3);
    for (int turn = 0; turn < states; turn++) {
        if (turn > 0) {
            for (size_t j = 0; j < vars.size(); j++) {
                if (!degenerate && s.coin()) vars[j]->apply_increment(legal_step(s, one.g.vars[j]));
                if (s.chance(1, 4)) vars[j]->set_constant(!vars[j]->is_constant());
            }
        }
        std::vector<State> st = states_of(one.g, vars);
        std::vector<Obs> before;
        for (auto& v : vars) before.push_back(observe(*v));
        Residual m;
        bool zero_distance = false;
        try {
            m = residual_of(fs, st, LF_DOCUMENTED, &basis);
        } catch (const Discard&) {
            zero_distance = true;
        }
        if (zero_distance && k != F_PROJ) {
            c.label("refused geometry");
            bool threw = false, free_block = false;
            for (auto& v : vars) free_block |= !v->is_constant();
            try {
                f->compute_jacobians(J);
            } catch (const std::exception&) {
                threw = true;
            }
            PBT_REQUIRE(threw || !free_block, fk_name(k) << " returned Jacobians for a landmark at the sensor");
            continue;
        }
        try {
            f->compute_jacobians(J);
        } catch (const std::exception&) {
            if (!zero_distance && !ill_posed(fs, m)) throw;
            c.label("refused geometry");
            continue;
        }
        for (size_t j = 0; j < vars.size(); j++) PBT_REQUIRE(observe(*vars[j]) == before[j], "compute_jacobians changed variable " << j);
        PBT_REQUIRE(J.size() == order.size(), fk_name(k) << " returned " << J.size() << " blocks for " << order.size() << " variables");
        for (size_t b = 0; b < J.size(); b++) {
            if (order[b]->is_constant()) {
                PBT_REQUIRE(J[b].size() == 0, "block " << b << " of a constant variable is " << J[b].rows() << "x" << J[b].cols());
            } else {
                PBT_REQUIRE(J[b].rows() == f->residual_size() && J[b].cols() == order[b]->size(),
                            fk_name(k) << " block " << b << " is " << J[b].rows() << "x" << J[b].cols() << " instead of " << f->residual_size() << "x" << order[b]->size());
                PBT_REQUIRE(J[b].allFinite(), fk_name(k) << " block " << b << " is not finite");
            }
        }
        if (zero_distance) { // projection factor: down-weighted, not refused
            c.label("landmark at the camera");
            continue;
        }
        // Where is the model smooth?
        if (ill_posed(fs, m)) continue;
        if (m.rotlog) {
            R t = std::sqrt(m.r[0] * m.r[0] + m.r[1] * m.r[1] + m.r[2] * m.r[2]);
            if (t > PI - 1e-4L) continue;
        }
        if (k == F_PLANE && fs.flag && norm(ref::vec(st[0].x[0], st[0].x[1], st[0].x[2]) - r3(fs.b)) < 1e-5L * m.scale) continue;
        if (k == F_PROJ) {
            R align = dot(unit(r3(fs.a)), unit(st[0].rot * (ref::vec(st[1].x[0], st[1].x[1], st[1].x[2]) - ref::vec(st[0].x[0], st[0].x[1], st[0].x[2]))));
            if (std::fabs(align - fs.d1) < 1e-4L + 1e-12L * m.scale / m.dist) continue;
            if (m.flat) {
                c.label("behind the camera");
                for (auto& b : J) PBT_REQUIRE(b.size() == 0 || b.isZero(0), "non-zero Jacobian behind the camera");
                continue;
            }
        }
        LocalFrame lf = LF_DOCUMENTED;
        if (k == F_P2BETWEEN && fs.flag) lf = local_frame_of_library(); // differentiate what the library has (P05 judges it)
        for (size_t b = 0; b < J.size(); b++) {
            if (order[b]->is_constant()) continue;
            size_t vi = static_cast<size_t>(at[b]);
            const State& x = st[vi];
            int n = x.dof();
            std::vector<std::vector<R>> D(m.size(), std::vector<R>(static_cast<size_t>(n)));
            std::vector<R> fd_noise(static_cast<size_t>(n));
            R top = 0;
            for (int i = 0; i < n; i++) {
                R h = 1e-6L;
                bool angular = (x.k == POSE && i >= 3) || x.k == ROT || (x.k == POSE2 && i == 2) || (x.k == PLANE && i < 3);
                if (!angular) {
                    if (x.k == INV)
                        h *= x.x[0] * std::min<R>(1, k == F_INVB ? m.dist * x.x[0] : 1); // the point moves by at most 1e-6 of its distance
                    else if (k == F_BEARING || k == F_PROJ || k == F_INVB || k == F_BEARING2 || k == F_RB2)
                        h *= m.dist;
                    else if (k == F_PLANE && fs.flag)
                        h *= norm(ref::vec(st[0].x[0], st[0].x[1], st[0].x[2]) - r3(fs.b));
                    else
                        h *= m.scale;
                }
                std::vector<State> p = st, q = st;
                p[vi] = moved(x, i, h);
                q[vi] = moved(x, i, -h);
                fd_noise[static_cast<size_t>(i)] = 1e-18L * (1 + m.scale * (1 + 1 / m.dist)) / h;
                Residual a = residual_of(fs, p, lf, &basis), z = residual_of(fs, q, lf, &basis);
                for (size_t r = 0; r < m.size(); r++) {
                    R d = a.r[r] - z.r[r];
                    if (m.period[r] > 0) d = wrap(d);
                    D[r][static_cast<size_t>(i)] = d / (2 * h);
                    top = std::max(top, std::fabs(D[r][static_cast<size_t>(i)]));
                }
            }
            Mat A = J[b];
            R noise = m.scale / m.dist;
            for (size_t r = 0; r < m.size(); r++)
                for (int i = 0; i < n; i++) {
                    R got = A(static_cast<Eigen::Index>(r), i) / m.w[r], want = D[r][static_cast<size_t>(i)];
                    // cancellation in the leading geometry; for planes, in the projection onto the tangent
                    R tol = (1e-7L + 1e-13L * noise) * top + fd_noise[static_cast<size_t>(i)] + 1e-12L + (x.k == PLANE ? 1e-13L * m.scale : 0);
                    PBT_REQUIRE(std::fabs(got - want) <= tol, fk_name(k) << " Jacobian of " << vk_name(x.k) << " (block " << b << ") entry (" << r << "," << i << ") is "
                                                                       << A(static_cast<Eigen::Index>(r), i) << ", derivative of the residual is " << want * m.w[r]
                                                                       << " (largest entry " << top * m.w[r] << ")");
                }
            if (top > 0) c.nontrivial = true;
        }
    }
}

// ------------------------------------------------------------------------------------------- P07
namespace
{
    double dbl(R x) { return static_cast<double>(x); }
    void put(std::vector<double>& x, V3 v, size_t at = 0)
    {
        for (int i = 0; i < 3; i++) x[at + static_cast<size_t>(i)] = dbl(v[i]);
    }
    // Make the measurement agree with the states (given as specs). False if there is no such measurement.
    bool make_exact(Src& s, GraphSpec& g)
    {
        FacSpec& f = g.facs[0];
        std::vector<VarPtr> vars;
        for (auto& v : g.vars) vars.push_back(make_var(v));
        std::vector<State> st = states_of(g, vars);
        auto S = [&](int i) -> State& { return st[static_cast<size_t>(f.v[static_cast<size_t>(i)])]; };
        auto X = [&](int i) -> VarSpec& { return g.vars[static_cast<size_t>(f.v[static_cast<size_t>(i)])]; };
        auto pos = [&](int i) { return ref::vec(S(i).x[0], S(i).x[1], S(i).x[2]); };
        switch (f.k) {
        case F_BEARING:
        case F_PROJ:
        case F_INVB: {
            V3 l = f.k == F_INVB ? S(1).origin + (1 / S(1).x[0]) * S(1).bearing : pos(1);
            V3 d = S(0).rot * (l - pos(0));
            R n = norm(d);
            if (n < 1e-6L) return false;
            R q = s.coin() ? 1 / n : 1; // measured as a unit vector or not
            put(f.a, q * d);
            return true;
        }
        case F_PRIOR:
        case F_POSPRIOR:
        case F_P2PRIOR:
            for (size_t i = 0; i < f.a.size(); i++) f.a[i] = dbl(S(0).x[i]);
            return true;
        case F_BETWEEN:
            if (X(2).k != GEN && X(2).k != LM) return false;
            for (size_t i = 0; i < S(0).x.size(); i++) X(2).x[i] = dbl(S(1).x[i] - S(0).x[i]);
            return true;
        case F_VELOCITY:
            if (f.d1 == 0) f.d1 = 0.5;
            for (size_t i = 0; i < S(2).x.size(); i++) {
                size_t j = i + static_cast<size_t>(f.idx0);
                X(2).x[i] = dbl((S(1).x[j] - S(0).x[j]) / f.d1);
            }
            return true;
        case F_ORIPRIOR:
        case F_ROTPRIOR: put(f.a, log3(S(0).rot)); return true;
        case F_POSBETWEEN: put(X(2).x, f.flag ? S(0).rot * (pos(1) - pos(0)) : pos(1) - pos(0)); return true;
        case F_ORIBETWEEN: put(X(2).x, log3(S(0).rot * tr(S(1).rot))); return true;
        case F_PLANE: {
            V3 n = ref::vec(S(1).x[0], S(1).x[1], S(1).x[2]);
            X(1).x[3] = dbl(-dot(n, pos(0)));
            return true;
        }
        case F_PLANEPRIOR:
            for (size_t i = 0; i < 4; i++) f.a[i] = dbl(S(0).x[i]);
            return true;
        case F_BEARING2:
        case F_RB2: {
            R dx = S(1).x[0] - S(0).x[0], dy = S(1).x[1] - S(0).x[1];
            R n = std::sqrt(dx * dx + dy * dy);
            if (n < 1e-6L) return false;
            double ang = dbl(std::atan2(dy, dx) - S(0).x[2] + 2 * PI * s.range(-1, 1));
            if (f.k == F_BEARING2)
                f.a = {ang};
            else
                f.a = {dbl(n), ang};
            return true;
        }
        case F_P2BETWEEN: {
            R dx = S(1).x[0] - S(0).x[0], dy = S(1).x[1] - S(0).x[1], t = S(0).x[2];
            if (f.flag) {
                R lx = std::cos(t) * dx + std::sin(t) * dy, ly = -std::sin(t) * dx + std::cos(t) * dy;
                dx = lx, dy = ly;
            }
            X(2).x = {dbl(dx), dbl(dy), dbl(S(1).x[2] - t + 2 * PI * s.range(-1, 1))};
            return true;
        }
        case F_COORD: put(X(3).x, S(2).x[0] * (S(0).rot * pos(4)) - ref::vec(S(1).x[0], S(1).x[1], S(1).x[2])); return true;
        default: return false;
        }
    }
    // through the overload of the graphs, or the one of users
    Vec residual_now(const GraphSpec& g, bool into)
    {
        std::vector<VarPtr> vars;
        for (auto& v : g.vars) vars.push_back(make_var(v));
        auto f = make_factor(g.facs[0], vars);
        if (!into) return f->compute_residual();
        Vec r = Vec::Constant(f->residual_size(), 123.25);
        f->compute_residual(Eigen::Ref<Vec>(r));
        return r;
    }
    std::vector<R> allowance(const GraphSpec& g, R factor)
    {
        std::vector<VarPtr> vars;
        for (auto& v : g.vars) vars.push_back(make_var(v));
        std::vector<State> st = states_of(g, vars);
        Basis b;
        Residual m = residual_of(g.facs[0], st, LF_DOCUMENTED, &b);
        if (ill_posed(g.facs[0], m)) throw Discard{};
        std::vector<R> t;
        for (size_t i = 0; i < m.size(); i++) t.push_back(factor * row_tol(g.facs[0], m, st, i));
        return t;
    }
} // namespace

PROPERTY(P07, "one case: one factor of one of the 18 kinds and one of three relations - measurement computed from the true "
              "states gives zero residual; a random rigid motion of the world leaves a relative residual unchanged; whole turns "
              "added to 2D angles leave the residual unchanged; non-trivial: the geometry is defined and the transform or state "
              "is not the identity")
{
    int relation = static_cast<int>(s.draw(3));
    bool into = s.coin();
    static const FK rel[] = {F_BEARING, F_PROJ, F_INVB, F_POSBETWEEN, F_ORIBETWEEN, F_PLANE, F_BEARING2, F_RB2, F_P2BETWEEN};
    static const FK ang[] = {F_BEARING2, F_RB2, F_P2PRIOR, F_P2BETWEEN};
    FK k = relation == 0 ? static_cast<FK>(s.draw(NUM_FK)) : relation == 1 ? rel[s.draw(9)] : ang[s.draw(4)];
    gen::Single one = gen::single(s, k, false, true);
    GraphSpec g = one.g;
    FacSpec& f = g.facs[0];
    c.label(std::string(relation == 0 ? "exact " : relation == 1 ? "frame " : "turns ") + fk_name(k));
    if (relation == 1 && k == F_POSBETWEEN) f.flag = true;
    if (relation == 1 && k == F_P2BETWEEN) f.flag = true;
    auto pinned_only = [&](const GraphSpec& a, const std::string& msg) { // the recorded finding, and nothing else?
        if (!(k == F_P2BETWEEN && f.flag)) pbt::fail(msg);
        std::vector<VarPtr> vars;
        for (auto& v : a.vars) vars.push_back(make_var(v));
        std::vector<State> st = states_of(a, vars);
        std::string why;
        if (agrees(a.facs[0], residual_of(a.facs[0], st, LF_PINNED), st, make_factor(a.facs[0], vars)->compute_residual(), why))
            c.finding(LOCAL2D, msg);
        else
            pbt::fail(msg);
    };

    if (relation == 0) {
        if (!make_exact(s, g)) throw Discard{};
        if (c.want_text) show(c.text, g);
        std::vector<R> tol = allowance(g, 4);
        if (k == F_PROJ && f.d1 >= 1 - 1e-9) throw Discard{};
        Vec r = residual_now(g, into);
        bool p2 = k == F_P2PRIOR || k == F_P2BETWEEN;
        for (Eigen::Index i = 0; i < r.size(); i++) {
            R w = 1 / static_cast<R>((p2 && i == 2) || (k == F_RB2 && i == 1) || (k == F_PLANEPRIOR && i == 3) ? f.s2 : f.s1);
            R x = std::fabs(r[i] / w);
            if (!(x <= tol[static_cast<size_t>(i)])) {
                std::ostringstream o;
                o.precision(17);
                o << fk_name(k) << " residual row " << i << " at noise-free truth is " << r[i] << " (error " << x << ", allowance " << tol[static_cast<size_t>(i)] << ")";
                pinned_only(g, o.str());
                break;
            }
        }
        for (auto& v : g.vars)
            for (double x : v.x) c.nontrivial |= x != 0;
        return;
    }

    GraphSpec h = g;
    bool planar = k == F_BEARING2 || k == F_RB2 || k == F_P2BETWEEN || k == F_P2PRIOR;
    if (relation == 1 && planar) {
        double phi = gen::angle(s), tx = gen::coord(s), ty = gen::coord(s);
        R cs = std::cos(static_cast<R>(phi)), sn = std::sin(static_cast<R>(phi));
        for (size_t i = 0; i < 2; i++) {
            auto& x = h.vars[static_cast<size_t>(f.v[i])].x;
            R a = x[0], b = x[1];
            x[0] = dbl(cs * a - sn * b + tx);
            x[1] = dbl(sn * a + cs * b + ty);
            if (h.vars[static_cast<size_t>(f.v[i])].k == POSE2) x[2] = dbl(static_cast<R>(x[2]) + phi);
        }
        c.nontrivial = phi != 0 || tx != 0 || ty != 0;
        if (c.want_text) c.text << "moved by " << phi << " rad, (" << tx << "," << ty << "): ";
    } else if (relation == 1) {
        auto w = gen::rotvec(s);
        auto t = gen::coords(s, 3);
        M3 Q = exp3(r3(w));
        c.nontrivial = norm(r3(w)) > 0 || norm(r3(t)) > 0;
        if (c.want_text) c.text << "moved by " << show3(r3(w)) << ", " << show3(r3(t)) << ": ";
        for (size_t i = 0; i < h.vars.size(); i++) {
            VarSpec& v = h.vars[i];
            if (i >= 2) continue; // measurements
            if (v.k == POSE) {
                put(v.x, Q * r3(v.x) + r3(t));
                put(v.x, log3(exp3(r3(v.x, 3)) * tr(Q)), 3);
            } else if (v.k == LM || v.k == GEN) {
                put(v.x, Q * r3(v.x) + r3(t));
            } else if (v.k == INV) {
                put(v.extra, Q * r3(v.extra) + r3(t));
                put(v.extra, Q * r3(v.extra, 3), 3);
            } else if (v.k == PLANE) {
                V3 n = Q * unit(r3(v.x));
                put(v.x, n);
                v.x[3] = dbl(v.x[3] - dot(n, r3(t)));
            }
        }
        if (k == F_PLANE && f.flag) put(h.facs[0].b, Q * r3(f.b) + r3(t));
    } else {
        int turns = s.range(1, 6) * (s.coin() ? -1 : 1);
        double add = dbl(2 * PI * turns);
        bool in_state = s.coin();
        if (in_state) {
            h.vars[static_cast<size_t>(f.v[k == F_P2BETWEEN ? s.draw(3) : 0])].x[2] += add;
        } else if (k == F_P2BETWEEN) {
            h.vars[static_cast<size_t>(f.v[2])].x[2] += add;
        } else {
            h.facs[0].a.back() += add;
        }
        c.nontrivial = true;
        if (c.want_text) c.text << turns << " turns added to the " << (in_state ? "state" : "measurement") << ": ";
    }
    if (c.want_text) show(c.text, g);
    std::vector<R> t1 = allowance(g, 8), t2 = allowance(h, 8);
    if (k == F_PROJ) { // the side of the visibility boundary may be a matter of rounding
        std::vector<VarPtr> vars;
        for (auto& v : g.vars) vars.push_back(make_var(v));
        std::vector<State> st = states_of(g, vars);
        R align = dot(unit(r3(f.a)), unit(st[0].rot * (ref::vec(st[1].x[0], st[1].x[1], st[1].x[2]) - ref::vec(st[0].x[0], st[0].x[1], st[0].x[2]))));
        if (std::fabs(align - f.d1) < t1[0] + t2[0] + 1e-9L) throw Discard{};
    }
    Vec a = residual_now(g, into), b = residual_now(h, into);
    PBT_REQUIRE(a.size() == b.size(), "residual sizes differ");
    bool rotlog = k == F_ORIBETWEEN;
    R rot_angle = rotlog ? norm(r3(Eigen::Vector3d(a))) * f.s1 : 0;
    for (Eigen::Index i = 0; i < a.size(); i++) {
        R sg = (k == F_RB2 && i == 1) || ((k == F_P2BETWEEN || k == F_P2PRIOR) && i == 2) ? f.s2 : f.s1;
        bool angle = k == F_BEARING2 || (k == F_RB2 && i == 1) || ((k == F_P2BETWEEN || k == F_P2PRIOR) && i == 2);
        R x = a[i] * sg, y = b[i] * sg, tol = t1[static_cast<size_t>(i)] + t2[static_cast<size_t>(i)];
        if (rotlog && rot_angle > PI - 1e-5L) continue;
        R d = angle ? angdist(x, y) : std::fabs(x - y);
        if (!(d <= tol)) {
            std::ostringstream o;
            o.precision(17);
            o << fk_name(k) << " residual row " << i << " changes from " << x << " to " << y << (relation == 1 ? " when the world is moved" : " when whole turns are added") << " (allowance " << tol << ")";
            pinned_only(h, o.str());
            break;
        }
    }
}

// ------------------------------------------------------------------------------------------- P20
PROPERTY(P20, "one case: a residual of 1..8 entries (norms 1e-6..1e6 around the threshold, or a library factor's own residual "
              "and Jacobians), delta 1e-4..1e4, 0..5 Jacobian blocks some of them empty; derivative compared with a long-double "
              "central difference; non-trivial: norm above delta with a non-empty block")
{
    Vec r;
    std::vector<Mat> J;
    if (s.chance(1, 3)) { // from a factor
        static const FK ks[] = {F_BEARING, F_POSBETWEEN, F_ORIPRIOR, F_RB2, F_P2PRIOR, F_PLANE, F_PRIOR, F_COORD};
        gen::Single one = gen::single(s, ks[s.draw(8)], true, true);
        std::vector<VarPtr> vars;
        for (auto& v : one.g.vars) vars.push_back(make_var(v));
        FacPtr f = make_factor(one.f(), vars);
        r = f->compute_residual();
        try {
            f->compute_jacobians(J);
        } catch (const std::exception&) {
            throw Discard{};
        }
        if (!r.allFinite()) throw Discard{};
        c.label("factor");
    } else {
        int n = s.range(1, 8);
        r.resize(n);
        double m = s.logu(1e-6, 1e6);
        for (int i = 0; i < n; i++) r[i] = s.chance(1, 6) ? 0 : s.symmetric(m);
        int blocks = s.range(0, 5);
        for (int b = 0; b < blocks; b++) {
            if (s.chance(1, 4)) {
                J.emplace_back();
                continue;
            }
            Mat A(n, s.range(1, 6));
            double q = s.logu(1e-3, 1e3);
            for (Eigen::Index i = 0; i < A.size(); i++) A.data()[i] = s.symmetric(q);
            J.push_back(A);
        }
        c.label("synthetic");
    }
    R nr = 0;
    for (Eigen::Index i = 0; i < r.size(); i++) nr += static_cast<R>(r[i]) * r[i];
    nr = std::sqrt(nr);
    double delta;
    switch (s.draw(4)) {
    case 0: delta = 1; break;
    case 1: delta = s.logu(1e-4, 1e4); break;
    default: delta = std::max(1e-4, dbl(nr) * (s.coin() ? s.logu(1e-3, 1) : s.logu(1, 1e3))); break;
    }
    if (c.want_text) c.text << "delta " << delta << " residual " << r.transpose() << " blocks " << J.size();
    fg::HuberKernel kernel(delta);
    PBT_REQUIRE(kernel.delta() == delta, "delta() is " << kernel.delta());
    Vec out = kernel.apply_to_residual(r);
    PBT_REQUIRE(out.size() == r.size(), "residual changed size");
    R edge = std::fabs(nr - delta) / delta;
    if (edge < 1e-12L) throw Discard{};
    bool outside = nr > delta;
    c.label(outside ? "outside" : "inside");
    R w = outside ? std::sqrt(delta / nr) : 1;
    for (Eigen::Index i = 0; i < r.size(); i++) {
        R want = w * r[i];
        PBT_REQUIRE(std::fabs(out[i] - want) <= (outside ? 1e-14L * std::fabs(want) : 0), "robustified residual row " << i << " is " << out[i] << " instead of " << want);
    }
    std::vector<Mat> K = J;
    kernel.apply_to_jacobians(r, K);
    PBT_REQUIRE(K.size() == J.size(), "number of blocks changed");
    for (size_t b = 0; b < J.size(); b++) {
        PBT_REQUIRE(K[b].rows() == J[b].rows() && K[b].cols() == J[b].cols(), "block " << b << " changed from " << J[b].rows() << "x" << J[b].cols() << " to " << K[b].rows() << "x" << K[b].cols());
        if (!outside) {
            PBT_REQUIRE(K[b] == J[b], "block " << b << " changed inside the threshold");
            continue;
        }
        for (Eigen::Index col = 0; col < J[b].cols(); col++) {
            R jn = 0;
            for (Eigen::Index i = 0; i < r.size(); i++) jn = std::max(jn, std::fabs(static_cast<R>(J[b](i, col))));
            if (jn == 0) {
                PBT_REQUIRE(K[b].col(col).isZero(0), "zero column became non-zero");
                continue;
            }
            R h = std::min(1e-5L * nr, (nr - delta) / 4) / jn / 3;
            auto rho = [&](R t, Eigen::Index i) {
                R n = 0;
                for (Eigen::Index q = 0; q < r.size(); q++) {
                    R x = r[q] + t * J[b](q, col);
                    n += x * x;
                }
                return std::sqrt(delta / std::sqrt(n)) * (r[i] + t * J[b](i, col));
            };
            for (Eigen::Index i = 0; i < r.size(); i++) {
                R fd = (rho(h, i) - rho(-h, i)) / (2 * h);
                PBT_REQUIRE(std::fabs(K[b](i, col) - fd) <= 1e-7L * jn * w + 1e-17L * nr * w / h, "Jacobian block " << b << " entry (" << i << "," << col << ") is " << K[b](i, col)
                                                                                     << ", derivative of the robustified residual is " << fd);
            }
            c.nontrivial = true;
        }
    }
}
