// P01-P04: SO(3) mathematics and the variables' state machines. P24: the stopwatch.
#include "gen.hpp"
#include "fakeclock.hpp"
#include <chrono>
#include <iomanip>
#include <random>
#include <factorama/stopwatch.hpp>

using namespace ref;

static const double kPi = 3.141592653589793238462643;

// Inverse of the left Jacobian of SO(3): derivative of Log(Exp(d) Exp(w)) at d = 0
static M3 inv_left_jacobian(V3 w)
{
    R t = norm(w);
    R k = t < 1e-3L ? 1.0L / 12 + t * t / 720 + t * t * t * t / 30240 : (1 - (t / 2) / std::tan(t / 2)) / (t * t);
    M3 W;
    W.m[0][0] = W.m[1][1] = W.m[2][2] = 0;
    W.m[0][1] = -w[2], W.m[0][2] = w[1], W.m[1][0] = w[2], W.m[1][2] = -w[0], W.m[2][0] = -w[1], W.m[2][1] = w[0];
    M3 W2 = W * W, J;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) J.m[i][j] = (i == j) - 0.5L * W.m[i][j] + k * W2.m[i][j];
    return J;
}

PROPERTY(P01, "one case: a rotation vector (angles 0, 1e-12..1e-3, both sides of every internal switch, pi/2, pi-1e-9..pi, "
              "beyond pi; axes aligned, integer, nearly aligned, random) plus two plain vectors; non-trivial: rotation "
              "angle above 1e-12")
{
    auto w = gen::rotvec(s);
    double turns = s.chance(1, 8) ? s.uniform(1, 7) : 1;
    for (auto& x : w) x *= turns;
    V3 v = r3(w);
    R t = norm(v);
    c.nontrivial = t > 1e-12L;
    c.label(t == 0 ? "zero" : t < 1e-8 ? "tiny" : t < 1e-3 ? "small" : t > ref::PI + 1e-9 ? "beyond pi" : t > ref::PI - 1.1e-3 ? "near pi" : "general");
    if (c.want_text) c.text << "rotvec " << show3(v);

    Eigen::Matrix3d E = fg::ExpMapSO3(e3(w));
    M3 X = exp3(v), L = rmat(E);
    const R te = 2e-14L * (4 + t);
    PBT_REQUIRE(maxdiff(X, L) <= te, "ExpMapSO3(" << show3(v) << ") is off by " << maxdiff(X, L));
    PBT_REQUIRE(orthonormality(L) <= 4 * te, "ExpMapSO3(" << show3(v) << ") is not orthonormal: " << orthonormality(L));
    PBT_REQUIRE(std::fabs(det(L) - 1) <= 4 * te, "det ExpMapSO3(" << show3(v) << ") is " << det(L));
    Eigen::Matrix3d Em = fg::ExpMapSO3(-e3(w));
    PBT_REQUIRE(maxdiff(tr(L), rmat(Em)) <= 2 * te, "Exp(-w) is not the transpose of Exp(w) at " << show3(v));

    // The logarithm, of the library's matrix and of the exactly rounded one
    for (int k = 0; k < 2; k++) {
        Eigen::Matrix3d M = k ? dcm_of(w) : E;
        M3 A = rmat(M);
        V3 want = log3(A);
        R a = norm(want);
        V3 got = r3(fg::LogMapSO3(M));
        R tol = log_tol(a);
        PBT_REQUIRE(norm(got) <= ref::PI + 1e-12L, "LogMapSO3 returned a vector of norm " << norm(got));
        R back = maxdiff(exp3(got), A);
        PBT_REQUIRE(back <= 2 * tol + 1e-14L, "Exp(Log(R)) differs from R by " << back << " for the rotation " << show3(v));
        R d = norm(got - want);
        if (a > ref::PI - 1e-6L) d = std::min(d, norm(got + want)); // both vectors describe a half turn
        PBT_REQUIRE(d <= tol + (a > ref::PI - 1e-6L ? 2e-6L : 0), "LogMapSO3 of the rotation " << show3(v) << " is " << show3(got) << " instead of "
                                                        << show3(want));
    }

    if (t <= ref::PI + 1e-15L) {
        Eigen::Matrix3d J = fg::compute_inverse_right_jacobian_so3(e3(w));
        M3 want = inv_left_jacobian(v);
        R d = maxdiff(want, rmat(J));
        PBT_REQUIRE(d <= 1e-10L, "inverse Jacobian at " << show3(v) << " is off by " << d);
        if (t < ref::PI - 1e-3L) { // and it is the derivative of the logarithm
            const R h = 1e-5L;
            for (int i = 0; i < 3; i++) {
                V3 e;
                e[i] = h;
                V3 dp = log3(exp3(e) * X), dm = log3(exp3(-1.0L * e) * X);
                for (int r = 0; r < 3; r++) {
                    R fd = (dp[r] - dm[r]) / (2 * h);
                    PBT_REQUIRE(std::fabs(fd - J(r, i)) <= 1e-7L, "inverse Jacobian entry (" << r << "," << i << ") at " << show3(v)
                                                                                    << " is " << J(r, i) << ", derivative of Log is " << fd);
                }
            }
        }
    }

    auto a = gen::coords(s, 3), b = gen::coords(s, 3);
    Eigen::Matrix3d K = fg::skew_symmetric(e3(a));
    V3 x = cross(r3(a), r3(b)), y = r3(Eigen::Vector3d(K * e3(b)));
    R sc = norm(r3(a)) * norm(r3(b));
    PBT_REQUIRE(norm(x - y) <= 1e-14L * (1 + sc), "skew_symmetric(a) b is not a x b for a=" << show3(r3(a)) << " b=" << show3(r3(b)));
    PBT_REQUIRE(fg::unskew(K) == e3(a), "unskew does not invert skew_symmetric for a=" << show3(r3(a)));
}

// ------------------------------------------------------------------------------------------- P02
namespace
{
    struct RotModel
    {
        M3 rot;
        V3 pos;
        R rtol = 1e-12L; // accumulated rounding allowance
        R ptol = 1e-15L;
    };
}

static void advance_rot(RotModel& m, V3 d)
{
    m.rot = exp3(d) * m.rot;
    m.rtol += log_tol(norm(log3(m.rot))) * 1.5L + 1e-15L * norm(d);
}

static std::vector<double> small_or_big_rot(Src& s)
{
    auto d = gen::direction(s);
    double t;
    switch (s.draw(6)) {
    case 0: t = s.logu(1e-12, 1e-7); break;
    case 1: t = s.logu(1e-7, 1e-3); break;
    case 2: t = s.uniform(0, 0.5); break;
    case 3: t = gen::theta(s); break;
    case 4: t = s.uniform(3, 15); break;
    default: t = 0; break;
    }
    return {d[0] * t, d[1] * t, d[2] * t};
}

PROPERTY(P02, "one case: a pose or rotation variable and a history of 1..12 steps (increment, repeated tiny increment up to "
              "1500 times, set from vector, set from matrix, set position, clone), rotation sizes 1e-12 rad to several "
              "turns; non-trivial: at least two increments that rotate")
{
    const bool pose = s.draw(3) != 2;
    RotModel m;
    int rotations = 0;
    std::ostringstream& log = c.text;
    log.precision(17);

    std::shared_ptr<fg::PoseVariable> p;
    std::shared_ptr<fg::RotationVariable> q;
    auto x0 = gen::coords(s, 3);
    auto r0 = gen::rotvec(s);
    if (pose) {
        if (s.coin()) {
            p = std::make_shared<fg::PoseVariable>(7, e3(x0), dcm_of(r0));
        } else {
            if (s.chance(1, 4))
                for (auto& v : r0) v *= 3;
            Eigen::Matrix<double, 6, 1> x;
            x << e3(x0), e3(r0);
            p = std::make_shared<fg::PoseVariable>(7, x);
        }
        m.pos = r3(x0);
        m.rot = exp3(r3(r0));
    } else {
        q = std::make_shared<fg::RotationVariable>(7, dcm_of(r0));
        m.rot = rmat(dcm_of(r0));
    }
    m.rtol += 1e-14L + log_tol(norm(log3(m.rot)));
    if (c.want_text) log << (pose ? "pose " : "rotation ") << show3(r3(x0)) << " " << show3(r3(r0)) << ": ";

    auto check = [&](const char *when) {
        fg::Variable& var = pose ? static_cast<fg::Variable&>(*p) : static_cast<fg::Variable&>(*q);
        const Vec& val = var.value();
        PBT_REQUIRE(val.size() == (pose ? 6 : 3) && val.allFinite(), when << ": value of size " << val.size() << " finite " << val.allFinite());
        M3 D = rmat(pose ? p->dcm_CW() : q->rotation());
        PBT_REQUIRE(orthonormality(D) <= 1e-12L + m.rtol * 1e-2L, when << ": rotation matrix is not orthonormal, off by " << orthonormality(D));
        PBT_REQUIRE(std::fabs(det(D) - 1) <= 1e-11L, when << ": determinant " << det(D));
        R e = maxdiff(D, m.rot);
        PBT_REQUIRE(e <= m.rtol, when << ": rotation matrix is off by " << e << " from the product of the increments (allowance "
                                      << m.rtol << ")");
        V3 rv = ref::vec(val[pose ? 3 : 0], val[pose ? 4 : 1], val[pose ? 5 : 2]);
        R agree = maxdiff(exp3(rv), D);
        // a matrix that is the product of many others is only as orthonormal as rounding leaves it
        R ang = norm(log3(D)), sn = std::sin(std::min(ang, ref::PI));
        R drift = 20 * orthonormality(D) / (ang < 1.5L ? 1 : std::max(sn * sn, 1e-6L));
        PBT_REQUIRE(agree <= 2 * log_tol(ang) + drift, when << ": rotation vector and matrix describe rotations " << agree << " apart");
        if (pose) {
            PBT_REQUIRE(p->pos_W() == val.head<3>() && p->rot_CW() == val.tail<3>(), when << ": accessors disagree with value()");
            R pe = norm(r3(p->pos_W()) - m.pos);
            PBT_REQUIRE(pe <= m.ptol, when << ": position is off by " << pe);
        } else {
            PBT_REQUIRE(q->dcm_AB() == q->rotation(), when << ": dcm_AB() and rotation() differ");
        }
    };
    check("after construction");

    int steps = s.length(1, c.thorough ? 30 : 12, 120);
    for (int i = 0; i < steps; i++) {
        int op = static_cast<int>(s.draw(pose ? 8 : 5));
        std::string when = "step " + std::to_string(i);
        if (op <= 2) { // increment, possibly many times
            auto d = small_or_big_rot(s);
            auto dp = s.coin() ? gen::coords(s, 3) : std::vector<double>{0, 0, 0};
            int times = 1;
            if (op == 2) times = s.pick(std::vector<int>{2, 10, 100, 1500});
            Vec dx(pose ? 6 : 3);
            if (pose)
                dx << e3(dp), e3(d);
            else
                dx << e3(d);
            when += ": increment " + show3(r3(d)) + " x" + std::to_string(times);
            if (norm(r3(d)) > 0) rotations += times > 1 ? 2 : 1;
            for (int k = 0; k < times; k++) {
                if (pose)
                    p->apply_increment(dx);
                else
                    q->apply_increment(dx);
                advance_rot(m, r3(d));
                if (pose) {
                    m.pos = m.pos + r3(dp);
                    m.ptol += 4e-16L * (norm(m.pos) + norm(r3(dp)));
                }
            }
        } else if (op == 3) {
            auto x = gen::coords(s, 3);
            auto r = gen::rotvec(s);
            if (s.chance(1, 5))
                for (auto& v : r) v *= 2.5;
            when += ": set from vector " + show3(r3(r));
            if (pose) {
                Vec v(6);
                v << e3(x), e3(r);
                if (s.coin()) {
                    p->set_value_from_vector(v);
                } else {
                    Eigen::Matrix<double, 6, 1> v6 = v;
                    p->set_pose_vector(v6);
                }
                PBT_REQUIRE(p->value() == v, when << ": value() is not the vector that was set");
                m.pos = r3(x);
                m.ptol = 1e-15L;
            } else {
                q->set_value_from_vector(e3(r));
                PBT_REQUIRE(q->value() == e3(r), when << ": value() is not the vector that was set");
            }
            m.rot = exp3(r3(r));
            m.rtol = 1e-12L;
        } else if (op == 4) {
            when += ": clone";
            if (pose) {
                p = std::dynamic_pointer_cast<fg::PoseVariable>(p->clone());
                PBT_REQUIRE(p != nullptr, "clone of a pose is not a pose");
            } else {
                q = std::dynamic_pointer_cast<fg::RotationVariable>(q->clone());
                PBT_REQUIRE(q != nullptr, "clone of a rotation is not a rotation");
            }
        } else if (op == 5) {
            auto x = gen::coords(s, 3);
            when += ": set_pos_W";
            p->set_pos_W(e3(x));
            m.pos = r3(x);
            m.ptol = 1e-15L;
        } else if (op == 6) {
            auto r = gen::rotvec(s);
            when += ": set_dcm_CW " + show3(r3(r));
            p->set_dcm_CW(dcm_of(r));
            m.rot = rmat(dcm_of(r));
            m.rtol = 1e-12L;
        } else {
            when += ": set to its own value";
            p->set_value_from_vector(Vec(p->value()));
        }
        if (c.want_text) log << when << "; ";
        check(when.c_str());
    }
    c.nontrivial = rotations >= 2;
    c.label(pose ? "pose" : "rotation");
}

// ------------------------------------------------------------------------------------------- P03
PROPERTY(P03, "one case: a plane, 2D pose, inverse-range, landmark or generic variable and a history of 1..15 increments, "
              "sets, setter calls and (inverse range) bound changes, with angles of many turns, non-unit normals and "
              "out-of-range values; non-trivial: at least two writes")
{
    static const VK kinds[] = {PLANE, POSE2, INV, LM, GEN};
    VarSpec v = gen::var(s, kinds[s.draw(5)]);
    v.id = s.range(0, 9);
    VarPtr p = make_var(v);
    int writes = 0;
    std::ostringstream& log = c.text;
    log.precision(17);
    if (c.want_text) show(log, v);
    c.label(vk_name(v.k));

    auto *plane = as<fg::PlaneVariable>(p);
    auto *p2 = as<fg::Pose2DVariable>(p);
    auto *inv = as<fg::InverseRangeVariable>(p);
    auto *lm = as<fg::LandmarkVariable>(p);

    auto invariants = [&](const std::string& when) {
        const Vec& x = p->value();
        PBT_REQUIRE(x.size() == p->size() && x.allFinite(), when << ": value() has size " << x.size() << " or is not finite");
        if (plane) {
            PBT_REQUIRE(plane->unit_vector() == x.head<3>() && plane->distance_from_origin() == x[3], when << ": accessors disagree with value()");
            R n = norm(r3(plane->unit_vector()));
            PBT_REQUIRE(std::fabs(n - 1) <= 4e-15L, when << ": normal has length 1 + " << n - 1);
            auto q = gen::coords(s, 3);
            R want = dot(r3(plane->unit_vector()), r3(q)) + x[3];
            R got = plane->distance_from_point(e3(q));
            PBT_REQUIRE(std::fabs(want - got) <= 1e-14L * (1 + norm(r3(q)) + std::fabs(x[3])), when << ": distance from " << show3(r3(q)) << " is " << got
                                                                                          << " instead of " << want);
        } else if (p2) {
            PBT_REQUIRE(p2->theta() == x[2] && p2->pos_2d() == x.head<2>(), when << ": accessors disagree with value()");
            PBT_REQUIRE(std::fabs(x[2]) <= kPi + 1e-15, when << ": theta " << x[2] << " outside [-pi, pi]");
            Eigen::Matrix2d D = p2->dcm_2d();
            R cs = std::cos(static_cast<R>(x[2])), sn = std::sin(static_cast<R>(x[2]));
            PBT_REQUIRE(close(D(0, 0), cs, 1e-15L) && close(D(1, 1), cs, 1e-15L) && close(D(1, 0), sn, 1e-15L) && close(D(0, 1), -sn, 1e-15L),
                        when << ": dcm_2d does not rotate by theta " << x[2]);
        } else if (inv) {
            PBT_REQUIRE(inv->inverse_range() == x[0], when << ": inverse_range() disagrees with value()");
            R bn = norm(r3(inv->bearing_W()));
            PBT_REQUIRE(std::fabs(bn - 1) <= 1e-14L, when << ": bearing has length " << bn);
            V3 b0 = ref::unit(r3(v.extra, 3));
            PBT_REQUIRE(norm(b0 - r3(inv->bearing_W())) <= 1e-14L, when << ": bearing changed direction");
            PBT_REQUIRE(inv->origin_pos_W() == e3(v.extra), when << ": origin changed");
            V3 want = r3(v.extra) + (1 / static_cast<R>(x[0])) * r3(inv->bearing_W());
            R e = norm(want - r3(inv->pos_W()));
            PBT_REQUIRE(e <= 1e-14L * (norm(r3(v.extra)) + 1 / static_cast<R>(x[0]) + 1), when << ": pos_W is off by " << e);
        } else if (lm) {
            PBT_REQUIRE(lm->pos_W() == x, when << ": pos_W disagrees with value()");
        }
    };
    // What a variable's value must be after x was written to it
    auto expect = [&](const std::string& when, const Vec& raw, const Vec& before) {
        const Vec& x = p->value();
        if (plane) {
            V3 n = ref::vec(raw[0], raw[1], raw[2]);
            R l = norm(n);
            R e = norm(r3(Eigen::Vector3d(x.head<3>())) - (1 / l) * n);
            PBT_REQUIRE(e <= 2e-15L * (1 + (norm(r3(Eigen::Vector3d(before.head<3>()))) + l) / l) && x[3] == raw[3],
                        when << ": plane is " << x.transpose() << " after writing " << raw.transpose());
        } else if (p2) {
            R e = ref::angdist(x[2], raw[2]);
            PBT_REQUIRE(x[0] == raw[0] && x[1] == raw[1] && e <= 4e-16L * (2 + std::fabs(raw[2])), when << ": 2D pose is " << x.transpose() << " after writing "
                                                                                          << raw.transpose());
        } else if (inv) {
            double w = std::min(std::max(raw[0], inv->minimum_inverse_range_), inv->maximum_inverse_range_);
            PBT_REQUIRE(x[0] == w, when << ": inverse range is " << x[0] << " after writing " << raw[0] << " with bounds ["
                                        << inv->minimum_inverse_range_ << "," << inv->maximum_inverse_range_ << "]");
        } else {
            PBT_REQUIRE(x == raw, when << ": value is " << x.transpose() << " after writing " << raw.transpose());
        }
    };

    Vec init = evec(v.x);
    if (v.k == INV) init[0] = 1 / v.x[0];
    expect("after construction", init, init);
    invariants("after construction");

    int steps = s.length(1, c.thorough ? 40 : 15, 400);
    for (int i = 0; i < steps; i++) {
        int op = static_cast<int>(s.draw(6));
        Vec before = p->value();
        std::string when = "step " + std::to_string(i);
        auto raw_value = [&](bool increment) {
            Vec x(p->size());
            for (Eigen::Index k = 0; k < x.size(); k++) x[k] = gen::coord(s);
            if (p2) {
                x[2] = gen::angle(s);
                if (s.chance(1, 3)) x[2] += 2 * kPi * s.range(-20, 20);
                if (s.chance(1, 6)) x[2] = increment ? (s.coin() ? kPi : -kPi) - before[2] : (s.coin() ? kPi : -kPi);
            }
            if (inv) {
                double top = s.logu(1e-9, 1e5);
                x[0] = increment ? (s.coin() ? -top : top) : (s.chance(1, 4) ? -top : top);
            }
            if (plane && increment && s.coin()) // small motions as an optimizer makes them
                for (int k = 0; k < 3; k++) x[k] = (s.coin() ? 1 : -1) * s.logu(1e-10, 0.3);
            return x;
        };
        if (op <= 2) {
            Vec dx = raw_value(true);
            Vec raw = before + dx;
            if (plane && s.chance(1, 12)) { // no plane is left: refused, and nothing changes
                for (int k = 0; k < 3; k++) dx[k] = -before[k];
                bool threw = false;
                try {
                    p->apply_increment(dx);
                } catch (const std::exception&) {
                    threw = true;
                }
                PBT_REQUIRE(threw, when << ": an increment that cancels the normal was accepted, value " << p->value().transpose());
                PBT_REQUIRE(p->value() == before, when << ": a refused increment changed the value to " << p->value().transpose());
                if (c.want_text) log << "; cancel the normal";
                continue;
            }
            if (plane && raw.head<3>().norm() < 1e-3) continue; // nearly cancels the normal
            when += ": increment";
            p->apply_increment(dx);
            writes++;
            if (c.want_text) log << "; increment " << dx.transpose();
            expect(when, raw, before);
        } else if (op <= 4 || (!p2 && !inv && !lm)) {
            Vec x = raw_value(false);
            if (plane && x.head<3>().norm() < 1e-3) continue;
            when += ": set";
            p->set_value_from_vector(x);
            writes++;
            if (c.want_text) log << "; set " << x.transpose();
            expect(when, x, x);
        } else if (p2) {
            Vec x = raw_value(false);
            if (s.coin()) {
                when += ": set_theta";
                p2->set_theta(x[2]);
                Vec raw = before;
                raw[2] = x[2];
                if (c.want_text) log << "; set_theta " << x[2];
                expect(when, raw, raw);
            } else {
                when += ": set_pos_2d";
                p2->set_pos_2d(x.head<2>());
                PBT_REQUIRE(p2->value()[2] == before[2] && p2->value().head<2>() == x.head<2>(), when << ": value " << p2->value().transpose());
                if (c.want_text) log << "; set_pos_2d " << x.head<2>().transpose();
            }
            writes++;
        } else if (lm) {
            Vec x = raw_value(false);
            when += ": set_pos_W";
            lm->set_pos_W(x);
            PBT_REQUIRE(lm->value() == x, when << ": value " << lm->value().transpose());
            writes++;
        } else if (inv) {
            when += ": bounds";
            double a = s.logu(1e-8, 1e4), b = s.logu(1e-8, 1e4);
            inv->minimum_inverse_range_ = std::min(a, b);
            inv->maximum_inverse_range_ = std::max(a, b);
            if (c.want_text) log << "; bounds " << std::min(a, b) << ".." << std::max(a, b);
            if (s.coin()) {
                inv->clip_inverse_range();
                expect(when + " and clip", before, before);
            } else {
                Vec x = raw_value(false);
                p->set_value_from_vector(x);
                expect(when + " and set", x, x);
            }
            writes++;
        }
        invariants(when);
    }
    c.nontrivial = writes >= 2;
}

// ------------------------------------------------------------------------------------------- P04
namespace
{
    Vec legal_value(Src& s, VK k, int n)
    {
        VarSpec v = gen::var(s, k, k == GEN ? n : 0);
        Vec x = evec(v.x);
        if (k == INV) x[0] = 1 / x[0];
        return x;
    }
    Vec legal_increment(Src& s, VK k, int n)
    {
        Vec x(n);
        for (int i = 0; i < n; i++) x[i] = s.symmetric(1);
        if (k == PLANE) x.head<3>() *= 0.3;
        if (k == POSE) x.tail<3>() *= s.logu(1e-9, 3);
        return x;
    }
    void write(Src& s, fg::Variable& v, VK k)
    {
        switch (s.draw(4)) {
        case 0: v.set_value_from_vector(legal_value(s, k, v.size())); return;
        case 1: v.set_constant(!v.is_constant()); return;
        default: v.apply_increment(legal_increment(s, k, v.size())); return;
        }
    }
} // namespace

PROPERTY(P04, "one case: a variable of any kind after 0..5 random writes; clone (and clone of clone), 1..8 writes to a random "
              "one of the copies with all copies observed after each, then a self-set and wrong-sized writes of every length "
              "0..size+3; non-trivial: at least one write to a copy and one rejected write")
{
    VK k = static_cast<VK>(s.draw(NUM_VK));
    VarSpec v = gen::var(s, k);
    std::set<int> used;
    v.id = gen::fresh_id(s, used);
    v.constant = s.coin();
    VarPtr p = make_var(v);
    if (c.want_text) show(c.text, v);
    c.label(vk_name(k));
    PBT_REQUIRE(p->id() == v.id && p->is_constant() == v.constant, "id or constant flag lost on construction");
    PBT_REQUIRE(p->size() == gen::value_size(v), "size " << p->size());
    PBT_REQUIRE(p->name().find(std::to_string(v.id)) != std::string::npos, "name " << p->name() << " does not carry the id " << v.id);
    if (auto *inv = as<fg::InverseRangeVariable>(p))
        if (s.coin()) inv->minimum_inverse_range_ = 1e-5;
    int pre = s.range(0, 5);
    for (int i = 0; i < pre; i++) write(s, *p, k);

    std::vector<VarPtr> copies{p};
    std::vector<Obs> obs{observe(*p)};
    int nc = s.range(1, 3);
    for (int i = 0; i < nc; i++) {
        size_t from = s.draw(static_cast<uint32_t>(copies.size()));
        VarPtr q = copies[from]->clone();
        PBT_REQUIRE(q && q != copies[from], "clone() returned the same object");
        PBT_REQUIRE(typeid(*q) == typeid(*copies[from]), "clone() returned another class");
        Obs o = observe(*q);
        PBT_REQUIRE(o == obs[from], "clone differs from its original: " << o.txt << " / " << obs[from].txt);
        copies.push_back(q);
        obs.push_back(o);
        PBT_REQUIRE(observe(*copies[from]) == obs[from], "cloning changed the original");
    }
    int writes = s.range(1, 8);
    for (int i = 0; i < writes; i++) {
        size_t at = s.draw(static_cast<uint32_t>(copies.size()));
        write(s, *copies[at], k);
        for (size_t j = 0; j < copies.size(); j++) {
            Obs o = observe(*copies[j]);
            if (j == at)
                obs[j] = o;
            else
                PBT_REQUIRE(o == obs[j], "write to copy " << at << " changed copy " << j << ": " << obs[j].txt << " -> " << o.txt);
        }
        if (copies.size() > 1 && s.chance(1, 6)) { // one of them goes away
            copies.erase(copies.begin() + static_cast<long>(at));
            obs.erase(obs.begin() + static_cast<long>(at));
        }
    }
    VarPtr q = copies[s.draw(static_cast<uint32_t>(copies.size()))];
    // Its own value
    {
        Obs a = observe(*q);
        if (s.coin())
            q->set_value_from_vector(q->value()); // aliased
        else
            q->set_value_from_vector(Vec(q->value()));
        Obs b = observe(*q);
        PBT_REQUIRE(a.txt == b.txt && a.num.size() == b.num.size(), "setting the own value changed " << a.txt << " to " << b.txt);
        // a stored rotation matrix is allowed the rounding of the logarithm, everything else one more normalisation
        R tol = 1e-14L;
        if (k == ROT) tol = 2 * log_tol(norm(log3(rmat(as<fg::RotationVariable>(q)->rotation()))));
        for (size_t i = 0; i < a.num.size(); i++) {
            R d = std::fabs(static_cast<R>(a.num[i]) - b.num[i]);
            if (k == POSE2 && i == 2) d = angdist(a.num[i], b.num[i]);
            PBT_REQUIRE(d <= tol * (1 + std::fabs(a.num[i])), "setting the own value changed number " << i << " from " << a.num[i] << " to " << b.num[i]);
        }
    }
    // Wrong sizes
    Obs before = observe(*q);
    for (int n = 0; n <= q->size() + 3; n++) {
        if (n == q->size()) continue;
        for (int kind = 0; kind < 2; kind++) {
            Vec x = Vec::Constant(n, 0.25);
            bool threw = false;
            try {
                if (kind)
                    q->apply_increment(x);
                else
                    q->set_value_from_vector(x);
            } catch (const std::exception&) {
                threw = true;
            }
            PBT_REQUIRE(threw, (kind ? "apply_increment" : "set_value_from_vector") << " of a " << vk_name(k) << " of size " << q->size()
                                                                                  << " accepted a vector of length " << n);
            PBT_REQUIRE(observe(*q) == before, "a rejected vector of length " << n << " changed the " << vk_name(k));
        }
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------- P24

// Stopwatches under a clock that only the case moves: what they read is known to the last digits
static void stopwatch_exactly(Src& s, Ctx& c)
{
    FakeClock clock(0);
    {
        bool follows = false; // a stopwatch that looks at the time in another way is left to the cases in real time
        for (long long ns : {1000000000LL, 3600 * 1000000000LL}) {
            fg::Stopwatch w;
            w.start();
            clock.pass(ns);
            follows = follows || w.elapsed() > 1e-12 * static_cast<double>(ns);
        }
        if (!follows) throw Discard{};
    }
    struct Mirror
    {
        bool running = false;
        long long since = 0, total = 0, added = 0; // exact nanoseconds, and what was ever added since the reset
        int segments = 0;
    };
    const size_t many = static_cast<size_t>(s.range(1, 3));
    std::vector<fg::Stopwatch> w(many);
    std::vector<Mirror> m(many);
    const bool lengthy = s.chance(1, 200);
    int n = lengthy ? s.range(300, 3000) : s.range(2, c.thorough ? 60 : 25);
    int repeats = 0, segments = 0;
    long long now = 0, longest = lengthy ? 1000000000000LL : 30000000000000000LL;
    std::mt19937_64 rng(lengthy ? s.draw(1u << 30) : 0);
    auto draw = [&](uint32_t k) { return lengthy ? static_cast<uint32_t>(rng() % k) : s.draw(k); };
    for (int i = 0; i < n; i++) {
        if (draw(3)) {
            long long d = 1;
            for (int k = static_cast<int>(draw(18)); k > 0; k--) d *= 10;
            d = std::min(longest, d * (1 + draw(9)) + draw(1000));
            clock.pass(d);
            now += d;
            if (c.want_text) c.text << d << " ns; ";
        }
        if (!lengthy && s.chance(1, 4)) {
            clock.set_date((s.coin() ? 1 : -1) * s.pick(std::vector<long long>{1000000000LL, 3600 * 1000000000LL, 1000LL, 300000 * 1000000000LL}));
            if (c.want_text) c.text << "date set; ";
        }
        size_t k = draw(static_cast<uint32_t>(many));
        int op = static_cast<int>(draw(7));
        if (lengthy && op == 3 && draw(40)) op = 0;
        if (c.want_text) c.text << (op == 0 || op == 5 ? "start " : op == 1 || op == 6 ? "stop " : op == 2 ? "elapsed " : op == 3 ? "reset " : "copy ") << k << "; ";
        if (op == 0 || op == 5) {
            w[k].start();
            if (m[k].running) repeats++;
            else m[k].running = true, m[k].since = now;
        } else if (op == 1 || op == 6) {
            w[k].stop();
            if (m[k].running) {
                m[k].running = false;
                m[k].total += now - m[k].since;
                m[k].segments++;
                segments += now != m[k].since;
            } else {
                repeats++;
            }
        } else if (op == 3) {
            w[k].reset();
            m[k] = Mirror();
        } else if (op == 4) {
            size_t j = draw(static_cast<uint32_t>(many));
            if (s.coin()) {
                fg::Stopwatch copy = w[k];
                w[j] = copy;
            } else {
                w[j] = w[k];
            }
            m[j] = m[k];
        }
        for (size_t q = 0; q < many; q++) {
            long long ns = m[q].total + (m[q].running ? now - m[q].since : 0);
            double want = static_cast<double>(static_cast<long double>(ns) * 1e-9L);
            double tol = 4e-16 * (m[q].segments + 4) * want;
            double e = w[q].elapsed(), again = w[q].elapsed();
            PBT_REQUIRE(std::abs(e - want) <= tol, "stopwatch " << q << " reads " << std::setprecision(17) << e << " instead of " << want << " after step " << i << " (op " << op << " on " << k << ")");
            PBT_REQUIRE(again == e, "elapsed changed from " << e << " to " << again << " though no time passed");
        }
        c.mixin(static_cast<uint64_t>(op));
    }
    c.label("under a clock of the case's own");
    if (lengthy) c.label("hundreds of calls");
    c.nontrivial = segments > 0 && repeats > 0;
}

PROPERTY(P24, "one case: 2..25 calls (1 in 200 of these: 300..3000) of start/stop/reset/elapsed/copy on up to 3 stopwatches under "
              "a clock that the case moves by 1 ns to a year while it also sets the date; or (1 in 8) 2..14 calls on one with busy "
              "waits of 0..150 us between them, bracketed by the harness's own clock readings; non-trivial: at least one running "
              "segment (of 20 us or more in real time) and one repeated call")
{
    if (!s.chance(1, 8)) return stopwatch_exactly(s, c);
    c.label("in real time");
    using Clock = std::chrono::steady_clock;
    auto now = [] { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); };
    fg::Stopwatch w;
    bool running = false;
    double lo = 0, hi = 0;          // bounds on what was accumulated
    double s0 = 0, s1 = 0;          // bounds on the time of the effective start
    int n = s.range(2, c.thorough ? 30 : 14), repeats = 0, waits = 0;
    double last = -1;
    bool since_read_only = false;
    for (int i = 0; i < n; i++) {
        if (s.coin()) {
            int us = s.pick(std::vector<int>{20, 50, 150, 5});
            double until = now() + us * 1e-6;
            while (now() < until) {
            }
            if (us >= 20 && running) waits++;
        }
        int op = static_cast<int>(s.draw(5));
        if (c.want_text) c.text << (op == 0 ? "start " : op == 1 ? "stop " : op == 2 ? "elapsed " : op == 3 ? "reset " : "copy ");
        double a = now();
        if (op == 0) {
            w.start();
            double b = now();
            if (running) {
                repeats++;
            } else {
                running = true;
                s0 = a, s1 = b;
                since_read_only = false;
            }
        } else if (op == 1) {
            w.stop();
            double b = now();
            if (running) {
                lo += std::max(0.0, a - s1);
                hi += b - s0;
                running = false;
                since_read_only = false;
            } else {
                repeats++;
            }
        } else if (op == 3) {
            w.reset();
            running = false;
            lo = hi = 0;
            since_read_only = false;
        } else if (op == 4) {
            fg::Stopwatch copy = w;
            w = copy;
        }
        double t0 = now();
        double e = w.elapsed();
        double t1 = now();
        double l = lo + (running ? std::max(0.0, t0 - s1) : 0), h = hi + (running ? t1 - s0 : 0);
        double slack = 1e-6 + 1e-3 * h; // another clock may be slewed against ours
        PBT_REQUIRE(e >= l - slack && e <= h + slack, "elapsed " << e << " outside [" << l << "," << h << "] after step " << i << " (op " << op << ")");
        if (!running && since_read_only) PBT_REQUIRE(e == last, "elapsed changed from " << last << " to " << e << " while stopped");
        last = e;
        since_read_only = !running;
        c.mixin(static_cast<uint64_t>(op));
    }
    c.nontrivial = waits > 0 && repeats > 0;
}
