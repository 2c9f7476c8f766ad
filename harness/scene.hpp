// Well-posed scenes: measurements computed from a known truth by the reference model, a reference
// linearisation and a reference optimizer, all independent of the library.
#pragma once
#include "gen.hpp"

using LR = long double;
using LMat = Eigen::Matrix<LR, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<LR, Eigen::Dynamic, 1>;

namespace scene
{
    inline State spec_state(const VarSpec& v)
    {
        State s;
        s.k = v.k;
        for (double x : v.x) s.x.push_back(x);
        if (v.k == POSE) s.rot = rmat(dcm_of(v.x, 3));
        if (v.k == ROT) s.rot = rmat(dcm_of(v.x));
        if (v.k == INV) {
            s.x[0] = 1 / s.x[0];
            s.origin = r3(v.extra);
            s.bearing = ref::unit(r3(v.extra, 3));
        }
        if (v.k == PLANE) {
            V3 n = ref::unit(r3(v.x));
            for (int i = 0; i < 3; i++) s.x[static_cast<size_t>(i)] = n[i];
        }
        return s;
    }
    inline std::vector<State> spec_states(const GraphSpec& g)
    {
        std::vector<State> o;
        for (auto& v : g.vars) o.push_back(spec_state(v));
        return o;
    }
    // A whole step in the variable's own coordinates
    inline State step(State s, const std::vector<LR>& d)
    {
        if (s.k == POSE) {
            for (size_t i = 0; i < 3; i++) s.x[i] += d[i];
            s.rot = ref::exp3(ref::vec(d[3], d[4], d[5])) * s.rot;
        } else if (s.k == ROT) {
            s.rot = ref::exp3(ref::vec(d[0], d[1], d[2])) * s.rot;
        } else {
            for (size_t i = 0; i < s.x.size(); i++) s.x[i] += d[i];
            if (s.k == PLANE) {
                V3 n = ref::unit(ref::vec(s.x[0], s.x[1], s.x[2]));
                for (int i = 0; i < 3; i++) s.x[static_cast<size_t>(i)] = n[i];
            }
        }
        return s;
    }
    inline void store(VarSpec& v, const State& s)
    {
        if (v.k == POSE || v.k == ROT) {
            V3 w = ref::log3(s.rot);
            size_t o = v.k == POSE ? 3 : 0;
            if (v.k == POSE)
                for (size_t i = 0; i < 3; i++) v.x[i] = static_cast<double>(s.x[i]);
            for (size_t i = 0; i < 3; i++) v.x[o + i] = static_cast<double>(w[static_cast<int>(i)]);
        } else if (v.k == INV) {
            v.x[0] = static_cast<double>(1 / s.x[0]);
        } else {
            for (size_t i = 0; i < v.x.size(); i++) v.x[i] = static_cast<double>(s.x[i]);
        }
    }
    // How far apart two states of the same variable are
    inline LR distance(const State& a, const State& b)
    {
        LR d = 0;
        auto take = [&](LR x) { d = x <= d ? d : x; if (std::isnan(x)) d = 1e300L; };
        size_t n = a.k == POSE ? 3 : a.k == ROT ? 0 : a.x.size();
        for (size_t i = 0; i < n; i++) take(a.k == POSE2 && i == 2 ? ref::angdist(a.x[i], b.x[i]) : std::fabs(a.x[i] - b.x[i]));
        if (a.k == POSE || a.k == ROT) take(ref::maxdiff(a.rot, b.rot));
        return d;
    }

    struct Lin
    {
        LMat J;
        LVec r;
        std::vector<int> col; // first column of each variable, -1 for constants
        LR cost() const { return r.squaredNorm(); }
    };
    using Bases = std::vector<Basis>;
    inline Bases bases_of(const GraphSpec& g)
    {
        Bases b(g.facs.size());
        for (size_t i = 0; i < g.facs.size(); i++)
            if (g.facs[i].k == F_PROJ) b[i] = probe_basis(g.facs[i]);
        return b;
    }
    inline LVec residual(const GraphSpec& g, const std::vector<State>& st, const Bases& bs)
    {
        std::vector<LR> r;
        for (size_t i = 0; i < g.facs.size(); i++) {
            Residual q = residual_of(g.facs[i], st, LF_PINNED, g.facs[i].k == F_PROJ ? &bs[i] : nullptr);
            for (size_t k = 0; k < q.size(); k++) r.push_back(q.weighted(k));
        }
        LVec v(static_cast<Eigen::Index>(r.size()));
        for (size_t i = 0; i < r.size(); i++) v[static_cast<Eigen::Index>(i)] = r[i];
        return v;
    }
    // Residual and central-difference Jacobian
    inline Lin linearize(const GraphSpec& g, std::vector<State> st, const Bases& bs, LR h = 1e-6L)
    {
        Lin L;
        L.r = residual(g, st, bs);
        int n = 0;
        for (size_t i = 0; i < g.vars.size(); i++) {
            L.col.push_back(g.vars[i].constant ? -1 : n);
            n += g.vars[i].constant ? 0 : gen::value_size(g.vars[i]);
        }
        L.J = LMat::Zero(L.r.size(), n);
        Eigen::Index row = 0;
        for (size_t fi = 0; fi < g.facs.size(); fi++) {
            auto& f = g.facs[fi];
            const Basis *b = f.k == F_PROJ ? &bs[fi] : nullptr;
            Eigen::Index rows = static_cast<Eigen::Index>(gen::residual_rows(f, g.vars));
            for (int vi : f.v) {
                size_t v = static_cast<size_t>(vi);
                if (L.col[v] < 0) continue;
                State keep = st[v];
                for (int k = 0; k < gen::value_size(g.vars[v]); k++) {
                    st[v] = moved(keep, k, h);
                    Residual p = residual_of(f, st, LF_PINNED, b);
                    st[v] = moved(keep, k, -h);
                    Residual m = residual_of(f, st, LF_PINNED, b);
                    for (size_t q = 0; q < p.size(); q++) {
                        LR d = p.r[q] - m.r[q];
                        if (p.period[q] != 0) d = std::remainder(d, p.period[q]);
                        L.J(row + static_cast<Eigen::Index>(q), L.col[v] + k) = d * p.w[q] / (2 * h);
                    }
                }
                st[v] = keep;
            }
            row += rows;
        }
        return L;
    }
    struct Spectrum
    {
        double smin = 0, smax = 0; // singular values of J, gauge directions of planes left out
        double cond() const { return smin > 0 ? smax / smin : 1e300; }
    };
    // planes: the length of a free plane's normal is not a degree of freedom; it is left out
    inline Spectrum spectrum(const GraphSpec& g, const Lin& L)
    {
        LMat H = L.J.transpose() * L.J;
        int gauge = 0;
        for (size_t i = 0; i < g.vars.size(); i++) gauge += g.vars[i].k == PLANE && !g.vars[i].constant;
        Spectrum s;
        if (H.rows() == 0) {
            s.smin = s.smax = 1;
            return s;
        }
        Eigen::SelfAdjointEigenSolver<LMat> e(H, Eigen::EigenvaluesOnly);
        s.smax = static_cast<double>(std::sqrt(e.eigenvalues()[H.rows() - 1]));
        LR lo = gauge < H.rows() ? e.eigenvalues()[gauge] : 0;
        s.smin = lo > 0 ? static_cast<double>(std::sqrt(lo)) : 0;
        return s;
    }
    inline std::vector<State> apply(const GraphSpec& g, const Lin& L, std::vector<State> st, const LVec& dx)
    {
        for (size_t i = 0; i < st.size(); i++) {
            if (L.col[i] < 0) continue;
            std::vector<LR> d;
            for (int k = 0; k < gen::value_size(g.vars[i]); k++) d.push_back(dx[L.col[i] + k]);
            st[i] = step(st[i], d);
        }
        return st;
    }
    inline LVec newton(const GraphSpec& g, const Lin& L)
    {
        LMat H = L.J.transpose() * L.J;
        LR t = H.rows() ? H.trace() / H.rows() : 1;
        for (size_t i = 0; i < g.vars.size(); i++)
            if (g.vars[i].k == PLANE && L.col[i] >= 0)
                for (int k = 0; k < 3; k++) H(L.col[i] + k, L.col[i] + k) += 1e-12L * t; // the normal's length
        return -(H.ldlt().solve(L.J.transpose() * L.r));
    }
    // Gauss-Newton to convergence; false if it does not settle
    inline bool solve(const GraphSpec& g, std::vector<State>& st, const Bases& bs)
    {
        for (int it = 0; it < 60; it++) {
            Lin L = linearize(g, st, bs);
            if (L.J.cols() == 0) return true;
            LVec dx = newton(g, L);
            if (!(dx.norm() < 10)) return false;
            st = apply(g, L, st, dx);
            if (dx.norm() < 1e-13L) return true;
        }
        return false;
    }

    struct Opt
    {
        bool linear = false;      // factors linear in the free variables only
        bool planes = true;       // allow free planes (their normals' length is a gauge)
        bool constants = true;
        double noise = 0;         // in units of sigma
        double cond = 60;         // largest accepted condition number of J
        double smin = 0.05;       // smallest accepted singular value of J
        int max_facs = 8;
        bool coords_far = false;
        bool tame_ids = false;
    };
    struct Scene
    {
        GraphSpec g;                // with the true values
        std::vector<State> truth;
        Spectrum sp;
        Bases bases;
    };

    inline std::vector<double> place(Src& s, double m) { return {s.symmetric(m), s.symmetric(m), s.symmetric(m)}; }
    inline double sig(Src& s) { return s.coin() ? s.pick(std::vector<double>{1, 0.5, 0.2, 0.1, 2}) : s.logu(0.1, 3); }

    struct Maker
    {
        Src& s;
        const Opt& o;
        Scene& sc;
        std::set<int> ids, fids;
        GraphSpec& g = sc.g;

        int add(VarSpec v, int never_const = 0)
        {
            v.id = o.tame_ids ? static_cast<int>(g.vars.size()) : gen::fresh_id(s, ids);
            v.constant = !never_const && o.constants && s.chance(1, 6);
            g.vars.push_back(v);
            return static_cast<int>(g.vars.size()) - 1;
        }
        VarSpec fresh(VK k, int n = 0)
        {
            VarSpec v;
            v.k = k;
            switch (k) {
            case POSE: {
                v.x = place(s, 3);
                auto d = gen::direction(s);
                double t = s.uniform(0, 2.6);
                for (double q : d) v.x.push_back(t * q);
                v.via_dcm = s.chance(1, 4);
                break;
            }
            case LM: v.x = place(s, 8); break;
            case ROT: {
                auto d = gen::direction(s);
                double t = s.uniform(0, 2.6);
                for (double q : d) v.x.push_back(t * q);
                break;
            }
            case INV:
                v.x = {s.uniform(0.8, 8)};
                v.extra = place(s, 3);
                for (double q : gen::direction(s)) v.extra.push_back(q);
                break;
            case GEN:
                for (int i = 0; i < n; i++) v.x.push_back(s.symmetric(5));
                break;
            case PLANE:
                v.x = gen::direction(s);
                v.x.push_back(s.symmetric(4));
                break;
            case POSE2: v.x = {s.symmetric(5), s.symmetric(5), s.symmetric(3.1)}; break;
            default: break;
            }
            return v;
        }
        // An existing variable of this shape, or a new one; never one of those already used by this factor
        int have(VK k, int n, const std::vector<int>& used)
        {
            std::vector<int> c;
            for (size_t i = 0; i < g.vars.size(); i++)
                if (gen::fits({k, n}, g.vars[i]) && std::find(used.begin(), used.end(), static_cast<int>(i)) == used.end()) c.push_back(static_cast<int>(i));
            if (c.empty() || s.chance(1, 4)) return add(fresh(k, n));
            return c[s.draw(static_cast<uint32_t>(c.size()))];
        }
        State at(int i) { return spec_state(g.vars[static_cast<size_t>(i)]); }
        V3 pos(int i) { auto t = at(i); return ref::vec(t.x[0], t.x[1], t.x[2]); }
        std::vector<double> dv(V3 v) { return {static_cast<double>(v[0]), static_cast<double>(v[1]), static_cast<double>(v[2])}; }
        // A derived variable with this value; often constant (a known measurement)
        int derived(VK k, const std::vector<double>& x)
        {
            VarSpec v;
            v.k = k;
            v.x = x;
            int i = add(v);
            if (o.constants && s.coin()) g.vars[static_cast<size_t>(i)].constant = true;
            return i;
        }
        int derived3(V3 x) { return derived(s.coin() ? LM : GEN, dv(x)); }
        double nz(double sigma) { return o.noise > 0 ? o.noise * sigma * s.symmetric(1) : 0; }
        void push(FacSpec f)
        {
            f.id = o.tame_ids ? static_cast<int>(g.facs.size()) : gen::fresh_id(s, fids);
            g.facs.push_back(f);
        }
        VarSpec& V(int i) { return g.vars[static_cast<size_t>(i)]; }
        void prior(int i)
        {
            FacSpec f;
            f.v = {i};
            f.s1 = sig(s);
            f.s2 = sig(s);
            State t = at(i);
            switch (V(i).k) {
            case POSE: {
                f.k = F_POSPRIOR;
                for (size_t k = 0; k < 3; k++) f.a.push_back(V(i).x[k] + nz(f.s1));
                push(f);
                f.k = F_ORIPRIOR;
                f.s1 = sig(s);
                V3 d = ref::vec(nz(f.s1), nz(f.s1), nz(f.s1));
                f.a = dv(ref::log3(ref::exp3(d) * t.rot));
                break;
            }
            case ROT: {
                f.k = F_ROTPRIOR;
                V3 d = ref::vec(nz(f.s1), nz(f.s1), nz(f.s1));
                f.a = dv(ref::log3(ref::exp3(d) * t.rot));
                break;
            }
            case PLANE:
                f.k = F_PLANEPRIOR;
                f.a = V(i).x;
                for (int k = 0; k < 3; k++) f.a[static_cast<size_t>(k)] += nz(f.s1);
                f.a[3] += nz(f.s2);
                break;
            case POSE2:
                f.k = F_P2PRIOR;
                f.a = {V(i).x[0] + nz(f.s1), V(i).x[1] + nz(f.s1), V(i).x[2] + nz(f.s2) + 6.283185307179586 * s.range(-1, 1)};
                break;
            default:
                f.k = F_PRIOR;
                for (LR x : t.x) f.a.push_back(static_cast<double>(x) + nz(f.s1));
            }
            push(f);
        }
        void noisy_const(int i, double sigma)
        {
            if (!V(i).constant || o.noise == 0) return;
            // a constant that only this factor uses stands for a measurement
            std::vector<LR> d;
            for (int k = 0; k < gen::value_size(V(i)); k++) d.push_back(nz(sigma));
            store(V(i), step(at(i), d));
        }
        bool one(FK k)
        {
            FacSpec f;
            f.k = k;
            f.s1 = sig(s);
            f.s2 = sig(s);
            switch (k) {
            case F_BEARING:
            case F_PROJ:
            case F_INVB: {
                int p = have(POSE, 0, {});
                int l = k == F_INVB ? have(INV, 0, {}) : have(LM, 0, {});
                V3 w = k == F_INVB ? at(l).origin + (1 / at(l).x[0]) * at(l).bearing : pos(l);
                V3 c = at(p).rot * (w - pos(p));
                if (ref::norm(c) < 0.7L) return false;
                V3 b = ref::unit(c);
                f.a = dv(b);
                for (auto& x : f.a) x += nz(f.s1);
                f.d1 = 1e-6;
                f.v = {p, l};
                break;
            }
            case F_PRIOR: f.v = {s.coin() ? have(LM, 0, {}) : have(GEN, s.range(1, 4), {})}; {
                    int i = f.v[0];
                    prior(i);
                    return true;
                }
            case F_BETWEEN: {
                bool three = s.coin();
                int n = three ? 3 : s.range(1, 4);
                VK kind = three && s.coin() ? LM : GEN;
                int a = have(kind, n, {}), b = have(kind, n, {a});
                State x = at(a), y = at(b);
                std::vector<double> d;
                for (size_t i = 0; i < x.x.size(); i++) d.push_back(static_cast<double>(y.x[i] - x.x[i]));
                int c = derived(n == 3 && s.coin() ? LM : GEN, d);
                noisy_const(c, f.s1);
                f.v = {a, b, c};
                break;
            }
            case F_VELOCITY: {
                int form = static_cast<int>(s.draw(3)), m = form == 0 ? s.range(1, 4) : 3;
                VK kind = form == 0 ? GEN : form == 1 ? LM : POSE;
                if (o.linear && kind == POSE) kind = LM;
                int a = have(kind, m, {}), b = have(kind, m, {a});
                int n = s.range(1, m);
                f.idx0 = s.range(0, m - n);
                f.d1 = s.pick(std::vector<double>{1, 0.5, 2, -1, 0.3});
                State x = at(a), y = at(b);
                std::vector<double> d;
                for (int i = 0; i < n; i++) d.push_back(static_cast<double>((y.x[static_cast<size_t>(i + f.idx0)] - x.x[static_cast<size_t>(i + f.idx0)]) / f.d1));
                int c = derived(GEN, d);
                noisy_const(c, f.s1);
                f.v = {a, b, c};
                break;
            }
            case F_POSPRIOR:
            case F_ORIPRIOR: prior(have(POSE, 0, {})); return true;
            case F_ROTPRIOR: prior(have(ROT, 0, {})); return true;
            case F_PLANEPRIOR: prior(have(PLANE, 0, {})); return true;
            case F_P2PRIOR: prior(have(POSE2, 0, {})); return true;
            case F_POSBETWEEN: {
                int a = have(POSE, 0, {}), b = have(POSE, 0, {a});
                f.flag = s.coin();
                V3 d = pos(b) - pos(a);
                int c = derived3(f.flag ? at(a).rot * d : d);
                noisy_const(c, f.s1);
                f.v = {a, b, c};
                break;
            }
            case F_ORIBETWEEN: {
                int a = have(POSE, 0, {}), b = have(POSE, 0, {a});
                int c = derived(ROT, dv(ref::log3(at(a).rot * ref::tr(at(b).rot))));
                noisy_const(c, f.s1);
                f.v = {a, b, c};
                break;
            }
            case F_PLANE: {
                int p = have(PLANE, 0, {});
                State t = at(p);
                V3 n = ref::vec(t.x[0], t.x[1], t.x[2]), q = ref::vec(s.symmetric(5), s.symmetric(5), s.symmetric(5));
                int c = derived3(q - (ref::dot(n, q) + t.x[3]) * n);
                f.flag = s.coin() && !o.linear;
                f.d1 = s.uniform(1, 10);
                f.b = f.flag && s.coin() ? place(s, 5) : std::vector<double>{0, 0, 0};
                noisy_const(c, f.s1);
                f.v = {c, p};
                break;
            }
            case F_BEARING2:
            case F_RB2: {
                int p = have(POSE2, 0, {}), l = have(GEN, 2, {});
                LR dx = at(l).x[0] - at(p).x[0], dy = at(l).x[1] - at(p).x[1];
                if (dx * dx + dy * dy < 0.5L) return false;
                double ang = static_cast<double>(ref::wrap(std::atan2(dy, dx) - at(p).x[2])) + 6.283185307179586 * s.range(-1, 1);
                double sa = k == F_RB2 ? f.s2 : f.s1;
                f.a = {ang + nz(sa)};
                if (k == F_RB2) f.a.insert(f.a.begin(), static_cast<double>(std::sqrt(dx * dx + dy * dy)) + nz(f.s1));
                f.v = {p, l};
                break;
            }
            case F_P2BETWEEN: {
                int a = have(POSE2, 0, {}), b = have(POSE2, 0, {a});
                LR dx = at(b).x[0] - at(a).x[0], dy = at(b).x[1] - at(a).x[1], th = at(a).x[2];
                f.flag = s.coin();
                if (f.flag) { // see LF_PINNED
                    LR c = std::cos(th), q = -std::sin(th), lx = c * dx + q * dy, ly = -q * dx + c * dy;
                    dx = lx, dy = ly;
                }
                int c = derived(GEN, {static_cast<double>(dx), static_cast<double>(dy), static_cast<double>(ref::wrap(at(b).x[2] - th))});
                noisy_const(c, f.s1);
                f.v = {a, b, c};
                break;
            }
            case F_COORD: {
                int r = have(ROT, 0, {}), t = have(GEN, 3, {}), sc1 = have(GEN, 1, {}), lb = have(LM, 0, {});
                V3 a = at(sc1).x[0] * (at(r).rot * pos(lb)) - pos(t);
                int la = derived(LM, dv(a));
                noisy_const(la, f.s1);
                f.v = {r, t, sc1, la, lb};
                break;
            }
            default: return false;
            }
            push(f);
            return true;
        }
    };

    // Makes constant whatever would make a factor nonlinear
    inline void linearise_kinds(GraphSpec& g)
    {
        for (auto& f : g.facs) {
            auto C = [&](int i) { g.vars[static_cast<size_t>(f.v[static_cast<size_t>(i)])].constant = true; };
            switch (f.k) {
            case F_POSBETWEEN:
            case F_P2BETWEEN: C(0), C(1); break;
            case F_COORD: C(0), C(2); break;
            case F_PLANE: C(1); break;
            default: break;
            }
        }
    }

    inline Scene make(Src& s, const Opt& o)
    {
        Scene sc;
        Maker m{s, o, sc};
        static const std::vector<FK> lin = {F_PRIOR, F_BETWEEN, F_BETWEEN, F_VELOCITY, F_COORD, F_PLANE, F_POSBETWEEN};
        // families that share variable kinds, so that graphs are connected
        static const std::vector<std::vector<FK>> fam = {
            {F_BEARING, F_PROJ, F_BEARING, F_INVB, F_POSPRIOR, F_POSBETWEEN, F_ORIBETWEEN, F_VELOCITY},
            {F_BEARING2, F_RB2, F_P2PRIOR, F_P2BETWEEN},
            {F_PLANE, F_PLANE, F_PLANEPRIOR, F_PRIOR},
            {F_COORD, F_ROTPRIOR, F_PRIOR, F_BETWEEN},
            {F_BEARING, F_PROJ, F_PRIOR},
        };
        int nf = s.chance(1, 1000) ? s.range(20, 40) : s.range(1, o.max_facs); // every so often a large one
        size_t fi = s.draw(static_cast<uint32_t>(fam.size()));
        for (int i = 0; i < nf; i++) {
            FK k;
            if (o.linear)
                k = s.pick(lin);
            else if (s.chance(1, 4))
                k = static_cast<FK>(s.draw(NUM_FK));
            else
                k = s.pick(fam[fi]);
            if (!o.planes && (k == F_PLANE || k == F_PLANEPRIOR)) k = F_PRIOR;
            m.one(k);
            if (s.chance(1, 6)) fi = s.draw(static_cast<uint32_t>(fam.size()));
        }
        if (sc.g.facs.empty()) throw Discard{};
        if (o.linear) linearise_kinds(sc.g);
        // some priors; then one for everything if that is not enough
        size_t nv = sc.g.vars.size();
        std::vector<bool> has(nv, false);
        auto priors = [&](bool all) {
            for (size_t i = 0; i < nv; i++)
                if (!sc.g.vars[i].constant && !has[i] && (all || s.chance(1, 3))) {
                    has[i] = true;
                    m.prior(static_cast<int>(i));
                }
        };
        auto analyse = [&] {
            sc.truth = spec_states(sc.g);
            sc.bases = bases_of(sc.g);
            Lin L = linearize(sc.g, sc.truth, sc.bases);
            if (L.J.rows() < L.J.cols()) return false;
            sc.sp = spectrum(sc.g, L);
            return sc.sp.cond() <= o.cond && sc.sp.smin >= o.smin;
        };
        priors(false);
        if (!analyse()) {
            priors(true);
            if (!analyse()) throw Discard{};
        }
        return sc;
    }
    // A copy of the graph with every free variable moved by up to p in each of its coordinates
    inline GraphSpec perturbed(Src& s, const Scene& sc, double p)
    {
        GraphSpec g = sc.g;
        for (size_t i = 0; i < g.vars.size(); i++) {
            if (g.vars[i].constant) continue;
            std::vector<LR> d;
            for (int k = 0; k < gen::value_size(g.vars[i]); k++) d.push_back(s.symmetric(p));
            store(g.vars[i], step(sc.truth[i], d));
        }
        return g;
    }
} // namespace scene
