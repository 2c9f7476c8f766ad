// Generators: boundary-heavy ("wild") values for single factors and structure checks, and whole
// random graphs over all variable and factor kinds.
#pragma once
#include "model.hpp"
#include <algorithm>
#include <limits>

namespace gen
{
    inline double coord(Src& s)
    {
        switch (s.draw(8)) {
        case 0: return 0;
        case 1: return s.pick(std::vector<double>{1, -1, 2, -3, 0.5, 10});
        case 2: return s.symmetric(1);
        case 3: return s.symmetric(10);
        case 4: return s.symmetric(100);
        case 5: return (s.coin() ? 1 : -1) * s.logu(1e-6, 1e4);
        case 6: return s.symmetric(10);
        default: return s.symmetric(3);
        }
    }
    inline double angle(Src& s) // about a full turn and its boundaries
    {
        const double pi = 3.141592653589793238462643;
        switch (s.draw(8)) {
        case 0: return 0;
        case 1: return s.pick(std::vector<double>{pi / 2, -pi / 2, pi, -pi, pi / 4, 3 * pi / 4, 1, -1});
        case 2: return s.symmetric(pi);
        case 3: return s.symmetric(4 * pi);
        case 4: return (s.coin() ? 1 : -1) * (pi - s.logu(1e-12, 1e-1));
        case 5: return (s.coin() ? 1 : -1) * (pi + s.logu(1e-12, 1e-1));
        case 6: return (s.coin() ? 1 : -1) * s.logu(1e-12, 1e-1);
        default: return s.symmetric(pi);
        }
    }
    inline double theta(Src& s, double max = 3.2) // rotation angle magnitudes, straddling every series switch
    {
        const double pi = 3.141592653589793238462643;
        switch (s.draw(9)) {
        case 0: return 0;
        case 1: return s.logu(1e-12, 1e-3);
        case 2: return s.pick(std::vector<double>{1e-10, 1e-8, 1e-5, 1e-3, 1e-4, 1e-6}) * s.uniform(0.5, 2);
        case 3: return std::min(max, pi - s.logu(1e-9, 1e-2));
        case 4: return std::min(max, (pi - 1e-3) + s.symmetric(2e-4));
        case 5: return std::min(max, s.pick(std::vector<double>{pi / 2, pi / 3, 2 * pi / 3, 1.0}));
        case 6: return std::min(max, pi);
        default: return s.uniform(0, std::min(max, pi));
        }
    }
    inline std::vector<double> direction(Src& s) // unit vector
    {
        double x, y, z;
        switch (s.draw(5)) {
        case 0: return {0, 0, 1};
        case 1: {
            std::vector<double> v{0, 0, 0};
            v[s.draw(3)] = s.coin() ? 1 : -1;
            return v;
        }
        case 2: {
            x = s.range(-2, 2), y = s.range(-2, 2), z = s.range(-2, 2);
            break;
        }
        case 3: { // close to an axis
            x = 1, y = s.symmetric(1e-6), z = s.symmetric(1e-3);
            if (s.coin()) std::swap(x, z);
            break;
        }
        default: x = s.symmetric(1), y = s.symmetric(1), z = s.symmetric(1);
        }
        double n = std::sqrt(x * x + y * y + z * z);
        if (n < 1e-9) return {1, 0, 0};
        return {x / n, y / n, z / n};
    }
    inline std::vector<double> rotvec(Src& s, double max = 3.2)
    {
        double t = theta(s, max);
        auto d = direction(s);
        return {t * d[0], t * d[1], t * d[2]};
    }
    inline double sigma(Src& s)
    {
        switch (s.draw(4)) {
        case 0: return 1;
        case 1: return s.pick(std::vector<double>{0.1, 2, 0.5, 0.01});
        case 2: return s.logu(1e-3, 1e3);
        default: return s.uniform(0.05, 3);
        }
    }
    // Ids of every sign and magnitude; unique by the used set
    inline int fresh_id(Src& s, std::set<int>& used)
    {
        for (;;) {
            int v;
            switch (s.draw(4)) {
            case 0: v = static_cast<int>(used.size()); break;
            case 1: v = s.range(-5, 40); break;
            case 2:
                v = s.pick(std::vector<int>{std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -1,
                                            std::numeric_limits<int>::max() - 1, 1000000007, 65536});
                break;
            default: v = static_cast<int>(s.draw(1u << 31)) - (1 << 30);
            }
            while (used.count(v)) v = static_cast<int>(static_cast<unsigned>(v) * 1664525u + 1013904223u);
            used.insert(v);
            return v;
        }
    }
    inline std::vector<double> coords(Src& s, int n)
    {
        std::vector<double> v;
        for (int i = 0; i < n; i++) v.push_back(coord(s));
        return v;
    }

    inline VarSpec var(Src& s, VK k, int gen_size = 0)
    {
        VarSpec v;
        v.k = k;
        switch (k) {
        case POSE: {
            v.x = coords(s, 3);
            auto r = rotvec(s);
            if (s.chance(1, 8)) { // more than half a turn
                double f = s.uniform(1, 4);
                for (auto& q : r) q *= f;
            }
            v.x.insert(v.x.end(), r.begin(), r.end());
            v.via_dcm = s.chance(1, 4);
            break;
        }
        case LM: v.x = coords(s, 3); break;
        case ROT: v.x = rotvec(s); break;
        case INV: {
            v.x = {s.draw(4) ? s.uniform(0.2, 30) : s.logu(2e-3, 1e5)};
            auto o = coords(s, 3);
            auto d = direction(s);
            if (s.coin()) {
                double f = s.logu(0.1, 10);
                for (auto& q : d) q *= f;
            }
            v.extra = o;
            v.extra.insert(v.extra.end(), d.begin(), d.end());
            break;
        }
        case GEN: v.x = coords(s, gen_size ? gen_size : 1 + static_cast<int>(s.draw(s.chance(1, 8) ? 14 : 6))); break;
        case PLANE: {
            v.x = direction(s);
            if (s.coin()) {
                double f = s.logu(0.1, 10);
                for (auto& q : v.x) q *= f;
            }
            v.x.push_back(coord(s));
            break;
        }
        case POSE2: v.x = {coord(s), coord(s), angle(s)}; break;
        default: break;
        }
        return v;
    }

    struct Role
    {
        VK k;
        int n; // for GEN: required size
    };

    // Decide the shape of a factor: which variables it needs.
    struct Shape
    {
        FacSpec f;
        std::vector<Role> roles;
    };

    // additive: only variable kinds for which the generic factors' Jacobians are defined
    inline Shape shape(Src& s, FK k, bool additive)
    {
        Shape h;
        h.f.k = k;
        auto vec3 = [&] { return s.chance(1, 3) ? Role{LM, 0} : Role{GEN, 3}; };
        switch (k) {
        case F_BEARING:
        case F_PROJ: h.roles = {{POSE, 0}, {LM, 0}}; break;
        case F_INVB: h.roles = {{POSE, 0}, {INV, 0}}; break;
        case F_PRIOR:
            if (additive) {
                h.roles = {s.coin() ? Role{LM, 0} : Role{GEN, s.range(1, 7)}};
            } else {
                VK q = static_cast<VK>(s.draw(NUM_VK));
                h.roles = {Role{q, q == GEN ? s.range(1, 7) : 0}};
            }
            break;
        case F_BETWEEN: {
            int n = s.range(1, 6);
            if (!additive && s.chance(1, 5)) {
                h.roles = {{POSE, 0}, {POSE, 0}, {GEN, 6}};
            } else if (!additive && s.chance(1, 6)) {
                h.roles = {{POSE2, 0}, {POSE2, 0}, {GEN, 3}};
            } else if (n == 3) {
                h.roles = {vec3(), vec3(), vec3()};
            } else {
                h.roles = {{GEN, n}, {GEN, n}, {GEN, n}};
            }
            break;
        }
        case F_VELOCITY: {
            int form = static_cast<int>(s.draw(3)), m = 3;
            if (form == 0) {
                m = s.range(1, 6);
                h.roles = {{GEN, m}, {GEN, m}};
            } else if (form == 1) {
                h.roles = {vec3(), vec3()};
            } else {
                h.roles = {{POSE, 0}, {POSE, 0}};
                m = additive ? 3 : 6;
            }
            int n = s.range(1, m);
            h.f.idx0 = s.range(0, m - n);
            h.roles.push_back(n == 3 ? vec3() : Role{GEN, n});
            break;
        }
        case F_POSPRIOR:
        case F_ORIPRIOR: h.roles = {{POSE, 0}}; break;
        case F_ROTPRIOR: h.roles = {{ROT, 0}}; break;
        case F_POSBETWEEN: h.roles = {{POSE, 0}, {POSE, 0}, vec3()}; break;
        case F_ORIBETWEEN: h.roles = {{POSE, 0}, {POSE, 0}, {ROT, 0}}; break;
        case F_PLANE: h.roles = {vec3(), {PLANE, 0}}; break;
        case F_PLANEPRIOR: h.roles = {{PLANE, 0}}; break;
        case F_BEARING2:
        case F_RB2: h.roles = {{POSE2, 0}, {GEN, 2}}; break;
        case F_P2PRIOR: h.roles = {{POSE2, 0}}; break;
        case F_P2BETWEEN: h.roles = {{POSE2, 0}, {POSE2, 0}, {GEN, 3}}; break;
        case F_COORD: h.roles = {{ROT, 0}, {GEN, 3}, {GEN, 1}, {LM, 0}, {LM, 0}}; break;
        default: pbt::fail("kind");
        }
        return h;
    }

    inline int value_size(const VarSpec& v)
    {
        return v.k == POSE ? 6 : v.k == ROT ? 3 : v.k == INV ? 1 : static_cast<int>(v.x.size());
    }

    // Fill in wild measurements for a factor whose variables are chosen.
    inline void measure(Src& s, FacSpec& f, const std::vector<VarSpec>& vars)
    {
        f.s1 = sigma(s);
        f.s2 = s.coin() ? sigma(s) : f.s1;
        switch (f.k) {
        case F_BEARING:
        case F_PROJ:
        case F_INVB: {
            f.a = direction(s);
            if (s.coin()) {
                double q = s.logu(0.1, 10);
                for (auto& x : f.a) x *= q;
            }
            f.d1 = s.pick(std::vector<double>{1e-6, 1e-6, 1e-3, 0.2, 0.0});
            break;
        }
        case F_PRIOR: f.a = coords(s, value_size(vars[static_cast<size_t>(f.v[0])])); break;
        case F_BETWEEN: break;
        case F_VELOCITY: f.d1 = s.pick(std::vector<double>{1, 0.1, -2, 0, 7.5, 1e-3}); break;
        case F_POSPRIOR: f.a = coords(s, 3); break;
        case F_ORIPRIOR:
        case F_ROTPRIOR: f.a = rotvec(s); break;
        case F_POSBETWEEN: f.flag = s.coin(); break;
        case F_ORIBETWEEN: break;
        case F_PLANE:
            f.flag = s.coin();
            f.d1 = s.logu(0.1, 100);
            f.b = s.coin() ? coords(s, 3) : std::vector<double>{0, 0, 0};
            break;
        case F_PLANEPRIOR:
            f.a = direction(s);
            if (s.coin()) {
                double q = s.logu(0.1, 10);
                for (auto& x : f.a) x *= q;
            }
            f.a.push_back(coord(s));
            break;
        case F_BEARING2: f.a = {angle(s)}; break;
        case F_RB2: f.a = {s.logu(1e-2, 100), angle(s)}; break;
        case F_P2PRIOR: f.a = {coord(s), coord(s), angle(s)}; break;
        case F_P2BETWEEN: f.flag = s.coin(); break;
        case F_COORD: break;
        default: break;
        }
    }

    // A single factor with its own variables.
    struct Single
    {
        GraphSpec g;
        const FacSpec& f() const { return g.facs[0]; }
    };
    inline Single single(Src& s, FK k, bool additive, bool constants)
    {
        Single o;
        std::set<int> ids, fids;
        Shape h = shape(s, k, additive);
        for (auto& r : h.roles) {
            VarSpec v = var(s, r.k, r.n);
            v.id = fresh_id(s, ids);
            v.constant = constants && s.chance(1, 4);
            h.f.v.push_back(static_cast<int>(o.g.vars.size()));
            o.g.vars.push_back(v);
        }
        h.f.id = fresh_id(s, fids);
        measure(s, h.f, o.g.vars);
        o.g.facs.push_back(h.f);
        return o;
    }

    struct GraphOpt
    {
        int max_vars = 8, max_facs = 10;
        bool additive = false;
        bool constants = true;
        bool local2d = true; // allow the local-frame Pose2D between factor
        bool fill = true;    // add priors until there are enough residuals
    };

    inline int residual_rows(const FacSpec& f, const std::vector<VarSpec>& vars)
    {
        switch (f.k) {
        case F_BEARING:
        case F_INVB:
        case F_POSPRIOR:
        case F_ORIPRIOR:
        case F_ROTPRIOR:
        case F_POSBETWEEN:
        case F_ORIBETWEEN:
        case F_P2PRIOR:
        case F_P2BETWEEN:
        case F_COORD: return 3;
        case F_PROJ:
        case F_RB2: return 2;
        case F_PRIOR:
        case F_BETWEEN: return value_size(vars[static_cast<size_t>(f.v[0])]);
        case F_VELOCITY: return value_size(vars[static_cast<size_t>(f.v[2])]);
        case F_PLANE:
        case F_BEARING2: return 1;
        case F_PLANEPRIOR: return 4;
        default: return 0;
        }
    }

    inline bool fits(const Role& r, const VarSpec& v) { return r.k == v.k && (r.k != GEN || r.n == static_cast<int>(v.x.size())); }

    // Choose or create the variables of one more factor over distinct variables.
    inline void attach(Src& s, GraphSpec& g, Shape h, std::set<int>& ids, std::set<int>& fids, const GraphOpt& o)
    {
        for (auto& r : h.roles) {
            std::vector<int> cand;
            for (size_t i = 0; i < g.vars.size(); i++)
                if (fits(r, g.vars[i]) && std::find(h.f.v.begin(), h.f.v.end(), static_cast<int>(i)) == h.f.v.end())
                    cand.push_back(static_cast<int>(i));
            if (!cand.empty() && !(static_cast<int>(g.vars.size()) < o.max_vars && s.chance(1, 3))) {
                h.f.v.push_back(cand[s.draw(static_cast<uint32_t>(cand.size()))]);
            } else {
                VarSpec v = var(s, r.k, r.n);
                v.id = fresh_id(s, ids);
                v.constant = o.constants && s.chance(1, 5);
                h.f.v.push_back(static_cast<int>(g.vars.size()));
                g.vars.push_back(v);
            }
        }
        h.f.id = fresh_id(s, fids);
        measure(s, h.f, g.vars);
        if (h.f.k == F_P2BETWEEN && !o.local2d) h.f.flag = false;
        g.facs.push_back(h.f);
    }

    inline GraphSpec graph(Src& s, const GraphOpt& wanted)
    {
        GraphOpt o = wanted;
        if (s.chance(1, 500)) { // every so often a large one
            o.max_facs = 90;
            o.max_vars = 70;
        }
        GraphSpec g;
        std::set<int> ids, fids;
        int nv = static_cast<int>(s.draw(4));
        for (int i = 0; i < nv; i++) {
            VarSpec v = var(s, static_cast<VK>(s.draw(NUM_VK)));
            v.id = fresh_id(s, ids);
            v.constant = o.constants && s.chance(1, 5);
            g.vars.push_back(v);
        }
        int nf = 1 + static_cast<int>(s.draw(static_cast<uint32_t>(o.max_facs)));
        for (int i = 0; i < nf; i++) {
            FK k = static_cast<FK>(s.draw(NUM_FK));
            attach(s, g, shape(s, k, o.additive), ids, fids, o);
        }
        if (o.fill) {
            int rows = 0, cols = 0;
            for (auto& f : g.facs) rows += residual_rows(f, g.vars);
            for (auto& v : g.vars) cols += v.constant ? 0 : value_size(v);
            for (size_t i = 0; rows < cols && !g.vars.empty(); i = (i + 1) % g.vars.size()) {
                if (g.vars[i].constant) continue;
                FacSpec f;
                f.k = F_PRIOR;
                f.v = {static_cast<int>(i)};
                f.id = fresh_id(s, fids);
                measure(s, f, g.vars);
                g.facs.push_back(f);
                rows += value_size(g.vars[i]);
            }
        }
        // Variables need not be added in the order in which factors mention them.
        if (g.vars.size() > 1 && s.coin()) {
            size_t n = g.vars.size();
            std::vector<int> perm(n);
            for (size_t i = 0; i < n; i++) perm[i] = static_cast<int>(i);
            for (size_t i = n - 1; i > 0; i--) std::swap(perm[i], perm[s.draw(static_cast<uint32_t>(i + 1))]);
            std::vector<VarSpec> nv2(n);
            for (size_t i = 0; i < n; i++) nv2[static_cast<size_t>(perm[i])] = g.vars[i];
            for (auto& f : g.facs)
                for (auto& i : f.v) i = perm[static_cast<size_t>(i)];
            g.vars = nv2;
        }
        return g;
    }
} // namespace gen
