// P12-P19: the optimizer, covariances and the factor self-test.
#include "scene.hpp"
#include "giant.hpp"
#include "quiet.hpp"
#include "selftest.hpp"
#include <iostream>

namespace
{
    fg::OptimizerSettings wild_settings(Src& s)
    {
        fg::OptimizerSettings o;
        o.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
        o.max_num_iterations = static_cast<size_t>(s.pick(std::vector<int>{3, 1, 0, 2, 5, 10, 20}));
        o.step_tolerance = s.pick(std::vector<double>{1e-6, 0, 1e-9, 1e-2, 1});
        o.residual_tolerance = s.pick(std::vector<double>{1e-6, 0, 1e-9, 1e-2, 1});
        if (s.coin()) {
            o.initial_lambda = s.logu(1e-8, 1e3);
            o.max_lambda = std::max(o.initial_lambda, s.logu(1e-2, 1e8));
            o.lambda_up_factor = s.pick(std::vector<double>{10, 2, 1.5, 100});
            o.lambda_down_factor = s.pick(std::vector<double>{0.1, 0.5, 0.9, 0.01});
        }
        o.learning_rate = s.pick(std::vector<double>{1, 1, 1, 0.5, 1.5, 0.1});
        o.check_rank_deficiency = s.chance(1, 8);
        return o;
    }
    fg::OptimizerSettings tight(fg::OptimizerMethod m)
    {
        fg::OptimizerSettings o;
        o.method = m;
        o.step_tolerance = 1e-10;
        o.residual_tolerance = 1e-13;
        o.max_num_iterations = 200;
        return o;
    }
    // Small steps, and many of them
    void long_run(Src& s, Ctx& c, fg::OptimizerSettings& o)
    {
        o.max_num_iterations = static_cast<size_t>(s.logu(20, 500));
        o.learning_rate = s.logu(0.003, 0.3);
        o.step_tolerance = o.residual_tolerance = 0;
        c.label(o.max_num_iterations > 255 ? "more than 255 iterations allowed" : "dozens of iterations allowed");
    }
    // An optimizer that has already solved another problem: as many free values as the coming one (or a few more or
    // less), differently coupled. What it solved before must not show in what it solves next.
    void wear(Ctx& c, Src& s, fg::SparseOptimizer& opt, size_t n)
    {
        if (!s.chance(1, 3)) return;
        if (s.chance(1, 4)) n = s.coin() ? n + 1 + s.draw(3) : n > 1 ? n - 1 : 1;
        if (n == 0) n = 1;
        auto g = std::make_shared<fg::FactorGraph>();
        std::vector<std::shared_ptr<fg::GenericVariable>> v;
        int id = 0;
        for (size_t i = 0; i < n; i++) {
            v.push_back(std::make_shared<fg::GenericVariable>(static_cast<int>(i), Vec::Constant(1, s.symmetric(3))));
            g->add_variable(v.back());
            g->add_factor(std::make_shared<fg::GenericPriorFactor>(id++, v.back().get(), Vec::Constant(1, s.symmetric(3)), 1.0));
        }
        auto zero = std::make_shared<fg::GenericVariable>(static_cast<int>(n), Vec::Zero(1));
        zero->set_constant(true);
        g->add_variable(zero);
        size_t links = s.draw(static_cast<uint32_t>(2 * n));
        for (size_t i = 0; n > 1 && i < links; i++) {
            size_t a = s.draw(static_cast<uint32_t>(n)), b = s.draw(static_cast<uint32_t>(n));
            if (a != b) g->add_factor(std::make_shared<fg::GenericBetweenFactor>(id++, v[a].get(), v[b].get(), zero.get(), 0.5));
        }
        g->finalize_structure();
        fg::OptimizerSettings o;
        o.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
        o.max_num_iterations = 1 + s.draw(4);
        o.check_rank_deficiency = s.chance(1, 4);
        opt.setup(g, o);
        opt.optimize();
        if (s.coin()) opt.prepare_to_estimate_covariances();
        if (c.want_text) c.text << "the optimizer has solved another graph of " << n << " values with " << links << " links before; ";
        c.label("used optimizer");
    }
    void show(std::ostream& t, const fg::OptimizerSettings& o)
    {
        t << (o.method == fg::OptimizerMethod::GaussNewton ? "GN" : "LM") << " iters " << o.max_num_iterations << " tol " << o.step_tolerance << "/" << o.residual_tolerance << " lambda "
          << o.initial_lambda << "<=" << o.max_lambda << " x" << o.lambda_up_factor << "/x" << o.lambda_down_factor << " rate " << o.learning_rate << "; ";
    }
    const char *name_of(fg::OptimizerStatus st)
    {
        switch (st) {
        case fg::OptimizerStatus::SUCCESS: return "SUCCESS";
        case fg::OptimizerStatus::RUNNING: return "RUNNING";
        case fg::OptimizerStatus::SINGULAR_HESSIAN: return "SINGULAR_HESSIAN";
        case fg::OptimizerStatus::ILL_CONDITIONED: return "ILL_CONDITIONED";
        case fg::OptimizerStatus::DIVERGED: return "DIVERGED";
        default: return "FAILED";
        }
    }
    bool success(const fg::SparseOptimizer& o) { return o.current_stats_.status == fg::OptimizerStatus::SUCCESS && o.current_stats_.valid; }
    bool chi2_of(fg::FactorGraph& g, double& chi2)
    {
        try {
            chi2 = g.compute_full_residual_vector().squaredNorm();
            return true;
        } catch (const std::exception&) {
            return false;
        }
    }
    void finite(const Built& b)
    {
        for (size_t i = 0; i < b.vars.size(); i++)
            for (double x : observe(*b.vars[i]).num) PBT_REQUIRE(std::isfinite(x), "variable #" << i << " is not finite after the optimization: " << b.vars[i]->value().transpose());
    }
    double obs_diff(const Obs& a, const Obs& b)
    {
        if (a.txt != b.txt || a.num.size() != b.num.size()) return 1e300;
        double d = 0;
        for (size_t i = 0; i < a.num.size(); i++) {
            double e = std::fabs(a.num[i] - b.num[i]) / std::max(1.0, std::fabs(b.num[i]));
            if (!(e <= d)) d = std::isnan(e) ? 1e300 : e;
        }
        return d;
    }
    double size_of_rotation(const VarSpec& v)
    {
        size_t o = v.k == POSE ? 3 : 0;
        return v.k == POSE || v.k == ROT ? std::sqrt(v.x[o] * v.x[o] + v.x[o + 1] * v.x[o + 1] + v.x[o + 2] * v.x[o + 2]) : 0;
    }
    // Did the variable stay where it was, up to re-normalisation of its own representation?
    bool stayed(const VarSpec& v, const State& was, const State& is, const Obs& before, const Obs& after)
    {
        (void)v;
        if (before == after) return true;
        if (before.txt != after.txt || before.num.size() != after.num.size()) return false;
        for (size_t i = 0; i < before.num.size(); i++) // the same numbers, not only the same point
            if (!(std::fabs(before.num[i] - after.num[i]) <= 1e-9 * (1 + std::fabs(before.num[i])))) return false;
        return scene::distance(was, is) <= 1e-9L;
    }
    LR worst(const GraphSpec& g, const std::vector<VarPtr>& vars, const std::vector<State>& want, size_t *who = nullptr)
    {
        LR d = 0;
        for (size_t i = 0; i < vars.size(); i++) {
            LR e = scene::distance(state_of(g.vars[i], *vars[i]), want[i]);
            if (!(e <= d)) {
                d = e;
                if (who) *who = i;
            }
        }
        return d;
    }
    bool has_free_plane(const GraphSpec& g)
    {
        for (auto& v : g.vars)
            if (v.k == PLANE && !v.constant) return true;
        return false;
    }
    std::string brief(const GraphSpec& g)
    {
        std::ostringstream o;
        ::show(o, g);
        return o.str();
    }
} // namespace

// ------------------------------------------------------------------------------------------- the same, of very large graphs
namespace
{
    fg::OptimizerMethod either(Src& s, const GraphSpec& g) { return s.coin() || has_free_plane(g) ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton; }
    fg::OptimizerSettings large_settings(fg::OptimizerMethod m)
    {
        fg::OptimizerSettings o = tight(m);
        o.step_tolerance = 1e-7;
        o.residual_tolerance = 1e-10;
        return o;
    }
    // Constants stay, whatever happens
    void large_constants(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 0.1 : 0;
        giant::Large L(s, c, so, 40000, s.logu(1e-4, 0.5));
        fg::OptimizerSettings set = wild_settings(s);
        set.max_num_iterations = 1 + s.draw(4);
        if (c.want_text) show(c.text, set);
        Built b = build(L.t.g);
        // some more of them, here and there
        for (int k = 0; k < 20; k++) b.vars[s.draw(static_cast<uint32_t>(b.vars.size()))]->set_constant(true);
        b.graph->finalize_structure();
        std::vector<Obs> before;
        for (auto& v : b.vars) before.push_back(observe(*v));
        std::vector<State> was = states_of(L.t.g, b.vars);
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, set);
        try {
            opt.optimize();
        } catch (const std::exception&) {
            c.label("refused");
        }
        for (size_t i = 0; i < b.vars.size(); i++)
            if (b.vars[i]->is_constant()) {
                Obs now = observe(*b.vars[i]);
                PBT_REQUIRE(stayed(L.t.g.vars[i], was[i], state_of(L.t.g.vars[i], *b.vars[i]), before[i], now), "constant " << L.name(i) << " moved from " << evec(before[i].num).transpose() << " to " << evec(now.num).transpose());
            }
        try {
            opt.prepare_to_estimate_covariances();
        } catch (const std::exception&) {
        }
        for (size_t i = 0; i < b.vars.size(); i++)
            if (b.vars[i]->is_constant()) {
                bool ok = true;
                opt.estimate_covariance(b.vars[i].get(), ok);
                PBT_REQUIRE(!ok, "constant " << L.name(i) << " has a covariance");
            }
        c.nontrivial = opt.current_stats_.current_iteration > 0;
    }
    void large_statistics(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 0.5 : 0;
        giant::Large L(s, c, so, 60000, s.logu(1e-4, 1));
        fg::OptimizerSettings set = wild_settings(s);
        if (c.want_text) show(c.text, set);
        Built b = build(L.t.g);
        double chi0, chi;
        if (!chi2_of(*b.graph, chi0) || !std::isfinite(chi0) || chi0 > 1e14) throw Discard{};
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, set);
        opt.optimize();
        auto& st = opt.current_stats_;
        auto& s0 = opt.initial_stats_;
        auto tol = [](double x) { return 1e-6 * x + 1e-9; };
        PBT_REQUIRE(std::fabs(s0.chi2 - chi0) <= tol(chi0) && std::fabs(s0.residual_norm - std::sqrt(chi0)) <= tol(std::sqrt(chi0)), "initial chi2 is reported as " << s0.chi2 << " and the residual norm as " << s0.residual_norm << ", chi2 was " << chi0);
        PBT_REQUIRE(st.status != fg::OptimizerStatus::RUNNING && (st.valid || st.status != fg::OptimizerStatus::SUCCESS), "status is " << name_of(st.status) << (st.valid ? "" : " (invalid)") << " after optimize()");
        PBT_REQUIRE(static_cast<size_t>(st.current_iteration) <= set.max_num_iterations, st.current_iteration << " iterations, the maximum is " << set.max_num_iterations);
        finite(b);
        PBT_REQUIRE(chi2_of(*b.graph, chi), "the residual cannot be evaluated at the estimate");
        PBT_REQUIRE(std::fabs(st.chi2 - chi) <= tol(chi) && std::fabs(st.residual_norm - std::sqrt(chi)) <= tol(std::sqrt(chi)), "final chi2 is reported as " << st.chi2 << " and the residual norm as " << st.residual_norm << ", chi2 is " << chi);
        if (set.method == fg::OptimizerMethod::LevenbergMarquardt) PBT_REQUIRE(chi <= chi0 + tol(chi0), "Levenberg-Marquardt raised chi2 from " << chi0 << " to " << chi);
        c.label(name_of(st.status));
        c.nontrivial = st.current_iteration > 0;
    }
    void large_linear(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.linear = true;
        so.noise = s.pick(std::vector<double>{1, 5, 0});
        giant::Large L(s, c, so, 90000, s.pick(std::vector<double>{1, 10}));
        std::vector<State> st = L.sc.truth; // the solution of a copy does not depend on where it starts
        scene::Lin J = scene::linearize(L.sc.g, st, L.sc.bases, 1.0L);
        LVec dx = J.J.colPivHouseholderQr().solve(-J.r);
        auto want = scene::apply(L.sc.g, J, st, dx);
        LR best = scene::residual(L.sc.g, want, L.sc.bases).squaredNorm() * static_cast<LR>(L.t.tiles);
        Built b = build(L.t.g);
        fg::OptimizerSettings set;
        set.max_num_iterations = 1;
        set.method = fg::OptimizerMethod::GaussNewton;
        if (s.chance(1, 3)) set = large_settings(fg::OptimizerMethod::LevenbergMarquardt);
        bool lm = set.method == fg::OptimizerMethod::LevenbergMarquardt;
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, set);
        opt.optimize();
        PBT_REQUIRE(success(opt), (lm ? "Levenberg-Marquardt" : "one Gauss-Newton step") << " on a linear problem ends with " << name_of(opt.current_stats_.status));
        LR tol = (1e-9L + 1e-12L * L.sc.sp.cond() * L.sc.sp.cond()) * 30;
        if (lm) tol += 1e-5L * (1 + std::sqrt(best)) / L.sc.sp.smin;
        size_t who = 0;
        LR d = L.worst(b.vars, want, who);
        PBT_REQUIRE(d <= tol, (lm ? "Levenberg-Marquardt" : "one Gauss-Newton step") << " leaves " << L.name(who) << " " << static_cast<double>(d) << " away from the least-squares solution");
        PBT_REQUIRE(std::fabs(opt.current_stats_.chi2 - best) <= 1e-6L * best + 1e-6L, "chi2 is " << opt.current_stats_.chi2 << ", the minimum is " << static_cast<double>(best));
        c.nontrivial = true;
    }
    void large_convergence(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 1e-3 : 0;
        so.planes = s.chance(1, 3);
        giant::Large L(s, c, so, 60000, s.logu(1e-4, 1e-2));
        std::vector<State> want = L.sc.truth;
        if (so.noise > 0 && !scene::solve(L.sc.g, want, L.sc.bases)) throw Discard{};
        fg::OptimizerMethod m = either(s, L.t.g);
        const char *nm = m == fg::OptimizerMethod::GaussNewton ? "Gauss-Newton" : "Levenberg-Marquardt";
        Built b = build(L.t.g);
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, large_settings(m));
        opt.optimize();
        PBT_REQUIRE(success(opt), nm << " started near the truth of " << L.t.tiles << " copies ends with " << name_of(opt.current_stats_.status));
        size_t who = 0;
        LR d = L.worst(b.vars, want, who);
        PBT_REQUIRE(d <= 3e-5L * std::max(1.0, 1 / L.sc.sp.smin), nm << " leaves " << L.name(who) << " " << static_cast<double>(d) << " away from the optimum");
        c.label(nm);
        c.nontrivial = true;
    }
    void large_singular(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.planes = false;
        giant::Large L(s, c, so, 40000, s.logu(1e-4, 1e-2));
        // a variable without factors somewhere among the others, and enough residuals
        GraphSpec& g = L.t.g;
        std::set<int> ids, fids;
        for (auto& v : g.vars) ids.insert(v.id);
        for (auto& f : g.facs) fids.insert(f.id);
        VarSpec v = scene::Maker{s, so, L.sc, {}, {}}.fresh(static_cast<VK>(s.pick(std::vector<int>{GEN, LM, POSE, ROT, INV, POSE2, PLANE})), 1 + static_cast<int>(s.draw(5)));
        v.id = gen::fresh_id(s, ids);
        size_t at = s.draw(static_cast<uint32_t>(g.vars.size() + 1)), some = g.vars.size();
        for (size_t i = 0; i < g.vars.size(); i++)
            if (!g.vars[i].constant && (g.vars[i].k == LM || g.vars[i].k == GEN)) some = i;
        if (some == g.vars.size()) throw Discard{};
        for (int n = gen::value_size(v); n > 0; n -= gen::value_size(g.vars[some])) {
            FacSpec f;
            f.k = F_PRIOR;
            f.v = {static_cast<int>(some)};
            f.a = g.vars[some].x;
            f.id = gen::fresh_id(s, fids);
            g.facs.push_back(f);
        }
        g.vars.insert(g.vars.begin() + static_cast<long>(at), v);
        for (auto& f : g.facs)
            for (auto& i : f.v) i += static_cast<size_t>(i) >= at;
        Built b = build(g);
        std::vector<Obs> before;
        for (auto& w : b.vars) before.push_back(observe(*w));
        std::vector<State> was = states_of(g, b.vars);
        double chi0 = 0, chi = 0;
        if (!chi2_of(*b.graph, chi0)) throw Discard{};
        fg::OptimizerSettings set = large_settings(s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton);
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, set);
        opt.optimize();
        auto& st = opt.current_stats_;
        finite(b);
        PBT_REQUIRE(chi2_of(*b.graph, chi), "the residual cannot be evaluated");
        auto stays = [&](size_t i) { return stayed(g.vars[i], was[i], state_of(g.vars[i], *b.vars[i]), before[i], observe(*b.vars[i])); };
        PBT_REQUIRE(stays(at), "variable #" << at << " of " << g.vars.size() << ", which no factor constrains, moved from " << evec(before[at].num).transpose() << " to " << b.vars[at]->value().transpose());
        if (set.method == fg::OptimizerMethod::GaussNewton) {
            PBT_REQUIRE(!st.valid && (st.status == fg::OptimizerStatus::SINGULAR_HESSIAN || st.status == fg::OptimizerStatus::ILL_CONDITIONED || st.status == fg::OptimizerStatus::FAILED),
                        "Gauss-Newton on a problem of " << g.vars.size() << " variables, of which no factor constrains #" << at << ", reports " << name_of(st.status) << (st.valid ? "" : " (invalid)"));
            for (size_t i = 0; i < b.vars.size(); i++) PBT_REQUIRE(stays(i), "Gauss-Newton moved variable #" << i << " of a singular problem");
        } else {
            PBT_REQUIRE(success(opt) && chi <= chi0 * (1 + 1e-9) + 1e-9, "Levenberg-Marquardt ends with " << name_of(st.status) << " and takes chi2 from " << chi0 << " to " << chi);
        }
        c.nontrivial = true;
    }
    void large_covariances(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.planes = false;
        so.noise = s.coin() ? 1e-2 : 0;
        giant::Large L(s, c, so, 40000, s.logu(1e-4, 1e-2));
        Built b = build(L.t.g);
        fg::OptimizerSettings set = large_settings(either(s, L.t.g));
        set.max_num_iterations = s.draw(4);
        fg::SparseOptimizer opt;
        wear(c, s, opt, 3);
        opt.setup(b.graph, set);
        opt.optimize();
        opt.prepare_to_estimate_covariances();
        for (size_t tile : L.some(s, 6)) {
            GraphSpec h = L.alone(tile);
            Built one = build(h);
            for (size_t l = 0; l < h.vars.size(); l++)
                if (!h.vars[l].constant && h.vars[l].k != ROT && h.vars[l].k != POSE) one.vars[l]->set_value_from_vector(b.vars[L.t.var(tile, l)]->value());
            // the copy's own Jacobian, from its own factors in the large graph
            int rows = 0, cols = 0;
            std::map<const fg::Variable *, int> col;
            for (size_t l = 0; l < h.vars.size(); l++) {
                auto& v = b.vars[L.t.var(tile, l)];
                col[v.get()] = cols;
                cols += v->is_constant() ? 0 : v->size();
            }
            LMat J = LMat::Zero(one.graph->num_residuals(), cols);
            for (size_t l = 0; l < h.facs.size(); l++) {
                auto& f = b.facs[L.t.fac(tile, l)];
                std::vector<Mat> B;
                f->compute_jacobians(B);
                auto vs = f->variables();
                for (size_t k = 0; k < vs.size(); k++)
                    if (!vs[k]->is_constant()) J.block(rows, col[vs[k]], f->residual_size(), vs[k]->size()) += B[k].cast<LR>();
                rows += f->residual_size();
            }
            LMat H = J.transpose() * J;
            Eigen::SelfAdjointEigenSolver<LMat> es(H);
            LR lo = es.eigenvalues()[0], hi = es.eigenvalues()[H.rows() - 1];
            if (!(lo > 0) || hi / lo > 1e6L) continue;
            LMat P = es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
            LR tol = 1e-13L * hi / lo / lo * 10 + 1e-12L / lo;
            for (size_t l = 0; l < h.vars.size(); l++) {
                size_t i = L.t.var(tile, l);
                auto& v = *b.vars[i];
                bool ok = v.is_constant();
                Mat C = opt.estimate_covariance(&v, ok);
                if (v.is_constant()) {
                    PBT_REQUIRE(!ok, "constant " << L.name(i) << " has a covariance");
                    continue;
                }
                int d = v.size();
                PBT_REQUIRE(ok && C.rows() == d && C.cols() == d, L.name(i) << " has no covariance, or one of " << C.rows() << "x" << C.cols());
                LMat W = P.block(col[&v], col[&v], d, d);
                for (int r = 0; r < d; r++)
                    for (int k = 0; k < d; k++)
                        PBT_REQUIRE(std::fabs(C(r, k) - W(r, k)) <= tol, "covariance (" << r << "," << k << ") of " << L.name(i) << " is " << C(r, k) << ", the inverse of J^T J has " << static_cast<double>(W(r, k)));
                c.nontrivial = true;
            }
        }
    }
    void large_self_test(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 0.1 : 0;
        giant::Large L(s, c, so, 20000, 1e-3);
        Built b = build(L.t.g);
        bool verbose = s.coin();
        PBT_REQUIRE(b.graph->detailed_factor_test(1e-3, verbose), "the self-test rejects a graph of library factors");
        // one wrong factor among the many
        size_t n = b.facs.size(), fi = s.coin() ? s.draw(static_cast<uint32_t>(n)) : s.coin() ? n - 1 : n / 2;
        auto w = std::make_shared<WrongFactor>(b.facs[fi]);
        auto vs = b.facs[fi]->variables();
        w->block = vs.size();
        for (size_t k = 0; k < vs.size(); k++)
            if (!vs[k]->is_constant()) w->block = k;
        if (w->block == vs.size()) throw Discard{};
        std::vector<Mat> J;
        b.facs[fi]->compute_jacobians(J);
        w->kind = static_cast<WrongFactor::Kind>(0);
        w->r = static_cast<int>(s.draw(static_cast<uint32_t>(J[w->block].rows())));
        w->col = static_cast<int>(s.draw(static_cast<uint32_t>(J[w->block].cols())));
        w->delta = (s.coin() ? 1 : -1) * std::max(1e-2, maxabs(J[w->block]) * 1e-3) * s.logu(2, 100);
        fg::FactorGraph T;
        for (auto& v : b.vars) T.add_variable(v);
        for (size_t i = 0; i < n; i++) T.add_factor(i == fi ? FacPtr(w) : b.facs[i]);
        T.finalize_structure();
        PBT_REQUIRE(!T.detailed_factor_test(1e-3, verbose), "the self-test accepts a graph of " << n << " factors of which #" << fi << " has a Jacobian that is wrong by " << w->delta);
        c.nontrivial = true;
    }
    void large_repeat(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 0.1 : 0;
        giant::Large L(s, c, so, 30000, s.logu(1e-4, 1e-1));
        fg::OptimizerSettings set = wild_settings(s);
        set.max_num_iterations = 1 + s.draw(3);
        if (c.want_text) show(c.text, set);
        auto run = [&](const char *how) {
            Built b = build(L.t.g);
            fg::SparseOptimizer o;
            fg::OptimizerSettings st = set;
            if (how[0] == 'v') st.verbose = true;
            if (how[0] == 'a') wear(c, s, o, 3);
            o.setup(b.graph, st);
            o.optimize();
            std::vector<double> r{o.initial_stats_.chi2, o.current_stats_.chi2, o.current_stats_.delta_norm, o.current_stats_.damping_parameter, static_cast<double>(o.current_stats_.current_iteration), static_cast<double>(o.current_stats_.status)};
            for (auto& v : b.vars) {
                auto x = observe(*v).num;
                r.insert(r.end(), x.begin(), x.end());
            }
            return r;
        };
        auto first = run("once");
        const char *how = s.pick(std::vector<const char *>{"running again", "verbose output", "an optimizer that was used before"});
        auto second = run(how);
        for (size_t i = 0; i < first.size(); i++) PBT_REQUIRE(same(first[i], second[i]), how << " changes number " << i << " of the result of a graph of " << L.t.g.vars.size() << " variables from " << first[i] << " to " << second[i]);
        c.nontrivial = true;
    }
} // namespace

// ------------------------------------------------------------------------------------------- P12
PROPERTY(P12, "one case: either a random graph over all kinds with constants and random method and settings, where every constant "
              "must be found where it was; or a well-posed scene with constants, started near the truth, whose result must be the "
              "reference optimum with those values fixed, and where one constant is then freed (in half of the cases while another variable "
              "of the same size is held), displaced and must return to the "
              "optimum; non-trivial: at least one constant, one free value and one iteration")
{
    Quiet q;
    if (giant::wanted(s, 3000)) return large_constants(s, c);
    if (s.coin()) {
        gen::GraphOpt o;
        o.additive = s.coin();
        GraphSpec g = gen::graph(s, o);
        fg::OptimizerSettings set = wild_settings(s);
        if (c.want_text) {
            ::show(c.text, g);
            show(c.text, set);
        }
        Built b = build(g);
        std::vector<Obs> before;
        std::vector<State> was = states_of(g, b.vars);
        int consts = 0;
        for (size_t i = 0; i < b.vars.size(); i++) {
            before.push_back(observe(*b.vars[i]));
            consts += g.vars[i].constant;
        }
        fg::SparseOptimizer opt;
        wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
        opt.setup(b.graph, set);
        try {
            opt.optimize();
        } catch (const std::exception&) {
            c.label("refused");
        }
        for (size_t i = 0; i < b.vars.size(); i++)
            if (g.vars[i].constant) {
                Obs now = observe(*b.vars[i]);
                PBT_REQUIRE(stayed(g.vars[i], was[i], state_of(g.vars[i], *b.vars[i]), before[i], now),
                            "constant variable #" << i << " (" << vk_name(g.vars[i].k) << ") moved from " << evec(before[i].num).transpose() << " to " << evec(now.num).transpose());
            }
        try {
            opt.prepare_to_estimate_covariances();
        } catch (const std::exception&) {
        }
        for (size_t i = 0; i < b.vars.size(); i++)
            if (g.vars[i].constant) {
                bool ok = true;
                opt.estimate_covariance(b.vars[i].get(), ok);
                PBT_REQUIRE(!ok, "constant variable #" << i << " has a covariance");
            }
        c.label("wild");
        c.nontrivial = consts > 0 && b.graph->num_values() > 0 && opt.current_stats_.current_iteration > 0;
        return;
    }
    scene::Opt so;
    so.noise = s.coin() ? 1e-3 : 0;
    scene::Scene sc = scene::make(s, so);
    if (sc.g.vars.size() < 2) throw Discard{};
    size_t k = s.draw(static_cast<uint32_t>(sc.g.vars.size()));
    bool can = !sc.g.vars[k].constant;
    sc.g.vars[k].constant = true;
    GraphSpec g = scene::perturbed(s, sc, s.logu(1e-4, 1e-2));
    fg::OptimizerMethod m = s.coin() || has_free_plane(g) ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
    if (c.want_text) {
        ::show(c.text, g);
        show(c.text, tight(m));
    }
    std::vector<State> ref = scene::spec_states(g);
    if (!scene::solve(g, ref, sc.bases)) throw Discard{};
    Built b = build(g);
    fg::SparseOptimizer opt;
    wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
    opt.setup(b.graph, tight(m));
    opt.optimize();
    size_t who = 0;
    LR tol = 2e-6L * std::max(1.0, 1 / sc.sp.smin);
    LR d = worst(g, b.vars, ref, &who);
    PBT_REQUIRE(success(opt), "status " << name_of(opt.current_stats_.status) << " on a well-posed scene with constants");
    PBT_REQUIRE(d <= tol, "variable #" << who << " (" << vk_name(g.vars[who].k) << (g.vars[who].constant ? ", constant" : "") << ") is " << static_cast<double>(d)
                                       << " away from the optimum with the constants fixed");
    bool ok = true;
    opt.prepare_to_estimate_covariances();
    opt.estimate_covariance(b.vars[k].get(), ok);
    PBT_REQUIRE(!ok, "constant variable #" << k << " has a covariance");
    if (can) {
        // free it again, away from its value: it must move back
        b.vars[k]->set_constant(false);
        if (s.coin()) { // and hold another where it is, one of the same size if there is one
            std::vector<size_t> held;
            for (size_t i = 0; i < g.vars.size(); i++)
                if (i != k && !g.vars[i].constant && gen::value_size(g.vars[i]) == gen::value_size(g.vars[k])) held.push_back(i);
            for (size_t i = 0; i < g.vars.size() && held.empty(); i++)
                if (i != k && !g.vars[i].constant) held.push_back(i);
            if (!held.empty()) {
                size_t i = s.pick(held);
                b.vars[i]->set_constant(true);
                g.vars[i].constant = true;
                c.label("another held in its place");
            }
        }
        b.graph->finalize_structure();
        Vec dx(b.vars[k]->size());
        for (Eigen::Index i = 0; i < dx.size(); i++) dx[i] = s.symmetric(3e-3);
        b.vars[k]->apply_increment(dx);
        g.vars[k].constant = false;
        std::vector<State> st2 = states_of(g, b.vars);
        if (has_free_plane(g)) m = fg::OptimizerMethod::LevenbergMarquardt;
        if (!scene::solve(g, st2, sc.bases)) throw Discard{};
        if (s.coin()) opt.setup(b.graph, tight(m));
        if (opt.settings().method == m || !has_free_plane(g)) {
            opt.optimize();
            PBT_REQUIRE(success(opt), "status " << name_of(opt.current_stats_.status) << " after a constant was freed");
            d = worst(g, b.vars, st2, &who);
            PBT_REQUIRE(d <= tol, "after variable #" << k << " was freed, variable #" << who << " ends " << static_cast<double>(d) << " away from the optimum");
            opt.prepare_to_estimate_covariances();
            opt.estimate_covariance(b.vars[k].get(), ok);
            PBT_REQUIRE(ok || has_free_plane(g), "variable #" << k << " was freed and optimized but has no covariance");
            c.label("freed again");
        }
    }
    c.label("scene");
    c.nontrivial = opt.current_stats_.current_iteration > 0;
}

// ------------------------------------------------------------------------------------------- P13
PROPERTY(P13, "one case: a random graph over all kinds (or a scene far from its optimum) and random method and settings; the run is "
              "repeated with every smaller iteration limit and the reported statistics are compared with the residual of the "
              "variables; non-trivial: at least one iteration on at least one free value")
{
    Quiet q;
    if (giant::wanted(s, 3000)) return large_statistics(s, c);
    GraphSpec g;
    bool wild = s.coin();
    if (wild) {
        gen::GraphOpt o;
        o.additive = s.chance(3, 4);
        g = gen::graph(s, o);
    } else {
        scene::Opt so;
        so.noise = s.coin() ? 0.5 : 0;
        so.cond = 1e4;
        so.smin = 1e-4;
        scene::Scene sc = scene::make(s, so);
        g = scene::perturbed(s, sc, s.logu(1e-3, 2));
    }
    fg::OptimizerSettings set = wild_settings(s);
    bool lengthy = s.chance(1, 200);
    if (lengthy) long_run(s, c, set);
    size_t limit = set.max_num_iterations;
    if (c.want_text) {
        ::show(c.text, g);
        show(c.text, set);
    }
    bool lm = set.method == fg::OptimizerMethod::LevenbergMarquardt;
    double last = -1, chi0 = 0;
    size_t from = lengthy ? limit - 2 : s.coin() ? 0 : limit;
    for (size_t k = from; k <= limit; k++) {
        set.max_num_iterations = k;
        Built b = build(g);
        if (!chi2_of(*b.graph, chi0)) throw Discard{};
        if (!std::isfinite(chi0) || chi0 > 1e14) throw Discard{};
        fg::SparseOptimizer opt;
        wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
        opt.setup(b.graph, set);
        opt.optimize();
        auto& st = opt.current_stats_;
        auto& s0 = opt.initial_stats_;
        auto tol = [](double x) { return 1e-6 * x + 1e-9; };
        PBT_REQUIRE(std::fabs(s0.chi2 - chi0) <= tol(chi0), "initial chi2 is reported as " << s0.chi2 << ", it was " << chi0);
        PBT_REQUIRE(std::fabs(s0.residual_norm - std::sqrt(chi0)) <= tol(std::sqrt(chi0)), "initial residual norm is reported as " << s0.residual_norm << ", it was " << std::sqrt(chi0));
        PBT_REQUIRE(st.status != fg::OptimizerStatus::RUNNING, "status is RUNNING after optimize()");
        PBT_REQUIRE(st.valid || st.status != fg::OptimizerStatus::SUCCESS, "an invalid result carries SUCCESS");
        PBT_REQUIRE(st.current_iteration >= 0 && static_cast<size_t>(st.current_iteration) <= k, st.current_iteration << " iterations, the maximum is " << k);
        if (lm) PBT_REQUIRE(st.damping_parameter <= std::max(set.max_lambda, k == 0 ? 1.0 : 0.0) && st.damping_parameter > 0, "damping parameter " << st.damping_parameter << ", maximum " << set.max_lambda);
        finite(b);
        double chi = 0;
        bool can = chi2_of(*b.graph, chi);
        PBT_REQUIRE(can, "the residual cannot be evaluated at the estimate where a run from a good start ended with status " << name_of(st.status));
        PBT_REQUIRE(std::fabs(st.chi2 - chi) <= tol(chi), "final chi2 is reported as " << st.chi2 << " (" << name_of(st.status) << " after " << st.current_iteration << " iterations), it is " << chi);
        PBT_REQUIRE(std::fabs(st.residual_norm - std::sqrt(chi)) <= tol(std::sqrt(chi)), "final residual norm is reported as " << st.residual_norm << ", it is " << std::sqrt(chi));
        if (lm) {
            PBT_REQUIRE(chi <= chi0 + tol(chi0), "Levenberg-Marquardt raised chi2 from " << chi0 << " to " << chi);
            PBT_REQUIRE(last < 0 || chi <= last + tol(last), "Levenberg-Marquardt has chi2 " << chi << " after at most " << k << " iterations, and " << last << " after one fewer");
        }
        if (st.status == fg::OptimizerStatus::SINGULAR_HESSIAN || st.status == fg::OptimizerStatus::ILL_CONDITIONED || st.status == fg::OptimizerStatus::FAILED)
            PBT_REQUIRE(!st.valid, "a run with status " << name_of(st.status) << " is flagged valid");
        last = chi;
        c.nontrivial |= st.current_iteration > 0 && b.graph->num_values() > 0;
        if (k == limit) c.label(std::string(lm ? "LM " : "GN ") + name_of(st.status));
    }
}

// ------------------------------------------------------------------------------------------- P14
PROPERTY(P14, "one case: a full-rank graph of factors that are linear in the free variables (priors, between, velocity, and coordinate "
              "transform, plane and pose-difference factors with their nonlinear arguments constant), sigmas of a third of the variables in "
              "other units, inconsistent measurements, any "
              "starting point; the reference solves it by least squares in long double; non-trivial: more residuals than values")
{
    Quiet q;
    if (giant::wanted(s, 2000)) return large_linear(s, c);
    scene::Opt so;
    so.linear = true;
    so.noise = s.pick(std::vector<double>{1, 5, 0, 0.1});
    so.cond = 200;
    so.smin = 1e-2;
    so.max_facs = 10;
    scene::Scene sc = scene::make(s, so);
    GraphSpec g = scene::perturbed(s, sc, s.pick(std::vector<double>{1, 10, 100, 0.01}));
    auto st = scene::spec_states(g);
    scene::Lin L = scene::linearize(g, st, sc.bases, 1.0L);
    if (L.J.cols() == 0) throw Discard{};
    LVec dx = L.J.colPivHouseholderQr().solve(-L.r);
    auto want = scene::apply(g, L, st, dx);
    LR best = scene::residual(g, want, sc.bases).squaredNorm();
    if (c.want_text) ::show(c.text, g);
    LR scale = 10;
    for (auto& v : g.vars)
        for (double x : v.x) scale = std::max(scale, std::fabs(static_cast<LR>(x)));
    LR tol = 1e-14L * 100 * sc.sp.cond() * sc.sp.cond() * scale + 1e-10L * scale;
    size_t who = 0;
    // one Gauss-Newton step is enough
    fg::OptimizerSettings one;
    one.max_num_iterations = 1;
    Built b = build(g);
    fg::SparseOptimizer opt;
    wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
    opt.setup(b.graph, one);
    opt.optimize();
    PBT_REQUIRE(success(opt), "one Gauss-Newton step on a linear problem ends with " << name_of(opt.current_stats_.status));
    LR d = worst(g, b.vars, want, &who);
    PBT_REQUIRE(d <= tol, "after one Gauss-Newton step variable #" << who << " is " << static_cast<double>(d) << " away from the least-squares solution");
    PBT_REQUIRE(std::fabs(opt.current_stats_.chi2 - best) <= 1e-6L * best + 1e-6L * tol + 1e-9L, "chi2 is " << opt.current_stats_.chi2 << " after one Gauss-Newton step, the minimum is " << static_cast<double>(best));
    // the unit of the sigmas does not matter
    if (s.coin()) {
        LR k = s.logu(1e-6, 1e6);
        if (k * 1e-6L > sc.sp.smin) k = static_cast<double>(sc.sp.smin) * 1e6; // information above 1e-12: plain doubles tell it from zero
        GraphSpec gk = g;
        for (auto& f : gk.facs) {
            f.s1 *= static_cast<double>(k);
            f.s2 *= static_cast<double>(k);
        }
        c.text << "sigmas times " << static_cast<double>(k) << "; ";
        Built e = build(gk);
        fg::SparseOptimizer o2;
        wear(c, s, o2, static_cast<size_t>(e.graph->num_values()));
        o2.setup(e.graph, one);
        o2.optimize();
        PBT_REQUIRE(success(o2), "one Gauss-Newton step with all sigmas times " << static_cast<double>(k) << " ends with " << name_of(o2.current_stats_.status));
        d = worst(g, e.vars, want, &who);
        PBT_REQUIRE(d <= tol, "with all sigmas times " << static_cast<double>(k) << " variable #" << who << " is " << static_cast<double>(d) << " away from the least-squares solution");
        c.label(k > 100 ? "sigmas scaled up" : k < 0.01L ? "sigmas scaled down" : "sigmas scaled");
    }
    // copies that do not touch each other, and whose units differ by orders of magnitude
    if (s.chance(1, 3)) {
        giant::Tiled t = giant::tile(s, g, 2);
        LR most = std::min(5e5L / sc.sp.cond(), sc.sp.smin * 1e6L);
        std::vector<double> k;
        for (size_t i = 0; i < t.tiles; i++) k.push_back(i == 0 ? 1 : s.logu(1, std::max(1.0, static_cast<double>(most))));
        if (s.coin()) std::swap(k.front(), k.back());
        for (size_t i = 0; i < t.g.facs.size(); i++) {
            t.g.facs[i].s1 *= k[t.fac_tile[i]];
            t.g.facs[i].s2 *= k[t.fac_tile[i]];
        }
        if (c.want_text) c.text << t.tiles << " copies with sigmas times " << k.front() << ", " << k.back() << "; ";
        Built e = build(t.g);
        fg::SparseOptimizer o2;
        wear(c, s, o2, static_cast<size_t>(e.graph->num_values()));
        o2.setup(e.graph, one);
        o2.optimize();
        PBT_REQUIRE(success(o2), "one Gauss-Newton step on copies with sigmas times " << k.front() << " and " << k.back() << " ends with " << name_of(o2.current_stats_.status));
        for (size_t i = 0; i < t.tiles; i++) {
            std::vector<VarPtr> mine;
            for (size_t l = 0; l < g.vars.size(); l++) mine.push_back(e.vars[t.var(i, l)]);
            d = worst(g, mine, want, &who);
            PBT_REQUIRE(d <= tol, "with sigmas times " << k[i] << " beside a copy of other units, variable #" << who << " is " << static_cast<double>(d) << " away from the least-squares solution");
        }
        c.label("copies of other units");
    }
    // run to the end, by both methods
    for (auto m : {fg::OptimizerMethod::GaussNewton, fg::OptimizerMethod::LevenbergMarquardt}) {
        fg::OptimizerSettings set = tight(m);
        if (m == fg::OptimizerMethod::GaussNewton) set.step_tolerance = 1e-7;
        Built e = build(g);
        fg::SparseOptimizer o2;
        wear(c, s, o2, static_cast<size_t>(e.graph->num_values()));
        o2.setup(e.graph, set);
        o2.optimize();
        const char *nm = m == fg::OptimizerMethod::GaussNewton ? "Gauss-Newton" : "Levenberg-Marquardt";
        // (a start whose cost does not differ from the minimum to rounding leaves Levenberg-Marquardt nothing it could accept)
        bool nothing_to_gain = m == fg::OptimizerMethod::LevenbergMarquardt && o2.initial_stats_.chi2 - best <= 1e-12L * best;
        PBT_REQUIRE(success(o2) || nothing_to_gain, nm << " on a linear problem ends with " << name_of(o2.current_stats_.status));
        d = worst(g, e.vars, want, &who);
        LR t2 = m == fg::OptimizerMethod::GaussNewton ? tol : tol + 1e-6L * (1 + std::sqrt(best)) / sc.sp.smin;
        PBT_REQUIRE(d <= t2, nm << " leaves variable #" << who << " " << static_cast<double>(d) << " away from the least-squares solution");
        PBT_REQUIRE(std::fabs(o2.current_stats_.chi2 - best) <= 1e-6L * best + 1e-6L * tol + 1e-9L, nm << " ends with chi2 " << o2.current_stats_.chi2 << ", the minimum is " << static_cast<double>(best));
    }
    c.nontrivial = L.J.rows() > L.J.cols();
    if (best > 1e-6L) c.label("inconsistent measurements");
}

// ------------------------------------------------------------------------------------------- P15
PROPERTY(P15, "one case: a well-posed scene over all variable and factor kinds (condition number of the Jacobian at most 60) with "
              "measurements computed by the reference model, with or without noise, started near the truth or exactly at the optimum, "
              "both methods, tight or default tolerances; non-trivial: at least one free value and a start away from the optimum, or a "
              "start at the optimum")
{
    Quiet q;
    if (giant::wanted(s, 1000)) return large_convergence(s, c);
    scene::Opt so;
    so.noise = s.coin() ? s.logu(1e-4, 1e-2) : 0;
    so.planes = s.chance(1, 3);
    so.max_facs = c.thorough ? 14 : 8;
    scene::Scene sc = scene::make(s, so);
    bool at = s.chance(1, 4);
    GraphSpec g = scene::perturbed(s, sc, at ? 0 : s.logu(1e-5, 1e-2));
    std::vector<State> opt_state = sc.truth;
    if (so.noise > 0) {
        if (!scene::solve(g, opt_state, sc.bases)) throw Discard{};
        if (at)
            for (size_t i = 0; i < g.vars.size(); i++)
                if (!g.vars[i].constant) scene::store(g.vars[i], opt_state[i]);
    }
    LR cost = scene::residual(g, opt_state, sc.bases).squaredNorm(), cost_truth = scene::residual(g, sc.truth, sc.bases).squaredNorm();
    if (c.want_text) {
        ::show(c.text, g);
        c.text << (at ? "at the optimum; " : "near the truth; ") << "noise " << so.noise << " cond " << sc.sp.cond() << "; ";
    }
    bool loose = s.chance(1, 3);
    double rate = !loose && so.noise == 0 && s.chance(1, 50) ? s.logu(0.02, 0.8) : 1; // small steps, and many of them
    int free = 0;
    for (auto& v : g.vars) free += !v.constant;
    for (auto m : {fg::OptimizerMethod::GaussNewton, fg::OptimizerMethod::LevenbergMarquardt}) {
        bool gn = m == fg::OptimizerMethod::GaussNewton;
        if (gn && has_free_plane(g)) continue; // the length of a free plane's normal is unobservable: see P16
        const char *nm = gn ? "Gauss-Newton" : "Levenberg-Marquardt";
        Built b = build(g);
        fg::SparseOptimizer opt;
        fg::OptimizerSettings set = tight(m);
        if (loose) {
            set = fg::OptimizerSettings();
            set.method = m;
        }
        if (rate != 1) {
            set.learning_rate = rate;
            set.max_num_iterations = 3000;
            set.step_tolerance = 1e-9 * rate;
            set.residual_tolerance = 0;
        }
        wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
        opt.setup(b.graph, set);
        opt.optimize();
        if (rate != 1) c.label(opt.current_stats_.current_iteration > 255 ? "small steps, more than 255" : opt.current_stats_.current_iteration > 50 ? "small steps, more than 50" : "small steps");
        PBT_REQUIRE(success(opt), nm << (at ? " started at the optimum" : " started near the truth") << " ends with " << name_of(opt.current_stats_.status) << (opt.current_stats_.valid ? "" : " (invalid)")
                                     << ", chi2 " << opt.initial_stats_.chi2 << " -> " << opt.current_stats_.chi2);
        LR tol = (loose ? 1e-4L : 1e-6L) * std::max(1.0, 1 / sc.sp.smin);
        if (loose && so.noise > 0 && !at) tol *= 30; // stops once the residual norm no longer improves by 1e-6
        if (at) tol = 1e-7L * std::max(1.0, 1 / sc.sp.smin);
        size_t who = 0;
        LR d = worst(g, b.vars, opt_state, &who);
        PBT_REQUIRE(d <= tol, nm << (at ? " started at the optimum" : " started near the truth") << " leaves variable #" << who << " (" << vk_name(g.vars[who].k) << ") " << static_cast<double>(d) << " away from the "
                                 << (so.noise > 0 ? "optimum" : "truth") << " (chi2 " << opt.initial_stats_.chi2 << " -> " << opt.current_stats_.chi2 << ", the least is " << static_cast<double>(cost) << ")");
        PBT_REQUIRE(opt.current_stats_.chi2 <= cost_truth * (1 + 1e-6L) + 1e-9L, nm << " ends with chi2 " << opt.current_stats_.chi2 << ", the truth has " << static_cast<double>(cost_truth));
        LR slack = loose ? 1e-4L * std::sqrt(cost) + 1e-8L : 1e-6L * cost + 1e-12L;
        PBT_REQUIRE(std::fabs(opt.current_stats_.chi2 - cost) <= slack, nm << " ends with chi2 " << opt.current_stats_.chi2 << ", the least is " << static_cast<double>(cost));
        c.label(std::string(gn ? "GN" : "LM") + (at ? " at optimum" : so.noise > 0 ? " noisy" : " noise-free"));
    }
    c.nontrivial = free > 0;
}

// ------------------------------------------------------------------------------------------- P16
namespace
{
    // A prior on a generic variable whose evaluation goes wrong at a chosen moment
    struct FaultyFactor : fg::Factor
    {
        enum Kind
        {
            THROW_RESIDUAL,
            THROW_JACOBIAN,
            NAN_RESIDUAL,
            NAN_JACOBIAN,
            INF_RESIDUAL,
            INF_JACOBIAN,
        };
        fg::GenericVariable *var;
        Vec meas;
        Kind kind;
        int at;        // which call goes wrong
        bool persists; // and all later ones
        bool curved;   // residual x^3 + x instead of x: takes several iterations
        mutable int calls = 0, fired = 0;
        mutable int residual_calls = 0;
        mutable bool first_residual = false; // it was the very first evaluation
        FaultyFactor(int id, fg::GenericVariable *v, Vec m, Kind k, int at_call, bool p, bool c)
            : var(v)
            , meas(m)
            , kind(k)
            , at(at_call)
            , persists(p)
            , curved(c)
        {
            id_ = id;
        }
        bool bad(bool residual) const
        {
            bool mine = residual ? kind == THROW_RESIDUAL || kind == NAN_RESIDUAL || kind == INF_RESIDUAL : kind == THROW_JACOBIAN || kind == NAN_JACOBIAN || kind == INF_JACOBIAN;
            if (!mine || at < 0) return false;
            calls++;
            bool b = persists ? calls >= at : calls == at;
            if (b) fired++;
            return b;
        }
        int residual_size() const override { return static_cast<int>(meas.size()); }
        void compute_residual(Eigen::Ref<Vec> out) const override { out = compute_residual(); }
        Vec compute_residual() const override
        {
            residual_calls++;
            Vec r = var->value() - meas;
            if (curved) r.array() += r.array().cube();
            if (bad(true)) {
                if (residual_calls == 1) first_residual = true;
                if (kind == THROW_RESIDUAL) throw std::runtime_error("no residual here");
                r[0] = kind == NAN_RESIDUAL ? std::nan("") : std::numeric_limits<double>::infinity();
            }
            return r;
        }
        void compute_jacobians(std::vector<Mat>& J) const override
        {
            J.assign(1, Mat());
            if (var->is_constant()) return;
            J[0] = Mat::Identity(meas.size(), meas.size());
            if (curved) {
                Vec r = var->value() - meas;
                for (Eigen::Index i = 0; i < r.size(); i++) J[0](i, i) = 1 + 3 * r[i] * r[i];
            }
            if (bad(false)) {
                if (kind == THROW_JACOBIAN) throw std::runtime_error("no Jacobian here");
                J[0](0, 0) = kind == NAN_JACOBIAN ? std::nan("") : std::numeric_limits<double>::infinity();
            }
        }
        std::vector<fg::Variable *> variables() override { return {var}; }
        fg::FactorType::FactorTypeEnum type() const override { return fg::FactorType::custom; }
        std::string name() const override { return "Faulty"; }
    };
    // A factor that has a residual on one side of a boundary only
    struct BoundedFactor : fg::Factor
    {
        fg::GenericVariable *var;
        int what; // log x, sqrt x, asin x, 1/x + log x
        double gain, meas;
        bool throws;
        double beyond; // what it returns outside
        mutable int outside = 0;
        BoundedFactor(int id, fg::GenericVariable *v, int w, double k, double m, bool t, double out)
            : var(v)
            , what(w)
            , gain(k)
            , meas(m)
            , throws(t)
            , beyond(out)
        {
            id_ = id;
        }
        static double f(int what, double x) { return what == 0 ? std::log(x) : what == 1 ? std::sqrt(x) : what == 2 ? std::asin(x) : 1 / x + 2 * std::log(x); }
        static double df(int what, double x) { return what == 0 ? 1 / x : what == 1 ? 0.5 / std::sqrt(x) : what == 2 ? 1 / std::sqrt(1 - x * x) : -1 / (x * x) + 2 / x; }
        int residual_size() const override { return 1; }
        Vec compute_residual() const override
        {
            double x = var->value()[0];
            bool in = what == 1 ? x >= 0 : what == 2 ? std::fabs(x) <= 1 : x > 0;
            if (!in) {
                outside++;
                if (throws) throw std::domain_error("outside");
                return Vec::Constant(1, beyond);
            }
            return Vec::Constant(1, gain * (f(what, x) - meas));
        }
        void compute_residual(Eigen::Ref<Vec> out) const override { out = compute_residual(); }
        void compute_jacobians(std::vector<Mat>& J) const override
        {
            J.resize(1);
            J[0] = Mat();
            if (!var->is_constant()) J[0] = Mat::Constant(1, 1, gain * df(what, var->value()[0]));
        }
        std::vector<fg::Variable *> variables() override { return {var}; }
        fg::FactorType::FactorTypeEnum type() const override { return fg::FactorType::custom; }
        std::string name() const override { return "Bounded"; }
    };
    void settings_for(Src& s, fg::OptimizerSettings& o)
    {
        o.max_num_iterations = static_cast<size_t>(s.pick(std::vector<int>{100, 1, 2, 5}));
        o.step_tolerance = s.pick(std::vector<double>{1e-6, 1e-9, 1e-3});
        o.residual_tolerance = s.pick(std::vector<double>{1e-6, 0, 1e-9});
    }
} // namespace

PROPERTY(P16, "one case: a well-posed scene made unsolvable (a free variable without factors; a variable with one unobserved direction "
              "and enough other residuals; a chain of differences with nothing to anchor it), or with a factor that throws or returns "
              "NaN or infinity at a chosen call, once or from then on, or that has no residual (NaN or an exception) beyond a bound that a "
              "step may cross; both methods; non-trivial: the optimizer ran an iteration or "
              "reported the problem")
{
    Quiet q;
    if (giant::wanted(s, 3000)) return large_singular(s, c);
    scene::Opt so;
    so.planes = false;
    so.noise = s.coin() ? 1e-3 : 0;
    so.max_facs = 5;
    int mode = static_cast<int>(s.draw(5));
    scene::Scene sc = scene::make(s, so);
    GraphSpec g = scene::perturbed(s, sc, s.logu(1e-4, 1e-2));
    std::set<int> ids, fids;
    for (auto& v : g.vars) ids.insert(v.id);
    for (auto& f : g.facs) fids.insert(f.id);
    auto add_var = [&](VarSpec v) {
        v.id = gen::fresh_id(s, ids);
        v.constant = false;
        // anywhere in the order
        size_t at = s.draw(static_cast<uint32_t>(g.vars.size() + 1));
        g.vars.insert(g.vars.begin() + static_cast<long>(at), v);
        for (auto& f : g.facs)
            for (auto& i : f.v)
                if (static_cast<size_t>(i) >= at) i++;
        return at;
    };
    auto add_fac = [&](FacSpec f) {
        f.id = gen::fresh_id(s, fids);
        g.facs.insert(g.facs.begin() + static_cast<long>(s.draw(static_cast<uint32_t>(g.facs.size() + 1))), f);
    };
    auto enough = [&](size_t avoid, int n) { // repeat priors of other free variables
        std::vector<size_t> c;
        for (size_t i = 0; i < g.vars.size(); i++)
            if (i != avoid && !g.vars[i].constant && (g.vars[i].k == LM || g.vars[i].k == GEN)) c.push_back(i);
        if (c.empty()) {
            VarSpec v;
            v.k = GEN;
            v.x = {1, 2, 3};
            c.push_back(add_var(v));
            if (avoid != static_cast<size_t>(-1) && c[0] <= avoid) avoid++;
            n += 3;
        }
        while (n > 0) {
            size_t i = s.pick(c);
            FacSpec f;
            f.k = F_PRIOR;
            f.v = {static_cast<int>(i)};
            f.a = g.vars[i].x;
            f.s1 = 0.5;
            add_fac(f);
            n -= gen::value_size(g.vars[i]);
        }
        return avoid;
    };
    fg::OptimizerSettings set;
    set.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
    bool lm = set.method == fg::OptimizerMethod::LevenbergMarquardt;
    settings_for(s, set);
    const size_t none = static_cast<size_t>(-1);

    if (mode == 4) { // steps that lead where a factor has no residual
        int what = static_cast<int>(s.draw(4));
        double from = what == 2 ? s.symmetric(0.99) : s.logu(0.05, 20), to = what == 2 ? s.symmetric(0.99) : s.logu(0.05, 20);
        if (what == 3 && from < 0.6) from += 0.6; // 1/x + 2 log x turns at 1/2
        VarSpec v;
        v.k = GEN;
        v.x = {from};
        size_t at = add_var(v);
        bool throws = s.chance(1, 3);
        if (s.coin()) set.learning_rate = s.pick(std::vector<double>{1, 1.5, 0.5, 3});
        double gain = s.logu(0.1, 100), meas = BoundedFactor::f(what, to);
        if (c.want_text) {
            ::show(c.text, g);
            show(c.text, set);
            c.text << "factor " << what << " on #" << at << " from " << from << " towards " << to << ", gain " << gain << (throws ? ", throws outside; " : ", NaN outside; ");
        }
        Built b = build(g, false);
        int fid = gen::fresh_id(s, fids);
        auto fac = std::make_shared<BoundedFactor>(fid, static_cast<fg::GenericVariable *>(b.vars[at].get()), what, gain, meas, throws, std::nan(""));
        b.graph->add_factor(fac);
        b.graph->finalize_structure();
        double chi0, chi;
        if (!chi2_of(*b.graph, chi0) || !std::isfinite(chi0)) throw Discard{};
        fg::SparseOptimizer opt;
        wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
        opt.setup(b.graph, set);
        opt.optimize();
        finite(b);
        auto& st = opt.current_stats_;
        const char *nm = lm ? "Levenberg-Marquardt" : "Gauss-Newton";
        PBT_REQUIRE(chi2_of(*b.graph, chi) && std::isfinite(chi), nm << " ends with " << name_of(st.status) << " at " << b.vars[at]->value()[0] << ", where a factor has no residual");
        PBT_REQUIRE(std::fabs(chi - st.chi2) <= 1e-6 * chi + 1e-9, "chi2 is reported as " << st.chi2 << " and is " << chi << " at the variables' values");
        PBT_REQUIRE(!lm || chi <= chi0 * (1 + 1e-9) + 1e-12, "Levenberg-Marquardt left chi2 at " << chi << ", above the " << chi0 << " it started from");
        if (fac->outside && (!lm || throws)) PBT_REQUIRE(st.status == fg::OptimizerStatus::FAILED && !st.valid, nm << " left the domain of a factor and ended with " << name_of(st.status) << (st.valid ? "" : " (invalid)"));
        if (lm && !throws && fac->outside) { // such a step is rejected as one to a very large cost is
            Built b2 = build(g, false);
            auto fac2 = std::make_shared<BoundedFactor>(fid, static_cast<fg::GenericVariable *>(b2.vars[at].get()), what, gain, meas, false, 1e100);
            b2.graph->add_factor(fac2);
            b2.graph->finalize_structure();
            fg::SparseOptimizer opt2;
            opt2.setup(b2.graph, set);
            opt2.optimize();
            auto& st2 = opt2.current_stats_;
            for (size_t i = 0; i < b.vars.size(); i++)
                PBT_REQUIRE(b.vars[i]->value() == b2.vars[i]->value(), "variable #" << i << " ends at " << b.vars[i]->value().transpose() << " when a factor is NaN beyond its bound, and at " << b2.vars[i]->value().transpose() << " when it is very large there");
            PBT_REQUIRE(st.status == st2.status && st.valid == st2.valid && st.current_iteration == st2.current_iteration && st.damping_parameter == st2.damping_parameter && st.chi2 == st2.chi2,
                        "a factor that is NaN beyond its bound: " << name_of(st.status) << " after " << st.current_iteration << " iterations with damping " << st.damping_parameter << "; very large there: "
                                                                   << name_of(st2.status) << " after " << st2.current_iteration << " with damping " << st2.damping_parameter);
        }
        c.label(fac->outside ? "left a factor's domain" : "stayed in a factor's domain");
        c.nontrivial = fac->outside > 0;
        return;
    }

    if (mode == 3) { // a factor that goes wrong
        VarSpec v;
        v.k = GEN;
        int n = s.range(1, 3);
        for (int i = 0; i < n; i++) v.x.push_back(s.symmetric(2));
        size_t at = add_var(v);
        auto kind = static_cast<FaultyFactor::Kind>(s.draw(6));
        int call = 1 + static_cast<int>(s.draw(6));
        if (s.chance(1, 40)) { // after many good iterations
            long_run(s, c, set);
            call = static_cast<int>(s.logu(5, 300));
        }
        bool persists = s.coin(), curved = s.coin();
        Vec meas(n);
        for (int i = 0; i < n; i++) meas[i] = s.symmetric(2);
        if (c.want_text) {
            ::show(c.text, g);
            show(c.text, set);
            c.text << "faulty prior on #" << at << " of kind " << kind << " at call " << call << (persists ? " and later" : "") << (curved ? " curved" : "") << " to " << meas.transpose() << "; ";
        }
        Built b = build(g, false);
        auto fac = std::make_shared<FaultyFactor>(gen::fresh_id(s, fids), static_cast<fg::GenericVariable *>(b.vars[at].get()), meas, kind, call, persists, curved);
        b.graph->add_factor(fac);
        b.graph->finalize_structure();
        double chi0;
        fac->at = -1;
        chi2_of(*b.graph, chi0);
        fac->residual_calls = 0;
        fac->at = call;
        fg::SparseOptimizer opt;
        wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
        opt.setup(b.graph, set);
        bool escaped = false;
        try {
            opt.optimize();
        } catch (const std::exception&) {
            escaped = true;
        }
        fac->at = -1; // well again
        finite(b);
        auto& st = opt.current_stats_;
        bool thrown = (kind == FaultyFactor::THROW_RESIDUAL || kind == FaultyFactor::THROW_JACOBIAN) && fac->fired;
        if (escaped) {
            PBT_REQUIRE(thrown && fac->first_residual, "an error raised by a factor during an iteration escaped from optimize()");
            c.label("refused at the start");
            return;
        }
        if (thrown) {
            PBT_REQUIRE(st.status == fg::OptimizerStatus::FAILED && !st.valid, "a factor threw and the run ended with " << name_of(st.status) << (st.valid ? "" : " (invalid)"));
            double chi;
            PBT_REQUIRE(chi2_of(*b.graph, chi), "the residual cannot be evaluated");
            PBT_REQUIRE(std::fabs(chi - st.chi2) <= 1e-6 * chi + 1e-9, "a factor threw; chi2 is reported as " << st.chi2 << " and is " << chi << " at the variables' values");
            PBT_REQUIRE(!lm || chi <= chi0 * (1 + 1e-9) + 1e-12, "a factor threw and Levenberg-Marquardt left chi2 at " << chi << ", above the " << chi0 << " it started from");
            c.label("factor threw");
        } else if (fac->fired) {
            c.label("factor returned non-finite numbers");
        } else {
            c.label("fault not reached");
        }
        c.nontrivial = fac->fired > 0;
        return;
    }

    size_t extra = none;
    std::vector<int> chain; // variables of an unanchored chain
    if (mode == 0) {
        VarSpec v = scene::Maker{s, so, sc, {}, {}}.fresh(static_cast<VK>(s.pick(std::vector<int>{GEN, LM, POSE, ROT, INV, POSE2, PLANE})), 1 + static_cast<int>(s.draw(5)));
        extra = add_var(v);
        extra = enough(extra, gen::value_size(v));
    } else if (mode == 1) {
        // one direction that nothing observes
        int what = static_cast<int>(s.draw(5));
        scene::Maker mk{s, so, sc, {}, {}};
        VarSpec v;
        FacSpec f;
        f.s1 = s.uniform(0.3, 2);
        f.s2 = s.uniform(0.3, 2);
        if (what == 0) { // a landmark seen from one fixed camera
            v = mk.fresh(LM);
            VarSpec p = mk.fresh(POSE);
            V3 cpos = scene::spec_state(p).rot * (r3(v.x) - r3(p.x));
            if (ref::norm(cpos) < 1) throw Discard{};
            size_t pi = add_var(p);
            g.vars[pi].constant = true;
            extra = add_var(v);
            if (extra <= pi) pi++;
            f.k = s.coin() ? F_BEARING : F_PROJ;
            f.a = mk.dv(ref::unit(cpos));
            f.d1 = 1e-6;
            f.v = {static_cast<int>(pi), static_cast<int>(extra)};
        } else if (what == 1) { // only the position of a pose
            v = mk.fresh(POSE);
            extra = add_var(v);
            f.k = F_POSPRIOR;
            f.a = {v.x[0], v.x[1], v.x[2]};
            f.v = {static_cast<int>(extra)};
        } else if (what == 2) { // only its orientation
            v = mk.fresh(POSE);
            extra = add_var(v);
            f.k = F_ORIPRIOR;
            f.a = {v.x[3], v.x[4], v.x[5]};
            f.v = {static_cast<int>(extra)};
        } else if (what == 3) { // the length of a plane's normal
            v = mk.fresh(PLANE);
            extra = add_var(v);
            f.k = F_PLANEPRIOR;
            f.a = v.x;
            f.v = {static_cast<int>(extra)};
        } else { // a 2D landmark seen from one fixed pose
            v.k = GEN;
            v.x = {s.uniform(1, 5), s.symmetric(5)};
            VarSpec p;
            p.k = POSE2;
            p.x = {0, 0, s.symmetric(3)};
            size_t pi = add_var(p);
            g.vars[pi].constant = true;
            extra = add_var(v);
            if (extra <= pi) pi++;
            f.k = F_BEARING2;
            f.a = {std::atan2(v.x[1], v.x[0]) - p.x[2]};
            f.v = {static_cast<int>(pi), static_cast<int>(extra)};
        }
        // Elimination amplifies rounding when the open direction lies close to, but not on, a coordinate plane: the
        // singularity is then not visible in the pivots, and the library does not claim to see it
        V3 open = what == 0 ? r3(v.x) - r3(g.vars[static_cast<size_t>(f.v[0])].x) : what == 3 ? r3(v.x) : what == 4 ? ref::vec(v.x[0], v.x[1], 0) : ref::vec(1, 0, 0);
        open = ref::unit(open);
        for (int i = 0; i < 3; i++)
            if (std::fabs(open[i]) < 0.1L && std::fabs(open[i]) > 1e-14L) throw Discard{};
        add_fac(f);
        extra = enough(extra, gen::value_size(g.vars[extra]));
    } else {
        // a ring of differences with known lengths: only the common offset is unknown
        int n = s.range(2, 4), dim = s.range(1, 3);
        std::vector<size_t> at;
        for (int i = 0; i < n; i++) {
            VarSpec v;
            v.k = GEN;
            for (int k = 0; k < dim; k++) v.x.push_back(s.symmetric(5));
            size_t p = add_var(v);
            for (auto& x : at)
                if (x >= p) x++;
            at.push_back(p);
        }
        for (int i = 0; i < n; i++) {
            VarSpec v;
            v.k = GEN;
            for (int k = 0; k < dim; k++) v.x.push_back(s.symmetric(1));
            size_t p = add_var(v);
            for (auto& x : at)
                if (x >= p) x++;
            g.vars[p].constant = true;
            FacSpec f;
            f.k = F_BETWEEN;
            f.s1 = s.uniform(0.3, 2);
            f.v = {static_cast<int>(at[static_cast<size_t>(i)]), static_cast<int>(at[static_cast<size_t>((i + 1) % n)]), static_cast<int>(p)};
            add_fac(f);
        }
        for (auto x : at) chain.push_back(static_cast<int>(x));
    }
    if (c.want_text) {
        ::show(c.text, g);
        show(c.text, set);
        c.text << "mode " << mode << "; ";
    }
    Built b = build(g);
    double chi0 = 0;
    if (!chi2_of(*b.graph, chi0)) throw Discard{};
    std::vector<Obs> before;
    for (auto& v : b.vars) before.push_back(observe(*v));
    std::vector<State> was = states_of(g, b.vars);
    if (lm && mode != 1) set = tight(set.method);
    fg::SparseOptimizer opt;
    wear(c, s, opt, static_cast<size_t>(b.graph->num_values()));
    opt.setup(b.graph, set);
    opt.optimize();
    finite(b);
    auto& st = opt.current_stats_;
    if (!lm) {
        PBT_REQUIRE(!st.valid && (st.status == fg::OptimizerStatus::SINGULAR_HESSIAN || st.status == fg::OptimizerStatus::ILL_CONDITIONED || st.status == fg::OptimizerStatus::FAILED),
                    "Gauss-Newton on a singular problem reports " << name_of(st.status) << (st.valid ? "" : " (invalid)"));
        // the first step is already impossible: nothing may have moved (mode 1 may become singular only to rounding)
        for (size_t i = 0; i < b.vars.size(); i++)
            PBT_REQUIRE(stayed(g.vars[i], was[i], state_of(g.vars[i], *b.vars[i]), before[i], observe(*b.vars[i])), "Gauss-Newton moved variable #" << i << " of a singular problem from " << evec(before[i].num).transpose() << " to "
                                                                                                                    << b.vars[i]->value().transpose());
        PBT_REQUIRE(std::fabs(st.chi2 - chi0) <= 1e-6 * chi0 + 1e-9, "chi2 is reported as " << st.chi2 << " after nothing moved, it is " << chi0);
    } else {
        double chi = 0;
        PBT_REQUIRE(chi2_of(*b.graph, chi) && chi <= chi0 * (1 + 1e-9) + 1e-9, "Levenberg-Marquardt raised chi2 from " << chi0 << " to " << chi);
        if (mode == 0) {
            LR d = scene::distance(was[extra], state_of(g.vars[extra], *b.vars[extra]));
            PBT_REQUIRE(d <= 1e-9L, "Levenberg-Marquardt moved variable #" << extra << ", which no factor constrains, by " << static_cast<double>(d));
        }
        if (mode == 2) {
            for (int k = 0; k < static_cast<int>(g.vars[static_cast<size_t>(chain[0])].x.size()); k++) {
                double s0 = 0, s1 = 0;
                for (int i : chain) {
                    s0 += before[static_cast<size_t>(i)].num[static_cast<size_t>(k)];
                    s1 += b.vars[static_cast<size_t>(i)]->value()[k];
                }
                PBT_REQUIRE(std::fabs(s0 - s1) <= 1e-6, "Levenberg-Marquardt moved the unobservable common offset from " << s0 << " to " << s1);
            }
        }
        if (mode != 1) {
            PBT_REQUIRE(success(opt), "Levenberg-Marquardt ends with " << name_of(st.status) << " where only an unobservable direction is left open");
            std::vector<State> ref = was;
            // the reference pins what is open
            GraphSpec pinned = g;
            if (mode == 0)
                pinned.vars[extra].constant = true;
            else
                pinned.vars[static_cast<size_t>(chain[0])].constant = true;
            auto bs = scene::bases_of(pinned);
            if (scene::solve(pinned, ref, bs)) {
                LR least = scene::residual(pinned, ref, bs).squaredNorm();
                PBT_REQUIRE(chi <= least * (1 + 1e-6L) + 1e-9L, "Levenberg-Marquardt ends with chi2 " << chi << ", the least is " << static_cast<double>(least));
            }
        }
    }
    static const char *names[] = {"unconstrained variable", "unobserved direction", "unanchored chain"};
    c.label(std::string(lm ? "LM " : "GN ") + names[mode]);
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------- P17
PROPERTY(P17, "one case: a well-posed scene and a history of 1..6 operations on one optimizer: optimize (any method, 0 to 100 "
              "iterations), set up on a copy or on another graph, change values, add factors and re-finalize, toggle constants, free a "
              "variable nothing constrains; after each optimize every covariance is compared with the inverse of J^T J in long double; "
              "non-trivial: at least one covariance compared")
{
    Quiet q;
    if (giant::wanted(s, 2000)) return large_covariances(s, c);
    scene::Opt so;
    so.planes = false;
    so.noise = s.coin() ? 1e-2 : 0;
    so.max_facs = 6;
    int ng = s.range(1, 2);
    std::vector<scene::Scene> sc;
    std::vector<GraphSpec> g;
    std::vector<Built> b;
    std::vector<std::set<int>> fids;
    for (int i = 0; i < ng; i++) {
        sc.push_back(scene::make(s, so));
        g.push_back(scene::perturbed(s, sc.back(), s.logu(1e-4, 1e-2)));
        b.push_back(build(g.back()));
        fids.emplace_back();
        for (auto& f : g.back().facs) fids.back().insert(f.id);
        if (c.want_text) {
            c.text << "graph " << i << ": ";
            ::show(c.text, g.back());
        }
    }
    auto opt = std::make_shared<fg::SparseOptimizer>();
    fg::GenericVariable stranger(gen::fresh_id(s, fids[0]), Vec::Ones(2));
    int cur = -1, compared = 0;
    auto all_invalid = [&](const char *when) {
        for (int i = 0; i < ng; i++)
            for (auto& v : b[static_cast<size_t>(i)].vars) {
                bool ok = true;
                try {
                    opt->estimate_covariance(v.get(), ok);
                } catch (const std::exception&) {
                    ok = false;
                }
                PBT_REQUIRE(!ok, "a covariance is flagged valid " << when);
            }
    };
    all_invalid("before anything was set up");
    wear(c, s, *opt, static_cast<size_t>(b[0].graph->num_values()));
    all_invalid("of a variable of a graph that was never set up");
    int n = s.length(1, c.thorough ? 10 : 6, 60);
    for (int step = 0; step < n; step++) {
        // choose a graph
        bool fresh_setup = cur < 0 || s.coin();
        fg::OptimizerSettings set;
        set.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
        set.max_num_iterations = static_cast<size_t>(s.pick(std::vector<int>{100, 0, 1, 2}));
        if (s.coin()) set.step_tolerance = set.residual_tolerance = 1e-10;
        if (s.chance(1, 60)) long_run(s, c, set);
        if (fresh_setup) {
            cur = static_cast<int>(s.draw(static_cast<uint32_t>(ng)));
            opt->setup(b[static_cast<size_t>(cur)].graph, set);
            if (c.want_text) {
                c.text << "set up on " << cur << " ";
                show(c.text, set);
            }
            if (s.chance(1, 4)) {
                opt->prepare_to_estimate_covariances();
                all_invalid("after setup, before optimize()");
            }
        }
        Built& B = b[static_cast<size_t>(cur)];
        GraphSpec& G = g[static_cast<size_t>(cur)];
        auto& F = fids[static_cast<size_t>(cur)];
        // change something
        if (s.coin() && step > 0) {
            size_t i = s.draw(static_cast<uint32_t>(G.vars.size()));
            switch (s.draw(3)) {
            case 0: { // another prior
                if (G.vars[i].k != LM && G.vars[i].k != GEN && G.vars[i].k != POSE2) break;
                FacSpec f;
                f.k = F_PRIOR;
                if (G.vars[i].k == POSE2) f.k = F_P2PRIOR;
                f.v = {static_cast<int>(i)};
                f.a = svec(B.vars[i]->value());
                f.s1 = s.uniform(0.05, 1);
                f.s2 = s.uniform(0.05, 1);
                f.id = gen::fresh_id(s, F);
                G.facs.push_back(f);
                B.facs.push_back(make_factor(f, B.vars));
                B.graph->add_factor(B.facs.back());
                B.graph->finalize_structure();
                if (c.want_text) c.text << "prior on #" << i << "; ";
                break;
            }
            case 1: // toggle a constant that was free in the scene
                if (sc[static_cast<size_t>(cur)].g.vars[i].constant) break;
                G.vars[i].constant = !G.vars[i].constant;
                B.vars[i]->set_constant(G.vars[i].constant);
                B.graph->finalize_structure();
                if (c.want_text) c.text << "toggle #" << i << "; ";
                break;
            default: { // move a free variable
                if (G.vars[i].constant) break;
                Vec d(B.vars[i]->size());
                for (Eigen::Index k = 0; k < d.size(); k++) d[k] = s.symmetric(1e-3);
                B.vars[i]->apply_increment(d);
                if (c.want_text) c.text << "move #" << i << "; ";
            }
            }
        }
        opt->optimize();
        bool prepare = !s.chance(1, 6);
        if (!prepare) {
            all_invalid("after optimize(), before prepare_to_estimate_covariances()");
            continue;
        }
        if (c.want_text) c.text << "optimize; ";
        opt->prepare_to_estimate_covariances();
        if (s.chance(1, 6)) opt->prepare_to_estimate_covariances();
        Mat J = B.graph->compute_full_jacobian_matrix();
        bool ok = true;
        opt->estimate_covariance(nullptr, ok);
        PBT_REQUIRE(!ok, "nullptr has a covariance");
        ok = true;
        if (!B.graph->get_variable(stranger.id())) {
            opt->estimate_covariance(&stranger, ok);
            PBT_REQUIRE(!ok, "a variable that is not in the graph has a covariance");
        }
        if (s.coin()) { // the same ID does not make it the same variable
            auto copy = B.vars[s.draw(static_cast<uint32_t>(B.vars.size()))]->clone();
            ok = true;
            opt->estimate_covariance(copy.get(), ok);
            PBT_REQUIRE(!ok, "a copy of a variable, which is not in the graph, has a covariance");
        }
        if (J.cols() == 0) {
            all_invalid("of a graph without free values");
            continue;
        }
        LMat JL = J.cast<LR>();
        LMat H = JL.transpose() * JL;
        Eigen::SelfAdjointEigenSolver<LMat> es(H);
        LR lo = es.eigenvalues()[0], hi = es.eigenvalues()[H.rows() - 1];
        if (!(lo > 0) || hi / lo > 1e6L) continue; // far from where the scene was well-posed
        LMat P = es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
        int col = 0;
        for (size_t i = 0; i < B.vars.size(); i++) {
            auto& v = *B.vars[i];
            ok = v.is_constant();
            Mat C = opt->estimate_covariance(&v, ok);
            if (v.is_constant()) {
                PBT_REQUIRE(!ok, "constant variable #" << i << " has a covariance");
                continue;
            }
            int d = v.size();
            PBT_REQUIRE(ok, "variable #" << i << " has no covariance on a well-posed problem");
            PBT_REQUIRE(C.rows() == d && C.cols() == d, "covariance of variable #" << i << " is " << C.rows() << "x" << C.cols());
            PBT_REQUIRE(C == C.transpose(), "covariance of variable #" << i << " is not symmetric");
            LMat W = P.block(col, col, d, d);
            LR tol = 1e-13L * hi / lo / lo * 10 + 1e-12L / lo;
            for (int r = 0; r < d; r++)
                for (int k = 0; k < d; k++)
                    PBT_REQUIRE(std::fabs(C(r, k) - W(r, k)) <= tol, "covariance (" << r << "," << k << ") of variable #" << i << " is " << C(r, k) << ", the inverse of J^T J has " << static_cast<double>(W(r, k)));
            col += d;
            compared++;
        }
        // The structure changes after the covariances were prepared: what is still flagged valid is of the new one
        if (s.chance(1, 3)) {
            std::vector<size_t> freed, held;
            for (size_t i = 0; i < G.vars.size(); i++)
                if (!sc[static_cast<size_t>(cur)].g.vars[i].constant) (G.vars[i].constant ? held : freed).push_back(i);
            if (freed.size() < 2) continue;
            size_t a = s.pick(freed);
            if (!held.empty()) {
                size_t z = s.pick(held);
                for (size_t i : freed) // one of the same size takes its place
                    if (B.vars[i]->size() == B.vars[z]->size() && s.coin()) a = i;
                G.vars[z].constant = false;
                B.vars[z]->set_constant(false);
                if (c.want_text) c.text << "free #" << z << ", ";
            }
            G.vars[a].constant = true;
            B.vars[a]->set_constant(true);
            B.graph->finalize_structure();
            if (c.want_text) c.text << "hold #" << a << "; ";
            if (s.coin()) {
                opt->prepare_to_estimate_covariances();
                if (c.want_text) c.text << "prepare again; ";
            }
            LMat JN = B.graph->compute_full_jacobian_matrix().cast<LR>();
            if (JN.cols() == 0) continue;
            LMat HN = JN.transpose() * JN;
            Eigen::SelfAdjointEigenSolver<LMat> en(HN);
            LR l = en.eigenvalues()[0], h = en.eigenvalues()[HN.rows() - 1];
            if (!(l > 0) || h / l > 1e6L) continue;
            LMat PN = en.eigenvectors() * en.eigenvalues().cwiseInverse().asDiagonal() * en.eigenvectors().transpose();
            col = 0;
            for (size_t i = 0; i < B.vars.size(); i++) {
                ok = B.vars[i]->is_constant();
                Mat C = opt->estimate_covariance(B.vars[i].get(), ok);
                if (B.vars[i]->is_constant()) {
                    PBT_REQUIRE(!ok, "variable #" << i << ", held constant since the covariances were prepared, has a covariance");
                    continue;
                }
                int d = B.vars[i]->size();
                if (ok) {
                    PBT_REQUIRE(C.rows() == d && C.cols() == d, "after the structure changed, the covariance of variable #" << i << " is " << C.rows() << "x" << C.cols());
                    LR tol = 1e-13L * h / l / l * 10 + 1e-12L / l;
                    LMat W = PN.block(col, col, d, d);
                    for (int r = 0; r < d; r++)
                        for (int k = 0; k < d; k++)
                            PBT_REQUIRE(std::fabs(C(r, k) - W(r, k)) <= tol, "after the structure changed, covariance (" << r << "," << k << ") of variable #" << i << " is flagged valid with " << C(r, k) << ", the inverse of J^T J has " << static_cast<double>(W(r, k)));
                }
                col += d;
            }
            c.label("structure changed after preparing");
        }
    }
    // an unsolvable graph: nothing constrains a free variable
    if (s.chance(1, 4)) {
        GraphSpec G = g[0];
        std::set<int> ids;
        for (auto& v : G.vars) ids.insert(v.id);
        VarSpec v;
        v.k = GEN;
        v.x = {1, 2};
        v.id = gen::fresh_id(s, ids);
        G.vars.push_back(v);
        for (auto& w : G.vars)
            if (G.vars.size() > 1 && &w != &G.vars.back() && s.coin() && !w.constant) w.constant = true;
        int rows = 0, cols = 0;
        for (auto& f : G.facs) rows += gen::residual_rows(f, G.vars);
        for (auto& w : G.vars) cols += w.constant ? 0 : gen::value_size(w);
        if (rows >= cols) {
            Built B = build(G);
            fg::OptimizerSettings set;
            set.method = fg::OptimizerMethod::LevenbergMarquardt;
            if (s.coin()) set.max_num_iterations = 0;
            if (s.coin()) opt = std::make_shared<fg::SparseOptimizer>();
            opt->setup(B.graph, set);
            opt->optimize();
            opt->prepare_to_estimate_covariances();
            bool ok = true;
            opt->estimate_covariance(B.vars.back().get(), ok);
            PBT_REQUIRE(!ok, "a variable that nothing constrains has a covariance");
            c.label("unconstrained variable");
        }
    }
    // one direction that nothing observes
    if (s.chance(1, 4)) {
        GraphSpec G;
        VarSpec p, l;
        p.k = POSE;
        p.x = {s.symmetric(3), s.symmetric(3), s.symmetric(3), s.symmetric(1), s.symmetric(1), s.symmetric(1)};
        p.id = 1;
        p.constant = true;
        l.k = LM;
        l.x = {s.symmetric(8), s.symmetric(8), s.symmetric(8)};
        l.id = 2;
        V3 pc = scene::spec_state(p).rot * (r3(l.x) - r3(p.x));
        if (ref::norm(pc) > 1) {
            G.vars = {p, l};
            FacSpec f;
            f.k = F_BEARING;
            f.v = {0, 1};
            V3 u = ref::unit(pc);
            f.a = {static_cast<double>(u[0]), static_cast<double>(u[1]), static_cast<double>(u[2])};
            f.s1 = s.uniform(0.3, 2);
            f.id = 1;
            G.facs.push_back(f);
            Built B = build(G);
            fg::OptimizerSettings set;
            set.method = fg::OptimizerMethod::LevenbergMarquardt;
            fg::SparseOptimizer o2;
            wear(c, s, o2, static_cast<size_t>(B.graph->num_values()));
            o2.setup(B.graph, set);
            o2.optimize();
            o2.prepare_to_estimate_covariances();
            bool ok = true;
            Mat C = o2.estimate_covariance(B.vars[1].get(), ok);
            PBT_REQUIRE(!ok, "the position of a landmark seen from a single fixed camera has the covariance\n" << C);
            c.label("unobserved direction");
        }
    }
    c.nontrivial = compared > 0;
}

namespace
{
    struct Rows : fg::Factor // as many residuals as the structure asks for, about nothing
    {
        explicit Rows(int id) { id_ = id; }
        int residual_size() const override { return 32; }
        Vec compute_residual() const override { return Vec::Zero(32); }
        void compute_residual(Eigen::Ref<Vec> out) const override { out.setZero(); }
        void compute_jacobians(std::vector<Mat>& J) const override { J.clear(); }
        std::vector<fg::Variable *> variables() override { return {}; }
        fg::FactorType::FactorTypeEnum type() const override { return fg::FactorType::custom; }
        std::string name() const override { return "Rows"; }
    };
    // Differentiating numerically moves the variables: wherever they are, they must be put back.
    void wild_values_stay(Src& s, Ctx& c)
    {
        c.label("wild values");
        gen::Single one = gen::single(s, static_cast<FK>(s.draw(NUM_FK)), false, true);
        for (auto& v : one.g.vars)
            if ((v.k == ROT || v.k == POSE) && s.chance(1, 3)) { // the same rotation, one turn further
                size_t at = v.k == ROT ? 0 : 3;
                double t = std::sqrt(v.x[at] * v.x[at] + v.x[at + 1] * v.x[at + 1] + v.x[at + 2] * v.x[at + 2]);
                if (t > 1e-3)
                    for (size_t i = 0; i < 3; i++) v.x[at + i] *= (t + 2 * M_PI) / t;
            }
        if (c.want_text) ::show(c.text, one.g);
        Built b = build(one.g, false);
        std::vector<Obs> before;
        std::vector<State> was = states_of(one.g, b.vars);
        for (auto& v : b.vars) before.push_back(observe(*v));
        double eps = s.pick(std::vector<double>{1e-6, 1e-4, 1e-8});
        bool direct = s.coin();
        bool edge = s.chance(1, 4); // so close to where a factor has no residual that differentiating it leads there
        fg::Factor *to = b.facs[0].get();
        std::shared_ptr<BoundedFactor> bounded;
        if (edge) {
            int what = static_cast<int>(s.draw(4));
            VarSpec v;
            v.k = GEN;
            v.id = one.g.vars[0].id == 7 ? 8 : 7;
            for (auto& o : one.g.vars) v.id = std::max(v.id, o.id < 2000000000 ? o.id + 1 : v.id);
            v.x = {what == 2 ? (s.coin() ? 1 - s.logu(1e-10, 1e-7) : -1 + s.logu(1e-10, 1e-7)) : s.logu(1e-10, 1e-7)};
            one.g.vars.push_back(v);
            b.vars.push_back(make_var(v));
            was.push_back(state_of(v, *b.vars.back()));
            before.push_back(observe(*b.vars.back()));
            b.graph->add_variable(b.vars.back());
            bounded = std::make_shared<BoundedFactor>(one.g.facs[0].id == 5 ? 6 : 5, static_cast<fg::GenericVariable *>(b.vars.back().get()), what, 1.0, 0.0, s.coin(), std::nan(""));
            b.graph->add_factor(bounded);
            to = bounded.get();
            eps = std::max(eps, 1e-6);
            c.label("at the edge of a factor's domain");
        }
        try {
            if (direct) {
                std::vector<Mat> N;
                fg::ComputeNumericalJacobians(*to, N, eps);
            } else {
                auto rows = std::make_shared<Rows>(one.g.facs[0].id == 0 ? 1 : 0); // the bounded factor has the id 5 or 6
                b.graph->add_factor(rows);
                b.graph->finalize_structure();
                Caught t;
                b.graph->detailed_factor_test(1e-3, s.coin());
            }
        } catch (const std::exception&) {
            c.label("refused geometry"); // the values must be where they were all the same
        }
        for (size_t i = 0; i < b.vars.size(); i++)
            PBT_REQUIRE(stayed(one.g.vars[i], was[i], state_of(one.g.vars[i], *b.vars[i]), before[i], observe(*b.vars[i])), (direct ? "the numerical Jacobian" : "the self-test") << " changed variable #" << i << " from " << evec(before[i].num).transpose() << " to "
                                                                                                                   << b.vars[i]->value().transpose());
        c.nontrivial = true;
    }
} // namespace

// ------------------------------------------------------------------------------------------- P18
PROPERTY(P18, "one case: a scene over all kinds at or near its truth with constants; the self-test must accept it, the numerical "
              "Jacobians must match the derivative of the reference residual, and with one factor's Jacobian made wrong (one entry, a "
              "factor, a sign, a row, column or block too many or too few, a block for a constant, NaN, infinity) at a random place it "
              "must reject it; values must stay; or one factor over wild states (rotation vectors beyond a half turn included), whose "
              "values numerical differentiation and the self-test must leave where they were; non-trivial: both verdicts were checked")
{
    Quiet q;
    if (giant::wanted(s, 4000)) return large_self_test(s, c);
    if (s.chance(1, 8)) return wild_values_stay(s, c);
    scene::Opt so;
    so.cond = 1e9;
    so.smin = 0;
    so.noise = s.coin() ? 0.1 : 0;
    scene::Scene sc = scene::make(s, so);
    GraphSpec g = scene::perturbed(s, sc, s.pick(std::vector<double>{1e-3, 0, 0.1}));
    if (c.want_text) ::show(c.text, g);
    double tol = s.pick(std::vector<double>{1e-3, 1e-4, 1e-2, 1e-5});
    bool verbose = s.coin();
    Built b = build(g);
    std::vector<Obs> before;
    std::vector<State> was = states_of(g, b.vars);
    for (auto& v : b.vars) before.push_back(observe(*v));
    auto unchanged = [&](const char *what) {
        for (size_t i = 0; i < b.vars.size(); i++)
            PBT_REQUIRE(stayed(g.vars[i], was[i], state_of(g.vars[i], *b.vars[i]), before[i], observe(*b.vars[i])), what << " changed variable #" << i << " from " << evec(before[i].num).transpose() << " to "
                                                                                                               << b.vars[i]->value().transpose());
    };
    auto self_test = [&](Built& x) {
        std::string said;
        bool verdict;
        {
            Caught t;
            verdict = x.graph->detailed_factor_test(tol, verbose);
            said = t.str();
        }
        check_self_test_report(said, verdict, x.facs, tol, verbose);
        return verdict;
    };
    PBT_REQUIRE(self_test(b), "the self-test rejects a graph of library factors");
    unchanged("the self-test");
    // numerical Jacobians against the reference
    {
        size_t fi = s.draw(static_cast<uint32_t>(b.facs.size()));
        std::vector<Mat> N;
        N.resize(s.draw(4)); // whatever was there before
        fg::ComputeNumericalJacobians(*b.facs[fi], N);
        unchanged("the numerical Jacobian");
        GraphSpec one = g;
        one.facs = {g.facs[fi]};
        scene::Lin L = scene::linearize(one, was, scene::bases_of(one), 1e-5L);
        auto vs = b.facs[fi]->variables();
        PBT_REQUIRE(N.size() == vs.size(), "numerical Jacobian has " << N.size() << " blocks for " << vs.size() << " variables");
        for (size_t k = 0; k < vs.size(); k++) {
            size_t vi = static_cast<size_t>(g.facs[fi].v[k]);
            if (g.vars[vi].constant) {
                PBT_REQUIRE(N[k].size() == 0, "numerical Jacobian has a block for a constant");
                continue;
            }
            int d = gen::value_size(g.vars[vi]);
            PBT_REQUIRE(N[k].rows() == L.J.rows() && N[k].cols() == d, "numerical Jacobian block " << k << " is " << N[k].rows() << "x" << N[k].cols());
            LMat W = L.J.middleCols(L.col[vi], d);
            LR m = W.size() ? W.cwiseAbs().maxCoeff() : 0;
            for (Eigen::Index r = 0; r < W.rows(); r++)
                for (int j = 0; j < d; j++) PBT_REQUIRE(std::fabs(N[k](r, j) - W(r, j)) <= 1e-4L * (1 + m), "numerical Jacobian of " << fk_name(g.facs[fi].k) << " block " << k << " (" << r << "," << j << ") is " << N[k](r, j) << ", the derivative is "
                                                                                                           << static_cast<double>(W(r, j)));
        }
    }
    // one wrong factor
    size_t fi = s.draw(static_cast<uint32_t>(b.facs.size()));
    std::vector<Mat> J;
    b.facs[fi]->compute_jacobians(J);
    auto w = std::make_shared<WrongFactor>(b.facs[fi]);
    std::vector<size_t> free, cons;
    for (size_t k = 0; k < J.size(); k++) (b.facs[fi]->variables()[k]->is_constant() ? cons : free).push_back(k);
    w->kind = static_cast<WrongFactor::Kind>(s.draw(WrongFactor::NUM));
    bool needs_const = w->kind == WrongFactor::CONSTANT_BLOCK, any = w->kind == WrongFactor::MISSING_BLOCK || w->kind == WrongFactor::EXTRA_BLOCK;
    auto& from = needs_const ? cons : free;
    if (!any && from.empty()) throw Discard{};
    w->block = any ? 0 : s.pick(from);
    if (!any && !needs_const) {
        Mat& B = J[w->block];
        w->r = static_cast<int>(s.draw(static_cast<uint32_t>(B.rows())));
        w->col = static_cast<int>(s.draw(static_cast<uint32_t>(B.cols())));
        double limit = std::max(1e-2, maxabs(B) * tol);
        w->delta = (s.coin() ? 1 : -1) * limit * s.logu(1.5, 100);
        if (w->kind == WrongFactor::SCALED) w->delta = s.coin() ? 2 : 0.5;
        if (w->kind == WrongFactor::TRANSPOSED_SIGN) w->delta = -1;
        if ((w->kind == WrongFactor::SCALED || w->kind == WrongFactor::TRANSPOSED_SIGN) && maxabs(B) * 0.5 < 1.5 * limit) throw Discard{};
    } else {
        w->r = 0;
        w->col = b.facs[fi]->variables()[w->block]->size();
    }
    if (c.want_text) c.text << "factor " << fi << " wrong in way " << w->kind << " block " << w->block << " (" << w->r << "," << w->col << ") by " << w->delta << " tol " << tol << "; ";
    Built d;
    d.vars = b.vars;
    d.graph = std::make_shared<fg::FactorGraph>();
    for (auto& v : d.vars) d.graph->add_variable(v);
    d.facs = b.facs;
    d.facs[fi] = w;
    for (auto& f : d.facs) d.graph->add_factor(f);
    d.graph->finalize_structure();
    PBT_REQUIRE(!self_test(d), "the self-test accepts a graph whose factor " << fi << " has a wrong Jacobian");
    unchanged("the self-test");
    c.label("wrong in way " + std::to_string(w->kind));
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------- P19
PROPERTY(P19, "one case: a well-posed scene run twice (bit-identical), with an optimizer used before on another graph (bit-identical), "
              "with verbose output (bit-identical), and with all ids renumbered and variables and factors added in another order (same "
              "initial chi2; same estimate and covariances up to rounding); non-trivial: at least two variables and an iteration")
{
    Quiet q;
    if (giant::wanted(s, 3000)) return large_repeat(s, c);
    scene::Opt so;
    so.planes = s.chance(1, 4);
    so.noise = s.coin() ? 5e-3 : 0;
    scene::Scene sc = scene::make(s, so);
    GraphSpec g = scene::perturbed(s, sc, s.logu(1e-4, 1e-2));
    bool gn = s.coin() && !has_free_plane(g);
    fg::OptimizerSettings set = tight(gn ? fg::OptimizerMethod::GaussNewton : fg::OptimizerMethod::LevenbergMarquardt);
    bool wild = s.chance(1, 3); // for the bit-identical part: any graph and settings
    GraphSpec g0 = g;
    fg::OptimizerSettings set0 = set;
    if (wild) {
        gen::GraphOpt o;
        g0 = gen::graph(s, o);
        set0 = wild_settings(s);
    }
    if (c.want_text) {
        ::show(c.text, g0);
        show(c.text, set0);
    }
    struct Out
    {
        std::vector<double> num;
        std::string text;
    };
    auto record = [&](Built& b, fg::SparseOptimizer& o, bool threw) {
        Out r;
        for (auto& v : b.vars) {
            Obs x = observe(*v);
            r.num.insert(r.num.end(), x.num.begin(), x.num.end());
            bool ok = false;
            Mat C;
            try {
                C = o.estimate_covariance(v.get(), ok);
            } catch (const std::exception&) {
            }
            r.num.push_back(ok);
            if (ok)
                for (Eigen::Index i = 0; i < C.size(); i++) r.num.push_back(C.data()[i]);
        }
        for (auto *st : {&o.initial_stats_, &o.current_stats_}) {
            r.num.push_back(st->chi2);
            r.num.push_back(st->residual_norm);
            r.num.push_back(st->delta_norm);
            r.num.push_back(st->damping_parameter);
            r.num.push_back(st->current_iteration);
            r.num.push_back(st->valid);
            r.text += name_of(st->status);
        }
        if (threw) r.text += " threw";
        return r;
    };
    auto run = [&](Built& b, fg::SparseOptimizer& o, const fg::OptimizerSettings& st) {
        o.setup(b.graph, st);
        bool threw = false;
        try {
            o.optimize();
            o.prepare_to_estimate_covariances();
        } catch (const std::exception&) {
            threw = true;
        }
        return record(b, o, threw);
    };
    auto equal = [&](const Out& a, const Out& x, const char *what) {
        PBT_REQUIRE(a.text == x.text && a.num.size() == x.num.size(), what << " changes the outcome from " << a.text << " to " << x.text);
        for (size_t i = 0; i < a.num.size(); i++) PBT_REQUIRE(same(a.num[i], x.num[i]), what << " changes a number of the result from " << a.num[i] << " to " << x.num[i]);
    };
    Built b1 = build(g0);
    fg::SparseOptimizer o1;
    Out first = run(b1, o1, set0);
    bool refused = first.text.find("threw") != std::string::npos;
    {
        Built b = build(g0);
        fg::SparseOptimizer o;
        equal(first, run(b, o, set0), "running again");
    }
    if (!refused) {
        Built other = build(g), b = build(g0);
        fg::SparseOptimizer o;
        fg::OptimizerSettings st;
        st.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
        if (s.coin()) run(other, o, st);
        wear(c, s, o, static_cast<size_t>(b.graph->num_values()));
        equal(first, run(b, o, set0), "an optimizer that was used before");
    }
    {
        Built b = build(g0);
        fg::SparseOptimizer o;
        fg::OptimizerSettings st = set0;
        st.verbose = true;
        equal(first, run(b, o, st), "verbose output");
    }
    if (!wild) {
        // renumber and reorder
        size_t nv = g.vars.size(), nf = g.facs.size();
        std::vector<size_t> pv(nv), pf(nf);
        auto shuffle = [&](std::vector<size_t>& p) {
            for (size_t i = 0; i < p.size(); i++) p[i] = i;
            for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[s.draw(static_cast<uint32_t>(i))]);
        };
        shuffle(pv);
        shuffle(pf);
        GraphSpec h;
        h.vars.resize(nv);
        h.facs.resize(nf);
        std::set<int> ids, fids;
        for (size_t i = 0; i < nv; i++) {
            h.vars[pv[i]] = g.vars[i];
            h.vars[pv[i]].id = gen::fresh_id(s, ids);
        }
        for (size_t i = 0; i < nf; i++) {
            h.facs[pf[i]] = g.facs[i];
            for (auto& v : h.facs[pf[i]].v) v = static_cast<int>(pv[static_cast<size_t>(v)]);
            h.facs[pf[i]].id = gen::fresh_id(s, fids);
        }
        if (c.want_text) {
            c.text << "reordered: ";
            ::show(c.text, h);
        }
        Built b = build(h);
        fg::SparseOptimizer o;
        run(b, o, set);
        PBT_REQUIRE(std::fabs(o.initial_stats_.chi2 - o1.initial_stats_.chi2) <= 1e-10 * o1.initial_stats_.chi2 + 1e-14, "another order changes the initial chi2 from " << o1.initial_stats_.chi2 << " to " << o.initial_stats_.chi2);
        PBT_REQUIRE(success(o) && success(o1), "another order: status " << name_of(o1.current_stats_.status) << " and " << name_of(o.current_stats_.status));
        PBT_REQUIRE(std::fabs(o.current_stats_.chi2 - o1.current_stats_.chi2) <= 1e-6 * o1.current_stats_.chi2 + 1e-11, "another order changes the final chi2 from " << o1.current_stats_.chi2 << " to " << o.current_stats_.chi2);
        double k = std::max(1.0, 1 / sc.sp.smin);
        for (size_t i = 0; i < nv; i++) {
            LR d = scene::distance(state_of(g.vars[i], *b1.vars[i]), state_of(h.vars[pv[i]], *b.vars[pv[i]]));
            PBT_REQUIRE(d <= 2e-6L * k, "another order changes the estimate of variable #" << i << " by " << static_cast<double>(d));
            bool v1 = false, v2 = false;
            if (g.vars[i].constant || has_free_plane(g)) continue;
            Mat C1 = o1.estimate_covariance(b1.vars[i].get(), v1), C2 = o.estimate_covariance(b.vars[pv[i]].get(), v2);
            PBT_REQUIRE(v1 && v2, "another order: covariance validity of variable #" << i << " " << v1 << " and " << v2);
            PBT_REQUIRE(maxabs(C1 - C2) <= 1e-3 * maxabs(C1) * k, "another order changes the covariance of variable #" << i << " from\n" << C1 << "\nto\n" << C2);
        }
        c.label("reordered");
    } else {
        c.label("any graph");
    }
    c.nontrivial = g0.vars.size() >= 2 && o1.current_stats_.current_iteration > 0;
}
