// P26: what each iteration does.  P28: what is printed.
#include "scene.hpp"
#include "giant.hpp"
#include "quiet.hpp"
#include "text.hpp"
#include "selftest.hpp"
#include "fakeclock.hpp"
#include <iomanip>

namespace
{
    typedef Eigen::Matrix<LR, Eigen::Dynamic, Eigen::Dynamic> LMat2;
    const char *status_name(fg::OptimizerStatus st)
    {
        switch (st) {
        case fg::OptimizerStatus::SUCCESS: return "SUCCESS";
        case fg::OptimizerStatus::RUNNING: return "RUNNING";
        case fg::OptimizerStatus::SINGULAR_HESSIAN: return "SINGULAR_HESSIAN";
        case fg::OptimizerStatus::ILL_CONDITIONED: return "ILL_CONDITIONED";
        case fg::OptimizerStatus::DIVERGED: return "DIVERGED";
        default: return "FAILED";
        }
    }
    bool failed(fg::OptimizerStatus st) { return st == fg::OptimizerStatus::SINGULAR_HESSIAN || st == fg::OptimizerStatus::ILL_CONDITIONED || st == fg::OptimizerStatus::FAILED; }
    struct Ran
    {
        Built b;
        fg::SparseOptimizer opt;
    };
} // namespace

namespace
{
    // One iteration on very many copies of a scene: every copy takes the step it takes by itself
    void large_step(Src& s, Ctx& c)
    {
        scene::Opt so;
        so.noise = s.coin() ? 0.5 : 0;
        so.planes = false;
        giant::Large L(s, c, so, 60000, s.logu(1e-3, 0.05));
        bool identical = s.coin();
        if (identical) { // all copies start alike
            GraphSpec h = L.alone(0);
            for (size_t i = 0; i < L.t.g.vars.size(); i++) L.t.g.vars[i].x = h.vars[L.t.var_local[i]].x;
        }
        fg::OptimizerSettings set;
        bool lm = s.coin();
        set.method = lm ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
        set.max_num_iterations = 1;
        set.step_tolerance = set.residual_tolerance = 0;
        set.learning_rate = s.coin() ? s.uniform(0.05, 1.2) : 1;
        set.initial_lambda = s.logu(1e-6, 10);
        if (c.want_text) c.text << (lm ? "LM" : "GN") << " rate " << set.learning_rate << " lambda " << set.initial_lambda << "; ";
        Built b = build(L.t.g);
        fg::SparseOptimizer opt;
        opt.setup(b.graph, set);
        opt.optimize();
        auto& st = opt.current_stats_;
        if (lm && failed(st.status)) { // no attempt lowers the cost: small graphs look into this
            c.label("rejection");
            return;
        }
        PBT_REQUIRE(!failed(st.status) && st.current_iteration == 1, "an iteration on copies of a well-posed scene ends with " << status_name(st.status) << " after " << st.current_iteration);
        if (lm) {
            double next = std::max(set.initial_lambda * set.lambda_down_factor, 1e-12);
            if (std::fabs(st.damping_parameter - next) > 1e-9 * next) { // not at the first attempt: small graphs look into this
                c.label("rejection");
                return;
            }
        }
        double lambda = lm ? set.initial_lambda : 0, chi0 = 0, chi1 = 0;
        LR norm2 = 0;
        for (size_t tile : identical ? L.some(s, 30) : L.some(s, 12)) {
            GraphSpec h = L.alone(tile);
            Built one = build(h);
            LMat J = one.graph->compute_full_jacobian_matrix().cast<LR>(), A = J.transpose() * J;
            LVec r = one.graph->compute_full_residual_vector().cast<LR>();
            A.diagonal().array() += static_cast<LR>(lambda);
            LVec dx = (lm ? LVec(A.ldlt().solve(-(J.transpose() * r))) : LVec(J.colPivHouseholderQr().solve(-r))) * static_cast<LR>(set.learning_rate);
            chi0 = static_cast<double>(r.squaredNorm());
            one.graph->apply_increment(dx.cast<double>());
            chi1 = one.graph->compute_full_residual_vector().squaredNorm();
            norm2 = dx.squaredNorm();
            LR tol = (1e-9L + 1e-13L * L.sc.sp.cond() * L.sc.sp.cond()) * (dx.norm() + 1);
            for (size_t l = 0; l < h.vars.size(); l++) {
                size_t i = L.t.var(tile, l);
                LR d = scene::distance(state_of(L.t.g.vars[i], *b.vars[i]), state_of(h.vars[l], *one.vars[l]));
                PBT_REQUIRE(d <= tol, "the iteration leaves " << L.name(i) << " " << static_cast<double>(d) << " away from where the step of that copy takes it: " << b.vars[i]->value().transpose() << " instead of "
                                                              << one.vars[l]->value().transpose());
            }
        }
        if (identical) {
            LR n = static_cast<LR>(L.t.tiles), size = std::sqrt(norm2 * n);
            PBT_REQUIRE(std::fabs(st.delta_norm - size) <= 1e-7L * (size + 1), "step norm " << st.delta_norm << " for " << L.t.tiles << " equal copies whose own steps have norm " << static_cast<double>(std::sqrt(norm2)));
            PBT_REQUIRE(std::fabs(opt.initial_stats_.chi2 - chi0 * n) <= 1e-9L * chi0 * n + 1e-9L && std::fabs(st.chi2 - chi1 * n) <= 1e-6L * chi1 * n + 1e-7L,
                        "chi2 goes from " << opt.initial_stats_.chi2 << " to " << st.chi2 << " for " << L.t.tiles << " equal copies where it goes from " << chi0 << " to " << chi1);
        }
        c.label(lm ? "LM step of many" : "GN step of many");
        c.nontrivial = true;
    }
} // namespace

PROPERTY(P26, "one case: a random graph over all kinds, or a scene near or far from its optimum, random method and settings; the run is repeated "
              "with every iteration limit from 0 to K, and every iteration is recomputed from the state it starts from (QR in long double, the damping "
              "sequence by the settings); non-trivial: at least one iteration recomputed")
{
    Quiet q;
    if (giant::wanted(s, 2000)) return large_step(s, c);
    GraphSpec g;
    bool wild = s.chance(1, 3);
    if (wild) {
        gen::GraphOpt o;
        o.additive = s.chance(3, 4);
        g = gen::graph(s, o);
    } else {
        scene::Opt so;
        so.noise = s.coin() ? s.pick(std::vector<double>{1e-2, 0.5, 3}) : 0;
        so.cond = 1e3;
        so.smin = 1e-3;
        so.planes = s.chance(1, 4);
        scene::Scene sc = scene::make(s, so);
        g = scene::perturbed(s, sc, s.logu(1e-3, 3));
    }
    fg::OptimizerSettings set;
    bool lm = s.coin();
    set.method = lm ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
    set.max_num_iterations = static_cast<size_t>(1 + s.draw(c.thorough ? 10 : 6));
    set.step_tolerance = s.coin() ? s.logu(1e-9, 1) : s.pick(std::vector<double>{1e-6, 0});
    set.residual_tolerance = s.coin() ? s.logu(1e-9, 1) : s.pick(std::vector<double>{1e-6, 0});
    set.learning_rate = s.coin() ? s.uniform(0.05, 1.5) : 1;
    set.check_rank_deficiency = s.chance(1, 8);
    if (s.chance(1, 400) && g.vars.size() < 8) { // small steps, and many of them
        set.max_num_iterations = static_cast<size_t>(s.logu(20, 300));
        set.learning_rate = s.logu(0.003, 0.2);
        set.step_tolerance = set.residual_tolerance = 0;
    }
    if (lm && s.chance(2, 3)) {
        set.initial_lambda = s.logu(1e-6, 1e3);
        set.max_lambda = std::max(set.initial_lambda, s.logu(1e-2, 1e6));
        set.lambda_up_factor = s.coin() ? s.uniform(1.2, 20) : 10;
        set.lambda_down_factor = s.coin() ? s.uniform(0.05, 0.95) : 0.1;
    }
    if (lm && s.chance(1, 25)) { // damping that a direction nothing constrains makes useless at first
        set.initial_lambda = s.logu(1e-19, 1e-15);
        set.max_lambda = s.logu(1e-2, 1e6);
        set.lambda_up_factor = s.logu(1e2, 1e8);
        VarSpec v = gen::var(s, GEN, s.range(1, 3));
        std::set<int> ids;
        size_t rows = 0, cols = v.x.size();
        for (auto& w : g.vars) {
            ids.insert(w.id);
            cols += w.constant ? 0 : static_cast<size_t>(gen::value_size(w));
        }
        for (auto& f : g.facs) rows += static_cast<size_t>(gen::residual_rows(f, g.vars));
        v.id = gen::fresh_id(s, ids);
        v.constant = false;
        if (rows >= cols) g.vars.insert(g.vars.end(), v);
    }
    if (c.want_text) {
        show(c.text, g);
        c.text << (lm ? "LM " : "GN ") << set.max_num_iterations << " iterations, tolerances " << set.step_tolerance << "/" << set.residual_tolerance << " rate " << set.learning_rate << " lambda "
               << set.initial_lambda << "<=" << set.max_lambda << " x" << set.lambda_up_factor << " x" << set.lambda_down_factor << "; ";
    }
    const size_t K = set.max_num_iterations;
    std::vector<std::unique_ptr<Ran>> run;
    for (size_t k = 0; k <= K; k++) {
        run.push_back(std::make_unique<Ran>());
        Ran& r = *run.back();
        r.b = build(g);
        set.max_num_iterations = k;
        r.opt.setup(r.b.graph, set);
        if (k == 0) {
            try {
                double chi = r.b.graph->compute_full_residual_vector().squaredNorm();
                if (!std::isfinite(chi) || chi > 1e14) throw Discard{};
            } catch (const std::exception&) {
                throw Discard{};
            }
        }
        r.opt.optimize();
    }
    auto& last = run[K]->opt.current_stats_;
    const size_t n = static_cast<size_t>(last.current_iteration);
    if (run[0]->b.graph->num_values() == 0) throw Discard{};
    auto rn = [&](size_t k) { return k == 0 ? run[0]->opt.initial_stats_.residual_norm : run[k]->opt.current_stats_.residual_norm; };
    // A run that may make k iterations is the beginning of a run that may make more
    for (size_t k = 0; k <= K; k++) {
        auto& st = run[k]->opt.current_stats_;
        PBT_REQUIRE(static_cast<size_t>(st.current_iteration) == std::min(k, n), "a run of at most " << k << " iterations made " << st.current_iteration << ", one of at most " << K << " made " << n);
        if (k > n) {
            PBT_REQUIRE(st.status == last.status && same(st.chi2, last.chi2) && same(st.damping_parameter, last.damping_parameter),
                        "a run that ended by itself after " << n << " iterations depends on the limit (" << k << ", " << K << "): " << status_name(st.status) << " chi2 " << st.chi2 << ", " << status_name(last.status) << " chi2 " << last.chi2);
        }
        if (k >= n)
            for (size_t i = 0; i < g.vars.size(); i++)
                PBT_REQUIRE(observe(*run[k]->b.vars[i]) == observe(*run[K]->b.vars[i]) || failed(last.status), "variable #" << i << " depends on the limit (" << k << ", " << K << ") though the run ended by itself after " << n << " iterations");
        if (k < n || (k == n && n == K)) PBT_REQUIRE(k == 0 || !failed(st.status) || k == n, "a run of at most " << k << " iterations reports " << status_name(st.status) << ", but a longer one went on");
    }
    // It ends where the tolerances say
    for (size_t k = 1; k <= n; k++) {
        auto& st = run[k]->opt.current_stats_;
        double gain = rn(k - 1) - rn(k), eps = 1e-12 * rn(k - 1);
        bool small = st.delta_norm < set.step_tolerance, little = gain < set.residual_tolerance - eps, no = gain >= set.residual_tolerance + eps;
        if (k < n) {
            PBT_REQUIRE(!small && !little, "iteration " << k << " has step norm " << st.delta_norm << " and improves the residual norm by " << gain << ", but the run goes on (tolerances " << set.step_tolerance << ", "
                                                        << set.residual_tolerance << ")");
        } else if (n < K && last.status == fg::OptimizerStatus::SUCCESS) {
            PBT_REQUIRE(small || !no, "the run ends with success after " << n << " of " << K << " iterations, where the step norm is " << st.delta_norm << " and the residual norm improves by " << gain << " (tolerances "
                                                                         << set.step_tolerance << ", " << set.residual_tolerance << ")");
            c.label("ended by a tolerance");
        } else if (n < K && last.status == fg::OptimizerStatus::DIVERGED) {
            PBT_REQUIRE(gain < eps, "the run ends as DIVERGED after " << n << " of " << K << " iterations, though the residual norm fell by " << gain);
        }
    }
    if (n > 15) c.label(n > 255 ? "more than 255 iterations" : n > 50 ? "more than 50 iterations" : "more than 15 iterations");
    if (!failed(last.status) && n == 0) PBT_REQUIRE(K == 0, "no iteration was made, of " << K);
    // Every iteration, recomputed
    int compared = 0;
    for (size_t k = 0; k < n; k++) {
        Ran &from = *run[k], &to = *run[k + 1];
        if (k + 1 == n && failed(last.status) && !lm) break;
        Mat Jd, rd;
        try {
            Jd = from.b.graph->compute_full_jacobian_matrix();
            rd = from.b.graph->compute_full_residual_vector();
        } catch (const std::exception&) {
            break;
        }
        if (!Jd.allFinite() || !rd.allFinite() || Jd.cols() > 120) break;
        LMat2 J = Jd.cast<LR>(), H = J.transpose() * J;
        LVec r = rd.cast<LR>(), rhs = -(J.transpose() * r);
        Eigen::VectorXd ev = Eigen::SelfAdjointEigenSolver<Mat>(Mat(Jd.transpose() * Jd), Eigen::EigenvaluesOnly).eigenvalues();
        double emax = ev.tail(1)[0], emin = std::max(0.0, ev[0]);
        auto hopeless = [&](double lambda) { return !(emin + lambda > 1e-11) || (emax + lambda) / (emin + lambda) > 1e8; };
        bool half_turn = false;
        for (size_t i = 0; i < g.vars.size(); i++)
            half_turn = half_turn || (!g.vars[i].constant && (g.vars[i].k == POSE || g.vars[i].k == ROT) && from.b.vars[i]->value().tail(3).norm() > 3);
        // the state after a step, on a graph of its own
        auto after = [&](const LVec& dx, double& chi) {
            Built t = build(g);
            if (half_turn) { // a rotation vector near pi does not tell the rotation exactly: run to this state again
                fg::SparseOptimizer again;
                fg::OptimizerSettings o = set;
                o.max_num_iterations = k;
                again.setup(t.graph, o);
                again.optimize();
            } else {
                for (size_t i = 0; i < t.vars.size(); i++)
                    if (!g.vars[i].constant) t.vars[i]->set_value_from_vector(from.b.vars[i]->value());
            }
            t.graph->apply_increment(dx.cast<double>());
            chi = t.graph->compute_full_residual_vector().squaredNorm();
            return t;
        };
        auto compare = [&](const LVec& dx, const Built& want, double lambda, bool rolled_back) {
            LR size = dx.norm(), cond = (emax + lambda) / (emin + lambda), tol = (1e-9L + 1e-14L * cond) * (size + 1);
            if (rolled_back && half_turn) tol += 1e-6L; // (the library's own way back is through the vector)
            PBT_REQUIRE(std::fabs(to.opt.current_stats_.delta_norm - size) <= tol, "iteration " << k + 1 << " has step norm " << to.opt.current_stats_.delta_norm << ", the step from there is " << static_cast<double>(size) << " long");
            for (size_t i = 0; i < g.vars.size(); i++) {
                LR d = scene::distance(state_of(g.vars[i], *to.b.vars[i]), state_of(g.vars[i], *want.vars[i]));
                LR t = tol;
                for (double x : g.vars[i].x) t = std::max(t, 1e-13L * std::fabs(static_cast<LR>(x)));
                if (g.vars[i].k == PLANE) t *= 10;
                PBT_REQUIRE(d <= t, "iteration " << k + 1 << " leaves variable #" << i << " (" << vk_name(g.vars[i].k) << ") " << static_cast<double>(d) << " away from where the step takes it: " << to.b.vars[i]->value().transpose() << " instead of "
                                                 << want.vars[i]->value().transpose());
            }
            compared++;
        };
        if (!lm) {
            if (hopeless(0)) break;
            LVec dx = J.colPivHouseholderQr().solve(-r) * static_cast<LR>(set.learning_rate);
            if (!dx.allFinite() || dx.norm() > 1e4L) break;
            double chi;
            try {
                Built t = after(dx, chi);
                compare(dx, t, 0, false);
            } catch (const std::exception&) {
                break;
            }
            c.label("GN step");
            continue;
        }
        double lambda = k == 0 ? set.initial_lambda : from.opt.current_stats_.damping_parameter;
        double cost = rd.squaredNorm();
        bool moved = to.opt.current_stats_.delta_norm != 0, done = false;
        bool idle = false; // a direction nothing constrains
        for (int i = 0; i < Jd.cols(); i++) idle = idle || (Jd.col(i).array() == 0).all();
        for (int trial = 0; trial < 12 && !done; trial++) {
            if (idle && lambda < 5e-15) { // no system to solve: counts as a rejection
                lambda = std::min(lambda * set.lambda_up_factor, set.max_lambda);
                c.label("LM damping too small for the system");
                continue;
            }
            if (hopeless(lambda)) break;
            LMat2 A = H;
            A.diagonal().array() += static_cast<LR>(lambda);
            LVec dx = A.ldlt().solve(rhs) * static_cast<LR>(set.learning_rate);
            if (!dx.allFinite() || dx.norm() > 1e4L) break;
            double chi;
            Built t;
            try {
                t = after(dx, chi);
            } catch (const std::exception&) {
                break;
            }
            if (!std::isfinite(chi) || std::fabs(chi - cost) <= 1e-8 * cost + 1e-12) break; // may go either way
            if (chi < cost) {
                PBT_REQUIRE(moved || trial > 2, "iteration " << k + 1 << " gives up, though the step with damping " << lambda << " (" << trial << " raises) lowers chi2 from " << cost << " to " << chi);
                if (!moved) break;
                double next = std::max(lambda * set.lambda_down_factor, 1e-12);
                PBT_REQUIRE(std::fabs(to.opt.current_stats_.damping_parameter - next) <= 1e-9 * next + 1.1e-12,
                            "iteration " << k + 1 << " ends with damping " << to.opt.current_stats_.damping_parameter << "; accepted with " << lambda << " after " << trial << " raises, it should be " << next);
                compare(dx, t, lambda, trial > 0);
                c.label(trial ? "LM step after a rejection" : "LM step");
                done = true;
            } else {
                lambda = std::min(lambda * set.lambda_up_factor, set.max_lambda);
                c.label("LM rejection");
                if (lambda >= set.max_lambda) break;
            }
        }
        if (!done) break;
    }
    c.nontrivial = compared > 0;
}

// ------------------------------------------------------------------------------------------- P28
namespace
{
    std::vector<double> facts(const fg::Variable& v)
    {
        std::vector<double> w;
        if (auto *p = dynamic_cast<const fg::PoseVariable *>(&v)) {
            append(w, p->pos_W());
            append(w, p->dcm_CW());
        } else if (auto *p = dynamic_cast<const fg::RotationVariable *>(&v)) {
            append(w, p->rotation());
        } else if (auto *p = dynamic_cast<const fg::Pose2DVariable *>(&v)) {
            append(w, p->pos_2d());
            w.push_back(p->theta());
            w.push_back(p->theta() * 180 / 3.14159265358979323846);
        } else if (auto *p = dynamic_cast<const fg::PlaneVariable *>(&v)) {
            append(w, p->unit_vector());
            w.push_back(p->distance_from_origin());
        } else if (auto *p = dynamic_cast<const fg::InverseRangeVariable *>(&v)) {
            append(w, p->origin_pos_W());
            w.push_back(1 / p->inverse_range());
            append(w, p->pos_W());
        } else {
            append(w, v.value());
        }
        return w;
    }
    std::string list(const std::vector<double>& v)
    {
        std::ostringstream o;
        for (double x : v) o << x << " ";
        return o.str();
    }
} // namespace

PROPERTY(P28, "one case: a random graph over all kinds or a scene, possibly changed after finalizing, with everything the library can print caught and "
              "compared with the values, counts, matrices, rank, statistics and covariances that the same objects return; non-trivial: at least one "
              "variable and one factor")
{
    Quiet q;
    GraphSpec g;
    bool smooth = false;
    if (s.coin()) {
        gen::GraphOpt o;
        g = gen::graph(s, o);
    } else {
        smooth = true;
        scene::Opt so;
        so.noise = s.coin() ? 0.1 : 0;
        scene::Scene sc = scene::make(s, so);
        g = scene::perturbed(s, sc, 1e-2);
    }
    if (g.vars.size() > 20) throw Discard{};
    if (c.want_text) show(c.text, g);
    Built b = build(g, false);
    fg::FactorGraph& G = *b.graph;
    {
        bool refused = false;
        Caught t;
        try {
            G.print_structure();
        } catch (const std::exception&) {
            refused = true;
        }
        PBT_REQUIRE(refused, "print_structure() before finalize_structure() printed\n" << t.str());
    }
    G.finalize_structure();
    {
        Caught t;
        G.print_structure();
        std::string x = t.str();
        PBT_REQUIRE(number_after(x, "Variables:") == static_cast<double>(b.vars.size()) && number_after(x, "Factors:") == static_cast<double>(b.facs.size()) && number_after(x, "Residuals:") == G.num_residuals() &&
                        number_after(x, "Values:") == G.num_values(),
                    "a graph of " << b.vars.size() << " variables, " << b.facs.size() << " factors, " << G.num_residuals() << " residuals and " << G.num_values() << " values prints\n" << x);
    }
    // every variable, in order, with its values
    {
        std::string all;
        {
            Caught t;
            G.print_variables();
            all = t.str();
        }
        size_t at = 0;
        for (size_t i = 0; i < b.vars.size(); i++) {
            std::string one;
            {
                Caught t;
                b.vars[i]->print();
                one = t.str();
            }
            auto w = facts(*b.vars[i]);
            std::string tail = one;
            size_t nl = one.find('\n');
            if (nl != std::string::npos) tail = one.substr(nl + 1); // the name and the id come first
            PBT_REQUIRE(in_order(numbers(tail), w, 1e-5), "variable #" << i << " (" << vk_name(g.vars[i].k) << ") holds " << list(w) << "and prints\n" << one);
            size_t f = all.find(one, at);
            PBT_REQUIRE(f != std::string::npos, "print_variables() does not show variable #" << i << " (" << vk_name(g.vars[i].k) << ") in its place");
            at = f + one.size();
            PBT_REQUIRE(!b.vars[i]->name().empty(), "variable #" << i << " has no name");
        }
        for (size_t i = 0; i < b.facs.size(); i++) PBT_REQUIRE(!b.facs[i]->name().empty(), "factor #" << i << " has no name");
    }
    // the Jacobian and the residual
    bool detailed = s.coin(), moved = false;
    if (s.coin()) { // something evaluated before, and perhaps moved since
        Caught t;
        try {
            switch (s.draw(3)) {
            case 0: G.compute_full_jacobian_and_residual(); break;
            case 1: G.compute_sparse_jacobian_matrix(); break;
            default: G.print_jacobian_and_residual(s.coin());
            }
            if (s.coin()) {
                moved = true;
                Vec dx(G.num_values());
                for (Eigen::Index i = 0; i < dx.size(); i++) dx[i] = s.symmetric(0.5);
                G.apply_increment(dx);
            }
        } catch (const std::exception&) {
        }
    }
    std::vector<Obs> before;
    for (auto& v : b.vars) before.push_back(observe(*v));
    Mat J;
    Vec r;
    std::string x;
    bool refused = false;
    try {
        Caught t;
        G.print_jacobian_and_residual(detailed);
        x = t.str();
    } catch (const std::exception&) {
        refused = true;
        c.label("refused");
    }
    try {
        J = G.compute_full_jacobian_matrix();
        r = G.compute_full_residual_vector();
        PBT_REQUIRE(!refused, "print_jacobian_and_residual() throws, though the Jacobian and the residual can be computed");
    } catch (const std::exception&) {
        x.clear();
    }
    if (!x.empty() && J.allFinite() && r.allFinite()) {
        auto dims = numbers(" " + after_label(x, "Jacobian:"));
        PBT_REQUIRE(dims.size() >= 2 && dims[0] == static_cast<double>(J.rows()) && dims[1] == static_cast<double>(J.cols()), "a Jacobian of " << J.rows() << " rows and " << J.cols() << " columns is printed as " << after_label(x, "Jacobian:"));
        PBT_REQUIRE(printed_as(number_after(x, "Residual norm:"), r.norm(), 1e-5), "the residual norm " << r.norm() << " is printed as " << after_label(x, "Residual norm:"));
        std::set<long> zero, shown;
        std::istringstream lines(x);
        for (std::string line; std::getline(lines, line);)
            if (line.find("column") != std::string::npos && line.find("param") != std::string::npos) {
                auto v = numbers(" " + line.substr(line.find("param") + 5));
                if (!v.empty()) shown.insert(static_cast<long>(v[0]));
            }
        for (Eigen::Index i = 0; i < J.cols(); i++) {
            double n = J.col(i).norm();
            if (n < 0.9e-12) zero.insert(i);
            if (n > 0.9e-12 && n < 1.1e-12) {
                zero.insert(i);
                shown.insert(i);
            }
        }
        PBT_REQUIRE(zero == shown, "the columns without effect are not the ones reported:\n" << x << "\nJacobian:\n" << J);
        if (J.size() > 0 && J.cols() <= 48) {
            // (BDCSVD is wrong for long double here: it gave 2.28 for a largest singular value of 2)
            Vec sv = J.cast<LR>().jacobiSvd().singularValues().cast<double>();
            bool clear = true;
            int rank = 0;
            for (Eigen::Index i = 0; i < sv.size(); i++) {
                double rel = sv[0] > 0 ? sv[i] / sv[0] : 0;
                if (rel > 1e-16 && rel < 1e-11) clear = false;
                if (rel >= 1e-11 && sv[i] > 1e-280) rank++;
            }
            if (clear && sv[0] > 1e-200 && sv[0] < 1e200) {
                PBT_REQUIRE(number_after(x, "rank:") == rank, "the rank of the Jacobian is " << rank << ", it is printed as " << after_label(x, "rank:") << "; singular values " << sv.transpose());
                double cond = sv[0] / sv.tail(1)[0];
                if (cond < 1e8) PBT_REQUIRE(printed_as(number_after(x, "Condition estimate:"), cond, 1e-4), "the condition number " << cond << " is printed as " << after_label(x, "Condition estimate:"));
                c.label(rank < J.cols() ? "rank deficient" : "full rank");
            }
        }
        if (detailed) {
            size_t i = x.find("Full Jacobian"), k = x.find("Full Residual");
            PBT_REQUIRE(i != std::string::npos && k != std::string::npos && i < k, "the detailed print has no matrices:\n" << x);
            auto jv = numbers(x.substr(i, k - i)), rv = numbers(x.substr(k));
            std::vector<double> jw, rw;
            append(jw, J);
            append(rw, r);
            bool ok = jv.size() == jw.size() && rv.size() == rw.size();
            for (size_t m = 0; ok && m < jw.size(); m++) ok = printed_as(jv[m], jw[m], 1e-3);
            for (size_t m = 0; ok && m < rw.size(); m++) ok = printed_as(rv[m], rw[m], 1e-3);
            PBT_REQUIRE(ok, "the detailed print is not the Jacobian\n" << J << "\nand the residual " << r.transpose() << ":\n" << x);
        }
    }
    // (CoordinateTransformFactor differentiates by moving its variables, and back through their vectors)
    bool moves = false;
    for (auto& f : g.facs) moves = moves || f.k == F_COORD;
    for (size_t i = 0; !moves && i < b.vars.size(); i++) PBT_REQUIRE(observe(*b.vars[i]) == before[i], "printing changed variable #" << i);
    // the Jacobian self-test, of factors right and wrong (away from kinks, where a second look gives the same)
    if (smooth && !moved && s.coin() && G.num_values() <= 60) {
        std::vector<FacPtr> facs = b.facs;
        double tol = s.pick(std::vector<double>{1e-3, 1e-5, 1e-2, 1});
        fg::FactorGraph T;
        for (auto& v : b.vars) T.add_variable(v);
        bool works = true;
        for (auto& f : facs) {
            auto vs = f->variables();
            std::vector<Mat> B;
            try {
                f->compute_jacobians(B);
                fg::ComputeNumericalJacobians(*f, B);
                f->compute_jacobians(B);
            } catch (const std::exception&) {
                works = false;
                break;
            }
            if (!vs.empty() && B.size() == vs.size() && s.chance(1, 3)) {
                auto w = std::make_shared<WrongFactor>(f);
                w->block = s.draw(static_cast<uint32_t>(vs.size()));
                Mat& M = B[w->block];
                w->kind = vs[w->block]->is_constant() ? WrongFactor::CONSTANT_BLOCK : static_cast<WrongFactor::Kind>(s.draw(WrongFactor::NUM));
                if (M.size() == 0 && !vs[w->block]->is_constant()) w->kind = WrongFactor::EXTRA_ROW;
                if (w->kind == WrongFactor::CONSTANT_BLOCK && !vs[w->block]->is_constant()) w->kind = WrongFactor::SCALED;
                w->r = static_cast<int>(M.rows() ? s.draw(static_cast<uint32_t>(M.rows())) : 0);
                w->col = static_cast<int>(vs[w->block]->is_constant() ? vs[w->block]->size() : M.cols() ? s.draw(static_cast<uint32_t>(M.cols())) : 0);
                w->delta = s.symmetric(10);
                f = w;
                c.label("self-test of a wrong factor");
            }
            T.add_factor(f);
        }
        if (works) {
            T.finalize_structure();
            bool verbose = s.chance(2, 3), verdict = false;
            std::string said;
            {
                Caught t;
                try {
                    verdict = T.detailed_factor_test(tol, verbose);
                } catch (const std::exception&) {
                    works = false;
                }
                said = t.str();
            }
            PBT_REQUIRE(works, "the self-test throws, though every Jacobian can be computed");
            check_self_test_report(said, verdict, facs, tol, verbose);
        }
    }
    // the optimizer's summary and the covariances
    fg::SparseOptimizer opt;
    fg::OptimizerSettings set;
    set.verbose = s.coin();
    set.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
    set.max_num_iterations = s.draw(5);
    bool threw = false, ticking = s.coin();
    std::string said, complaint;
    {
        Caught t;
        try {
            if (s.chance(1, 3)) { // an earlier run
                opt.setup(b.graph, set);
                opt.optimize();
                t.text.str("");
                t.errors.str("");
            }
            opt.setup(b.graph, set);
            std::unique_ptr<FakeClock> clock(ticking ? new FakeClock : nullptr);
            opt.optimize();
        } catch (const std::exception&) {
            threw = true;
        }
        said = t.str();
        complaint = t.errors.str();
    }
    auto& st = opt.current_stats_;
    if (set.verbose && !threw && set.method == fg::OptimizerMethod::GaussNewton && (st.status == fg::OptimizerStatus::SINGULAR_HESSIAN || st.status == fg::OptimizerStatus::ILL_CONDITIONED)) {
        // the reason for giving up
        bool singular = st.status == fg::OptimizerStatus::SINGULAR_HESSIAN;
        size_t a = complaint.rfind("singular"), b = complaint.rfind("ill-conditioned");
        PBT_REQUIRE((singular ? a : b) != std::string::npos && (singular ? b : a) == std::string::npos, "a run ends with status " << static_cast<int>(st.status) << " and says\n" << complaint);
        double v = singular ? number_after(complaint.substr(a), "min diagonal =") : number_after(complaint.substr(b), "condition estimate =");
        PBT_REQUIRE(singular ? v >= 0 && v < 1.0001e-14 : v > 0.9999e12, "a run ends with status " << static_cast<int>(st.status) << " and says\n" << complaint);
        c.label("reason for giving up");
    }
    if (set.verbose && !threw && std::isfinite(st.chi2) && G.num_values() > 0) {
        size_t i = said.rfind("Total iterations");
        PBT_REQUIRE(i != std::string::npos, "a verbose run has no summary:\n" << said);
        std::string sum = said.substr(i);
        PBT_REQUIRE(number_after(sum, "Total iterations:") == st.current_iteration, "the summary of a run of " << st.current_iteration << " iterations is\n" << sum);
        PBT_REQUIRE(printed_as(number_after(sum, "Final residual norm:"), st.residual_norm, 1e-5) && printed_as(number_after(sum, "Final chi\u00b2:"), st.chi2, 1e-5),
                    "the summary of a run that ends with residual norm " << st.residual_norm << " and chi2 " << st.chi2 << " is\n" << sum);
        PBT_REQUIRE(printed_as(number_after(said, "Initial residual norm:"), opt.initial_stats_.residual_norm, 1e-5), "the initial residual norm " << opt.initial_stats_.residual_norm << " is printed as " << after_label(said, "Initial residual norm:"));
        PBT_REQUIRE(printed_as(number_after(sum, "Final step norm:"), st.delta_norm, 1e-5), "the summary of a run whose last step has norm " << st.delta_norm << " is\n" << sum);
        double gain = opt.initial_stats_.residual_norm - st.residual_norm;
        PBT_REQUIRE(std::fabs(number_after(sum, "Residual improvement:") - gain) <= 1e-5 * std::fabs(gain) + 1e-12 * opt.initial_stats_.residual_norm, "the summary of a run from residual norm " << opt.initial_stats_.residual_norm << " to " << st.residual_norm << " is\n" << sum);
        if (opt.initial_stats_.residual_norm > 0)
            PBT_REQUIRE(std::fabs(number_after(sum, "Relative improvement:") - gain / opt.initial_stats_.residual_norm * 100) <= 1e-5 * std::fabs(gain / opt.initial_stats_.residual_norm * 100) + 1e-10,
                        "the summary of a run from residual norm " << opt.initial_stats_.residual_norm << " to " << st.residual_norm << " is\n" << sum);
        PBT_REQUIRE(number_after(sum, "Status:") == static_cast<int>(st.status), "the summary of a run that ends with status " << static_cast<int>(st.status) << " is\n" << sum);
        PBT_REQUIRE((after_label(sum, "Optimization ").find("SUCCESS") != std::string::npos) == st.valid, "the summary of a run whose statistics are " << (st.valid ? "" : "not ") << "valid is\n" << sum);
        // no part of a run takes longer than the run
        double total = number_after(sum, "Total time:") * 1e6, parts = 0;
        for (const char *part : {"residual:", "jacobian:", "hessian:", "solve:", "update_vars:"}) {
            // (a step that is refused, or fails, leaves the stopwatch of its part running until the times are printed)
            bool left_running = st.status == fg::OptimizerStatus::FAILED || (part[0] != 'r' && part[0] != 'j' && part[0] != 'h' && (set.method == fg::OptimizerMethod::LevenbergMarquardt || !st.valid));
            if (left_running) continue;
            double us = number_after(sum, std::string("\n  ") + part);
            PBT_REQUIRE(us >= 0 && us <= total * 1.0001 + 5, "a run of " << total << " us spends " << us << " us on " << part << "\n" << sum);
            parts += us;
            // a clock that moves on whenever it is read leaves no part without time
            if (ticking && st.current_iteration > 0) PBT_REQUIRE(us >= 999, "a run of " << st.current_iteration << " iterations spends " << us << " us on " << part << "\n" << sum);
        }
        PBT_REQUIRE(parts <= total * 1.0001 + 20, "the parts of a run of " << total << " us take " << parts << " us\n" << sum);
        // every iteration starts where the one before has ended
        double norm = opt.initial_stats_.residual_norm;
        int n = 0;
        bool good = true;
        for (size_t k = said.find("Summary:"); k != std::string::npos && k < i && good; k = said.find("Summary:", k + 1)) {
            std::string block = said.substr(k, i - k);
            if (block.find("Step norm") == std::string::npos) break;
            n++;
            size_t line = said.rfind('\n', k);
            std::string head = said.substr(line == std::string::npos ? 0 : line, k - line);
            PBT_REQUIRE(number_after(head, "Iteration") == n, "the summary of iteration " << n << " is called" << head);
            double from = number_after(block, "Initial residual norm:"), to = number_after(block, "Final residual norm:");
            good = std::isfinite(from) && std::isfinite(to);
            PBT_REQUIRE(!good || printed_as(from, norm, 1e-5), "iteration " << n << " starts with residual norm " << norm << " and says\n" << block);
            PBT_REQUIRE(!good || std::fabs(number_after(block, "chi\u00b2:") - to * to) <= 1e-4 * to * to, "iteration " << n << " says\n" << block);
            auto dims = numbers(" " + after_label(block, "  J:"));
            double cells = static_cast<double>(G.num_residuals()) * G.num_values(), stored = static_cast<double>(G.sparse_jacobian().nonZeros());
            PBT_REQUIRE(dims.size() >= 4 && dims[0] == G.num_residuals() && dims[1] == G.num_values() && dims[2] == stored && (cells == 0 || printed_as(dims[3], stored / cells * 100, 1e-4)), "iteration " << n << " of a graph with " << G.num_residuals() << " residuals and " << G.num_values() << " values says\n" << block);
            if (set.method == fg::OptimizerMethod::LevenbergMarquardt && n == st.current_iteration)
                PBT_REQUIRE(printed_as(number_after(block, "(\u03bb):"), st.damping_parameter, 1e-5), "a run that ends with damping " << st.damping_parameter << " says\n" << block);
            if (set.method == fg::OptimizerMethod::LevenbergMarquardt) {
                // every attempt has its line
                size_t start = said.rfind("Summary:", k - 1);
                std::string lines = said.substr(start == std::string::npos || k == 0 ? 0 : start, k - (start == std::string::npos || k == 0 ? 0 : start));
                int tries = 0, taken = 0;
                for (const char *w : {"ncreasing lambda to", "ecreasing lambda to"})
                    for (size_t a = lines.find(w); a != std::string::npos; a = lines.find(w, a + 1)) (w[0] == 'n' ? tries : taken)++;
                tries += taken;
                PBT_REQUIRE(number_after(block, "LM attempts:") == tries && taken <= 1 && (after_label(block, "Step accepted:").find("YES") != std::string::npos) == (taken == 1),
                            "an iteration with " << tries << " attempts, " << taken << " of them accepted, says\n" << block);
                size_t none = lines.find("No acceptable step found after");
                PBT_REQUIRE((none != std::string::npos) == (taken == 0) && (none == std::string::npos || number_after(lines, "step found after") == tries), "an iteration with " << tries << " attempts, " << taken << " of them accepted, says\n" << lines);
            }
            norm = to;
        }
        PBT_REQUIRE(!good || n == st.current_iteration, n << " iterations are summarized, there were " << st.current_iteration);
        PBT_REQUIRE(!good || n == 0 || st.status == fg::OptimizerStatus::FAILED || printed_as(norm, st.residual_norm, 1e-5), "the last iteration ends with residual norm " << norm << ", the run with " << st.residual_norm);
        c.label(n > 1 ? "verbose run of several iterations" : "verbose run");
    }
    if (!threw && G.num_values() > 0) {
        std::string cov;
        bool printed = true;
        {
            Caught t;
            try {
                opt.print_all_covariances();
            } catch (const std::exception&) {
                printed = false;
            }
            cov = t.str();
        }
        size_t at = 0;
        for (size_t i = 0; printed && i < b.vars.size(); i++) {
            size_t f = cov.find("variable: " + b.vars[i]->name() + "\n", at);
            PBT_REQUIRE(f != std::string::npos, "print_all_covariances() does not show variable #" << i << " in its place:\n" << cov);
            size_t start = cov.find('\n', f) + 1, e = cov.find("variable: ", start);
            std::string body = cov.substr(start, e == std::string::npos ? std::string::npos : e - start);
            at = start;
            bool ok = false;
            Mat C = opt.estimate_covariance(b.vars[i].get(), ok);
            bool word = body.find("constant") != std::string::npos || body.find("invalid") != std::string::npos;
            PBT_REQUIRE(word == !ok, "the covariance of variable #" << i << " is " << (ok ? "valid" : "not valid") << ", and printed as\n" << body);
            PBT_REQUIRE((body.find("constant") != std::string::npos) == b.vars[i]->is_constant(), "variable #" << i << " is " << (b.vars[i]->is_constant() ? "" : "not ") << "constant, and its covariance is printed as\n" << body);
            if (ok) {
                std::vector<double> w;
                append(w, C);
                auto v = numbers(body);
                bool eq = v.size() == w.size();
                for (size_t m = 0; eq && m < w.size(); m++) eq = printed_as(v[m], w[m], 1e-4);
                PBT_REQUIRE(eq, "the covariance of variable #" << i << " is\n" << C << "\nand printed as\n" << body);
                c.label("covariance printed");
            }
        }
    }
    c.nontrivial = !b.vars.empty() && !b.facs.empty();
}
