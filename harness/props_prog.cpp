// P25: random programs against the whole C++ API.  Under ASan/UBSan (asan flavour) the oracle is the sanitizers;
// in the rel flavour every program runs twice with different fill patterns in fresh heap and stack memory, and
// everything it observed must be the same: a read of uninitialised memory that matters shows as a difference.
#include "giant.hpp"
#include "session.hpp"
#include <array>
#include <atomic>
#include <csignal>
#include <iostream>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PROG_ASAN 1
#endif
#endif

#ifndef PROG_ASAN
#include <cerrno>
#include <malloc.h>
static std::atomic<int> fill_byte{-1};
extern "C" {
void *__libc_malloc(size_t);
void *__libc_memalign(size_t, size_t);
void *malloc(size_t n)
{
    void *p = __libc_malloc(n);
    int f = fill_byte.load(std::memory_order_relaxed);
    if (p && f >= 0) std::memset(p, f, malloc_usable_size(p));
    return p;
}
void *aligned_alloc(size_t a, size_t n)
{
    void *p = __libc_memalign(a, n);
    int f = fill_byte.load(std::memory_order_relaxed);
    if (p && f >= 0) std::memset(p, f, malloc_usable_size(p));
    return p;
}
}
__attribute__((noinline)) static void paint_stack(int f)
{
    volatile char big[96 * 1024];
    for (size_t i = 0; i < sizeof big; i++) big[i] = static_cast<char>(f);
    asm volatile("" ::"r"(big) : "memory");
}
#endif

namespace
{
    struct Null : std::streambuf
    {
        size_t n = 0;
        int overflow(int c) override
        {
            n++;
            return c == EOF ? 0 : c;
        }
        std::streamsize xsputn(const char *p, std::streamsize k) override
        {
            for (std::streamsize i = 0; i < k; i++) n += static_cast<unsigned char>(p[i]) != 0;
            return k;
        }
    };
    struct Capture : std::streambuf // what was printed, without its timings
    {
        std::string s;
        int overflow(int c) override
        {
            if (c != EOF) s.push_back(static_cast<char>(c));
            return c == EOF ? 0 : c;
        }
        std::streamsize xsputn(const char *p, std::streamsize k) override
        {
            s.append(p, static_cast<size_t>(k));
            return k;
        }
    };

    // A user's own factor: always well-shaped, but free to throw or to return anything
    class UserFactor : public fg::Factor
    {
    public:
        std::vector<VarPtr> vs;
        int rows, calls_left, what;
        UserFactor(int id, std::vector<VarPtr> v, int r, int c, int w)
            : vs(std::move(v))
            , rows(r)
            , calls_left(c)
            , what(w)
        {
            id_ = id;
        }
        int residual_size() const override { return rows; }
        double odd() const
        {
            if (what == 0) return 1;
            int& left = const_cast<int&>(calls_left);
            if (left > 0) {
                left--;
                return 1;
            }
            if (what == 1) throw std::runtime_error("user factor");
            if (what == 2) return std::numeric_limits<double>::quiet_NaN();
            if (what == 3) return std::numeric_limits<double>::infinity();
            return 1e200;
        }
        Vec compute_residual() const override
        {
            Vec r = Vec::Constant(rows, 0.25 * odd());
            for (auto& v : vs)
                for (int i = 0; i < rows; i++) r[i] += (i + 1) * v->value()[i % v->value().size()];
            return r;
        }
        void compute_residual(Eigen::Ref<Vec> out) const override { out = compute_residual(); }
        void compute_jacobians(std::vector<Mat>& js) const override
        {
            double o = odd();
            js.resize(vs.size());
            for (size_t k = 0; k < vs.size(); k++) {
                if (vs[k]->is_constant()) {
                    js[k] = Mat();
                    continue;
                }
                js[k] = Mat::Zero(rows, vs[k]->size());
                for (int i = 0; i < rows; i++) js[k](i, i % vs[k]->size()) = (i + 1) * o;
            }
        }
        std::vector<fg::Variable *> variables() override
        {
            std::vector<fg::Variable *> r;
            for (auto& v : vs) r.push_back(v.get());
            return r;
        }
        fg::FactorType::FactorTypeEnum type() const override { return fg::FactorType::custom; }
    };

    struct Program
    {
        Src& s;
        std::ostream& t;
        bool show_text;
        std::vector<VarSpec> specs;
        std::vector<VarPtr> vars;
        std::vector<FacSpec> fspecs;
        std::vector<FacPtr> facs;
        std::vector<std::shared_ptr<fg::FactorGraph>> graphs;
        std::vector<std::unique_ptr<fg::SparseOptimizer>> opts;
        std::vector<Vec> keep;
        std::set<int> ids, fids;
        fg::HuberKernel kernel{0.7};
        uint64_t trace = 0;
        int threw = 0, did = 0;
        std::set<std::string> ops;
        double mag = 1;

        Program(Src& src, std::ostream& text, bool st)
            : s(src)
            , t(text)
            , show_text(st)
        {
        }
        void note(uint64_t v) { trace = pbt::mix(trace ^ v); }
        void note(double d)
        {
            uint64_t b = 0;
            if (std::isnan(d))
                b = 7; // the sign of a NaN is nobody's business
            else
                std::memcpy(&b, &d, 8);
            note(b);
        }
        void note(const std::string& x) { note(static_cast<uint64_t>(std::hash<std::string>{}(x))); }
        template <typename D>
        void note_m(const Eigen::MatrixBase<D>& m)
        {
            note(static_cast<uint64_t>(m.rows()) * 1000003u + static_cast<uint64_t>(m.cols()));
            for (Eigen::Index j = 0; j < m.cols(); j++)
                for (Eigen::Index i = 0; i < m.rows(); i++) note(static_cast<double>(m(i, j)));
        }
        void note_s(const Eigen::SparseMatrix<double>& m)
        {
            note(static_cast<uint64_t>(m.rows()) * 1000003u + static_cast<uint64_t>(m.cols()));
            for (int k = 0; k < m.outerSize(); k++)
                for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) {
                    PBT_REQUIRE(it.row() >= 0 && it.row() < m.rows(), "the sparse Jacobian has an entry in row " << it.row() << " of " << m.rows());
                    note(static_cast<uint64_t>(it.row() * 77 + it.col()));
                    note(it.value());
                }
        }
        void note_v(const fg::Variable& v)
        {
            Obs o = observe(v);
            for (double d : o.num) note(d);
            note(o.txt);
        }
        size_t any(size_t n) { return s.draw(static_cast<uint32_t>(n)); }

        Vec rvec(int n)
        {
            Vec x(n);
            double m = s.pick(std::vector<double>{0.1, 1, 1e-4, 5, 100, 1e-12, 1e6});
            for (int i = 0; i < n; i++) x[i] = s.symmetric(m);
            return x;
        }

        size_t new_var(int kind, int n)
        {
            VarSpec v = gen::var(s, static_cast<VK>(kind), n);
            if (s.chance(1, 12)) { // an id that is taken
                v.id = vars.empty() ? 0 : vars[any(vars.size())]->id();
            } else {
                v.id = gen::fresh_id(s, ids);
            }
            v.constant = s.chance(1, 5);
            specs.push_back(v);
            vars.push_back(make_var(v));
            if (show_text) {
                t << "v" << vars.size() - 1 << "=";
                show(t, v);
                t << "; ";
            }
            return vars.size() - 1;
        }
        size_t pick_var(const gen::Role& r)
        {
            std::vector<size_t> c;
            for (size_t i = 0; i < vars.size(); i++)
                if (gen::fits(r, specs[i])) c.push_back(i);
            if (c.empty() || (vars.size() < 10 && s.chance(1, 4))) return new_var(r.k, r.n);
            return c[any(c.size())];
        }
        size_t new_factor()
        {
            if (s.chance(1, 8)) {
                std::vector<VarPtr> vs;
                int n = static_cast<int>(s.draw(3));
                for (int i = 0; i < n && !vars.empty(); i++) vs.push_back(vars[any(vars.size())]);
                int rows = s.range(0, 4), what = static_cast<int>(s.draw(5)), left = static_cast<int>(s.draw(12));
                facs.push_back(std::make_shared<UserFactor>(gen::fresh_id(s, fids), vs, rows, left, what));
                fspecs.push_back(FacSpec{});
                if (show_text) t << "f" << facs.size() - 1 << "=user(" << vs.size() << " vars, " << rows << " rows, kind " << what << " after " << left << "); ";
                return facs.size() - 1;
            }
            gen::Shape h = gen::shape(s, static_cast<FK>(s.draw(NUM_FK)), false);
            for (auto& r : h.roles) h.f.v.push_back(static_cast<int>(pick_var(r)));
            h.f.id = s.chance(1, 12) && !facs.empty() ? facs[any(facs.size())]->id() : gen::fresh_id(s, fids);
            gen::measure(s, h.f, specs);
            facs.push_back(make_factor(h.f, vars));
            fspecs.push_back(h.f);
            if (show_text) {
                t << "f" << facs.size() - 1 << "=";
                show(t, h.f);
                t << "; ";
            }
            return facs.size() - 1;
        }
        fg::FactorGraph& graph(size_t& gi)
        {
            gi = any(graphs.size());
            return *graphs[gi];
        }
        // Give a graph as many residuals as free values
        void top_up(size_t gi)
        {
            auto& g = *graphs[gi];
            std::vector<VarPtr> in(g.get_all_variables().begin(), g.get_all_variables().end());
            for (auto& v : in) {
                if (!v->is_constant() && s.chance(3, 4)) {
                    FacPtr f = std::make_shared<fg::GenericPriorFactor>(gen::fresh_id(s, fids), v.get(), v->value() + 0.01 * Vec::Ones(v->value().size()), gen::sigma(s));
                    facs.push_back(f);
                    fspecs.push_back(FacSpec{});
                    g.add_factor(f);
                }
            }
        }
        fg::OptimizerSettings settings()
        {
            fg::OptimizerSettings o;
            o.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
            o.max_num_iterations = static_cast<size_t>(s.pick(std::vector<int>{3, 1, 0, 2, 5, 12}));
            o.step_tolerance = s.pick(std::vector<double>{1e-6, 0, 1e-9, 1e-2, -1});
            o.residual_tolerance = s.pick(std::vector<double>{1e-6, 0, 1e-9, 1e-2, -1});
            if (s.coin()) {
                o.initial_lambda = s.pick(std::vector<double>{1e-3, 0, 1e-8, 1, 1e6});
                o.max_lambda = s.pick(std::vector<double>{1e5, 1e-4, 1, 1e12});
                o.lambda_up_factor = s.pick(std::vector<double>{10, 2, 1, 100});
                o.lambda_down_factor = s.pick(std::vector<double>{0.1, 0.5, 1, 0});
            }
            o.learning_rate = s.pick(std::vector<double>{1, 1, 0.5, 1.5, 0, -1});
            o.verbose = s.chance(1, 3);
            o.check_rank_deficiency = s.chance(1, 4);
            return o;
        }
        void stats(const fg::OptimizerStats& x)
        {
            note(static_cast<uint64_t>(x.valid));
            note(static_cast<uint64_t>(x.status));
            note(x.chi2), note(x.delta_norm), note(x.residual_norm), note(x.damping_parameter);
            note(static_cast<uint64_t>(x.current_iteration));
            note(static_cast<uint64_t>(x.rank));
        }
        void evaluate_all()
        {
            for (auto& g : graphs) {
                note(static_cast<uint64_t>(g->num_variables() * 31 + g->num_values() * 7 + g->num_residuals()));
            }
            for (auto& v : vars) note_v(*v);
        }

        void variable_op()
        {
            if (vars.empty()) return;
            size_t i = any(vars.size());
            auto& v = vars[i];
            int op = static_cast<int>(s.draw(9));
            if (show_text) t << "v" << i << ".op" << op << "; ";
            switch (op) {
            case 0: v->apply_increment(rvec(s.chance(1, 6) ? s.range(0, 8) : v->size())); break;
            case 1: {
                Vec x = rvec(s.chance(1, 6) ? s.range(0, 8) : v->size());
                if (specs[i].k == PLANE && x.size() >= 3 && x.head<3>().norm() < 1e-9) x[0] = 1; // a plane has a normal
                v->set_value_from_vector(x);
                break;
            }
            case 2: v->set_constant(s.coin()); break;
            case 3: {
                VarPtr c = v->clone();
                note_v(*c);
                c->apply_increment(rvec(c->size()));
                if (s.coin()) { // the clone takes the original's place in what is built from here on
                    keep_alive.push_back(v);
                    vars[i] = c;
                }
                break;
            }
            case 4: v->print(); break;
            case 5: note(v->name()), note(static_cast<uint64_t>(v->id())), note(static_cast<uint64_t>(v->type())); break;
            case 6: v->set_value_from_vector(Vec(v->value())); break;
            case 7: note_v(*v); break;
            default: kind_op(specs[i].k, v);
            }
        }
        std::vector<VarPtr> keep_alive;
        void kind_op(VK k, const VarPtr& v)
        {
            switch (k) {
            case POSE: {
                auto& p = *as<fg::PoseVariable>(v);
                switch (s.draw(4)) {
                case 0: p.set_pos_W(e3(gen::coords(s, 3))); break;
                case 1: p.set_dcm_CW(dcm_of(gen::rotvec(s))); break;
                case 2: p.set_pose_vector(Eigen::Matrix<double, 6, 1>(rvec(6))); break;
                default: note_m(p.dcm_CW()), note_m(p.rot_CW()), note_m(p.pos_W());
                }
                break;
            }
            case LM: as<fg::LandmarkVariable>(v)->set_pos_W(e3(gen::coords(s, 3))); break;
            case ROT: note_m(as<fg::RotationVariable>(v)->dcm_AB()); break;
            case INV: {
                auto& p = *as<fg::InverseRangeVariable>(v);
                if (s.coin()) p.minimum_inverse_range_ = s.logu(1e-9, 1e-2);
                if (s.coin()) p.maximum_inverse_range_ = s.logu(1, 1e6);
                p.clip_inverse_range();
                note_m(p.pos_W());
                break;
            }
            case PLANE: note(as<fg::PlaneVariable>(v)->distance_from_point(e3(gen::coords(s, 3)))); break;
            case POSE2: {
                auto& p = *as<fg::Pose2DVariable>(v);
                if (s.coin()) {
                    p.set_theta(gen::angle(s));
                } else {
                    auto x = gen::coords(s, 2);
                    p.set_pos_2d(Eigen::Vector2d(x[0], x[1]));
                }
                note_m(p.dcm_2d());
                break;
            }
            default: break;
            }
        }
        void factor_op()
        {
            if (facs.empty()) return;
            size_t i = any(facs.size());
            auto& f = facs[i];
            int op = static_cast<int>(s.draw(7));
            if (show_text) t << "f" << i << ".op" << op << "; ";
            switch (op) {
            case 0: note_m(f->compute_residual()); break;
            case 1: {
                int n = f->residual_size();
                Vec r = Vec::Constant(n + 4, 3.5);
                f->compute_residual(r.segment(s.range(0, 4), n));
                note_m(r);
                break;
            }
            case 2: {
                int jr = s.range(0, 3), jc = s.range(0, 8);
                std::vector<Mat> js(s.draw(7), Mat::Constant(jr, jc, 4.5));
                f->compute_jacobians(js);
                for (auto& j : js) note_m(j);
                if (s.coin() && f->residual_size() > 0) {
                    kernel.apply_to_jacobians(f->compute_residual(), js);
                    for (auto& j : js) note_m(j);
                }
                break;
            }
            case 3: note(f->name()), note(static_cast<uint64_t>(f->id())), note(static_cast<uint64_t>(f->type())); break;
            case 4:
                for (auto *v : f->variables()) note_v(*v);
                break;
            case 5: {
                std::vector<Mat> js(s.draw(4));
                fg::ComputeNumericalJacobians(*f, js, s.pick(std::vector<double>{1e-6, 1e-3, 1e-9}));
                for (auto& j : js) note_m(j);
                break;
            }
            default: {
                f->SetKernel(s.coin() ? &kernel : nullptr);
                note_m(kernel.apply_to_residual(f->compute_residual()));
            }
            }
        }
        void graph_op()
        {
            size_t gi;
            fg::FactorGraph& g = graph(gi);
            int op = static_cast<int>(s.draw(27));
            if (show_text) t << "g" << gi << ".op" << op << "; ";
            switch (op) {
            case 0:
            case 1:
            case 2: {
                size_t v = vars.empty() || (vars.size() < 10 && s.chance(1, 3)) ? new_var(static_cast<int>(s.draw(NUM_VK)), 0) : any(vars.size());
                g.add_variable(vars[v]);
                break;
            }
            case 3:
            case 4:
            case 5: {
                size_t f = facs.empty() || s.coin() ? new_factor() : any(facs.size());
                if (s.chance(5, 6))
                    for (auto *v : facs[f]->variables())
                        for (auto& p : vars)
                            if (p.get() == v && !g.get_variable(v->id())) g.add_variable(p);
                g.add_factor(facs[f]);
                break;
            }
            case 6: g.finalize_structure(); break;
            case 7:
            case 8:
                top_up(gi);
                g.finalize_structure();
                break;
            case 9: note_m(g.compute_full_residual_vector()); break;
            case 10: {
                Vec r = rvec(s.range(0, 9));
                g.compute_full_residual_vector(r);
                note_m(r);
                break;
            }
            case 11: note_m(g.compute_full_jacobian_matrix()); break;
            case 12: note_s(g.compute_sparse_jacobian_matrix()); break;
            case 13: g.compute_full_jacobian_and_residual(); break;
            case 14: note_m(g.jacobian()); break;
            case 15: note_s(g.sparse_jacobian()); break;
            case 16: note_m(g.residual()); break;
            case 17: g.print_structure(), g.print_variables(); break;
            case 18: g.print_jacobian_and_residual(s.coin()); break;
            case 19: note(static_cast<uint64_t>(g.detailed_factor_test(s.pick(std::vector<double>{1e-3, 1e-9, 0, 1e3}), s.coin()))); break;
            case 20: {
                Vec x = g.get_variable_vector();
                note_m(x);
                keep.push_back(x);
                break;
            }
            case 21:
                if (!keep.empty()) g.set_variable_values_from_vector(keep[any(keep.size())]);
                break;
            case 22: g.apply_increment(rvec(s.chance(1, 5) ? s.range(0, 9) : g.num_values())); break;
            case 23: {
                int id = s.coin() && !vars.empty() ? vars[any(vars.size())]->id() : s.range(-3, 50);
                bool ok = false;
                auto p = g.variable_placement(id, ok);
                if (ok) note(static_cast<uint64_t>(p.index * 100 + p.dim));
                bool ok2 = false;
                auto q = g.factor_placement(static_cast<int>(s.draw(12)), ok2);
                if (ok2) note(static_cast<uint64_t>(q.residual_index * 100 + q.residual_dim));
                if (auto *v = g.get_variable(id)) note_v(*v);
                break;
            }
            case 24: {
                note(static_cast<uint64_t>(g.get_variables_of_type<fg::PoseVariable>().size() * 11 + g.get_variables_of_type<fg::LandmarkVariable>().size()));
                note(static_cast<uint64_t>(g.get_all_factors().size() * 13 + g.get_all_variables().size()));
                note(static_cast<uint64_t>(g.jacobian_valid() * 2 + g.residual_valid()));
                break;
            }
            case 25: { // copy, copy-assign or replace
                switch (s.draw(3)) {
                case 0: graphs.push_back(std::make_shared<fg::FactorGraph>(g)); break;
                case 1: *graphs[any(graphs.size())] = g; break;
                default: graphs[gi] = std::make_shared<fg::FactorGraph>();
                }
                if (graphs.size() > 4) graphs.erase(graphs.begin());
                break;
            }
            default: g.set_verbose(s.coin());
            }
        }
        void optimizer_op()
        {
            size_t i = any(opts.size());
            auto& o = *opts[i];
            int op = static_cast<int>(s.draw(10));
            if (show_text) t << "o" << i << ".op" << op << "; ";
            switch (op) {
            case 0:
            case 1: {
                size_t gi;
                graph(gi);
                o.setup(graphs[gi], settings());
                break;
            }
            case 2:
            case 3:
            case 4: {
                o.optimize();
                stats(o.initial_stats_);
                stats(o.current_stats_);
                break;
            }
            case 5:
            case 6:
                o.prepare_to_estimate_covariances();
                break;
            case 7: {
                bool ok = false;
                const fg::Variable *v = vars.empty() || s.chance(1, 10) ? nullptr : vars[any(vars.size())].get();
                Mat P = o.estimate_covariance(v, ok);
                note(static_cast<uint64_t>(ok));
                if (ok) note_m(P);
                break;
            }
            case 8: o.print_all_covariances(); break;
            default: note(o.settings().learning_rate), note(static_cast<uint64_t>(o.settings().verbose));
            }
        }
        void math_op()
        {
            if (show_text) t << "math; ";
            Eigen::Vector3d w = rvec(3);
            Eigen::Matrix3d Rm = fg::ExpMapSO3(w);
            note_m(Rm), note_m(fg::LogMapSO3(Rm)), note_m(fg::compute_inverse_right_jacobian_so3(w));
            note_m(fg::skew_symmetric(w)), note_m(fg::unskew(fg::skew_symmetric(w)));
        }
        // A program over thousands of variables
        void large(Ctx& c, int most)
        {
            gen::GraphOpt o;
            o.additive = true;
            o.max_facs = 6;
            GraphSpec g;
            if (s.chance(1, 5)) {
                g = giant::wide(s, 150);
            } else {
                GraphSpec one;
                if (s.coin()) {
                    scene::Opt so;
                    so.max_facs = 4;
                    one = scene::make(s, so).g;
                } else {
                    one = gen::graph(s, o);
                }
                if (one.facs.empty() || one.vars.empty()) throw pbt::Discard{};
                g = giant::tile(s, one, most).g;
            }
            Built b = build(g);
            graphs.push_back(b.graph);
            opts.push_back(std::make_unique<fg::SparseOptimizer>());
            std::mt19937_64 rng(s.draw(1u << 30));
            auto noise = [&](int n) {
                Vec x(n);
                for (int i = 0; i < n; i++) x[i] = 0.02 * (static_cast<double>(rng() >> 11) / 9007199254740992.0 - 0.5);
                return x;
            };
            if (show_text) t << "a graph of " << g.vars.size() << " variables and " << g.facs.size() << " factors; ";
            c.label("a large graph");
            auto& f = *b.graph;
            auto& p = *opts.back();
            f.finalize_structure();
            double cells = static_cast<double>(f.num_values()) * f.num_residuals();
            for (int n = s.range(2, 8); n > 0; n--) {
                int op = static_cast<int>(s.draw(11));
                if (show_text) t << "large.op" << op << "; ";
                did++;
                ops.insert(op < 5 ? "graph" : "optimizer");
                try {
                    switch (op) {
                    case 0: note_m(f.compute_full_residual_vector()); break;
                    case 1: note_s(f.compute_sparse_jacobian_matrix()); break;
                    case 2:
                        if (cells <= 4e6) note_m(f.compute_full_jacobian_matrix());
                        break;
                    case 3: f.apply_increment(noise(f.num_values())); break;
                    case 4: {
                        Vec x = f.get_variable_vector();
                        note_m(x);
                        f.set_variable_values_from_vector(x + noise(static_cast<int>(x.size())));
                        break;
                    }
                    case 5:
                        for (int k = s.range(1, 5); k > 0; k--) b.vars[any(b.vars.size())]->set_constant(s.coin());
                        f.finalize_structure();
                        break;
                    case 6: f.print_structure(), f.print_variables(); break;
                    case 7:
                        if (cells <= 2e5) f.print_jacobian_and_residual(s.coin());
                        note(static_cast<uint64_t>(f.detailed_factor_test(1e-3, s.coin())));
                        break;
                    default: {
                        fg::OptimizerSettings st = settings();
                        st.max_num_iterations = 1 + s.draw(2);
                        p.setup(b.graph, st);
                        p.optimize();
                        stats(p.initial_stats_);
                        stats(p.current_stats_);
                        p.prepare_to_estimate_covariances();
                        for (int k = 0; k < 4; k++) {
                            bool ok = false;
                            Mat P = p.estimate_covariance(b.vars[any(b.vars.size())].get(), ok);
                            note(static_cast<uint64_t>(ok));
                            if (ok) note_m(P);
                        }
                        if (cells <= 1e6) p.print_all_covariances();
                    }
                    }
                } catch (const pbt::Fail&) {
                    throw;
                } catch (const std::bad_alloc&) {
                    pbt::fail("a valid call ran out of memory");
                } catch (const std::exception& e) {
                    threw++;
                    note(std::string(e.what()));
                }
            }
            for (auto& v : b.vars) note_v(*v);
        }
        void run(int n)
        {
            graphs.push_back(std::make_shared<fg::FactorGraph>());
            for (int q = 1 + static_cast<int>(s.draw(2)); q > 0; q--) opts.push_back(std::make_unique<fg::SparseOptimizer>());
            for (int k = 0; k < n; k++) {
                static const char *names[] = {"graph", "optimizer", "variable", "factor", "math"};
                static const std::vector<int> w{0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4};
                int what = s.pick(w);
                ops.insert(names[what]);
                did++;
                try {
                    switch (what) {
                    case 0: graph_op(); break;
                    case 1: optimizer_op(); break;
                    case 2: variable_op(); break;
                    case 3: factor_op(); break;
                    default: math_op();
                    }
                } catch (const pbt::Fail&) {
                    throw;
                } catch (const pbt::Discard&) {
                    throw;
                } catch (const std::bad_alloc&) {
                    pbt::fail("a valid call ran out of memory");
                } catch (const std::exception& e) {
                    threw++;
                    note(std::string(e.what()));
                    if (show_text) t << "(throws: " << e.what() << ") ";
                }
                note(static_cast<uint64_t>(k));
                if (s.chance(1, 6)) evaluate_all();
            }
            evaluate_all();
        }
    };

    struct Streams
    {
        std::streambuf *o, *e;
        std::ios fo{nullptr}, fe{nullptr};
        Null sink;
        Streams()
            : o(std::cout.rdbuf(&sink))
            , e(std::cerr.rdbuf(&sink))
        {
            fo.copyfmt(std::cout);
            fe.copyfmt(std::cerr);
        }
        ~Streams()
        {
            std::cout.rdbuf(o), std::cerr.rdbuf(e);
            std::cout.copyfmt(fo), std::cerr.copyfmt(fe);
        }
    };
} // namespace

PROPERTY(P25, "one case: a program of 4..40 calls over a pool of variables of every kind, factors of every kind (and user factors that throw or "
              "return NaN, infinity or huge numbers), up to 4 graphs (copied, assigned, replaced, unfinalized, re-finalized) and up to 2 optimizers; "
              "in the second build the program runs twice over differently filled memory and must observe the same; non-trivial: at least one "
              "graph was finalized or evaluated and at least two kinds of calls were made")
{
    const bool large = giant::wanted(s, 10000);
    const bool lengthy = s.chance(1, 250);
    int n = lengthy ? s.range(40, 300) : 4 + static_cast<int>(s.draw(37));
    auto go = [&](Program& p) { large ? p.large(c, 6000) : p.run(n); };
    std::ostringstream dummy;
    Streams quiet;
#ifdef PROG_ASAN
    Program p(s, c.want_text ? static_cast<std::ostream&>(c.text) : dummy, c.want_text);
    go(p);
    uint64_t trace = p.trace;
#else
    // The first run records its choices; the second replays them over other memory
    size_t from = s.out.size();
    uint64_t trace = 0, trace2 = 0;
    std::string why;
    std::vector<uint32_t> used;
    Program *first = new Program(s, c.want_text ? static_cast<std::ostream&>(c.text) : dummy, c.want_text);
    std::unique_ptr<Program> hold(first);
    Program& p = *first;
    struct Fill
    {
        Fill(int f) { fill_byte = f; }
        ~Fill() { fill_byte = -1; }
    };
    {
        Fill f(0x11);
        paint_stack(0x11);
        go(p);
        trace = p.trace;
    }
    used.assign(s.out.begin() + static_cast<long>(from), s.out.end());
    {
        Src again(used, nullptr);
        Fill f(0xff);
        paint_stack(0xff);
        Program q(again, dummy, false);
        go(q);
        trace2 = q.trace;
    }
    PBT_REQUIRE(trace == trace2, "the same program observed other values, states or exceptions over other initial memory contents: uninitialised memory is read");
#endif
    c.nontrivial = p.ops.count("graph") && p.ops.size() >= 2;
    c.mixin(trace);
    c.mixin(static_cast<uint64_t>(n));
    for (auto& o : p.ops) c.label(o);
    if (p.threw) c.label("some call threw");
    if (lengthy && !large) c.label("up to 300 calls");
}
