// P27: graphs do not know of each other.  Programs over separate graphs observe the same, bit for bit, whether they
// run alone, step by step in turns, or at the same time in threads; and objects that are only read can be read from
// several threads.  Under ThreadSanitizer (tsan flavour) any unsynchronised sharing is a failure of its own.
#include "quiet.hpp"
#include "session.hpp"
#include <atomic>
#include <iomanip>
#include <thread>

namespace
{
    struct Log
    {
        std::vector<uint64_t> bits;
        std::vector<std::string> words; // one per step
        void put(double v)
        {
            if (std::isnan(v)) v = std::numeric_limits<double>::quiet_NaN(); // (a NaN's sign is not an observation)
            uint64_t b;
            std::memcpy(&b, &v, 8);
            bits.push_back(b);
        }
        void put(const Mat& m)
        {
            bits.push_back(static_cast<uint64_t>(m.rows()) << 32 | static_cast<uint64_t>(m.cols()));
            for (Eigen::Index j = 0; j < m.cols(); j++)
                for (Eigen::Index i = 0; i < m.rows(); i++) put(m(i, j));
        }
        void step(const std::string& w)
        {
            words.push_back(w);
            bits.push_back(0x5eb0000000000000ull + words.size());
        }
    };

    // A program over its own graph, with its own choices: nothing outside it is touched.
    struct Actor
    {
        Src s;
        Session w;
        fg::SparseOptimizer opt;
        bool set_up = false;
        int left;
        Log log;
        bool started = false;
        Actor(const std::vector<uint32_t>& choices, int steps)
            : s(choices, nullptr)
            , left(steps)
        {
        }
        bool done() const { return started && left == 0; }
        void step()
        {
            std::string what;
            try {
                what = started ? one() : begin();
            } catch (const pbt::Discard&) {
                what = "out of choices";
            } catch (const std::exception& e) {
                what = std::string("refused: ") + e.what();
            }
            if (started) left--;
            started = true;
            log.step(what);
        }
        void run()
        {
            while (!done()) step();
        }
        std::string begin()
        {
            left++;
            gen::GraphOpt o;
            o.max_vars = 4;
            o.max_facs = 4;
            w.start(s, o);
            return "make the graph";
        }
        std::string one()
        {
            if (w.vars.empty()) return "nothing";
            fg::FactorGraph& G = *w.graph;
            size_t i = s.draw(static_cast<uint32_t>(w.vars.size()));
            size_t k = w.facs.empty() ? 0 : s.draw(static_cast<uint32_t>(w.facs.size()));
            switch (s.draw(11)) {
            case 0: {
                G.compute_full_jacobian_and_residual();
                log.put(Mat(G.residual()));
                log.put(G.jacobian());
                return "Jacobian and residual";
            }
            case 1:
                log.put(Mat(G.compute_full_residual_vector()));
                return "residual";
            case 2:
                log.put(Mat(G.compute_sparse_jacobian_matrix()));
                return "sparse Jacobian";
            case 3:
            case 4: {
                fg::OptimizerSettings o;
                o.method = s.coin() ? fg::OptimizerMethod::LevenbergMarquardt : fg::OptimizerMethod::GaussNewton;
                o.max_num_iterations = s.draw(5);
                o.check_rank_deficiency = s.chance(1, 4);
                opt.setup(w.graph, o);
                set_up = true;
                opt.optimize();
                auto& t = opt.current_stats_;
                for (double x : {t.chi2, t.delta_norm, t.residual_norm, t.damping_parameter, static_cast<double>(t.current_iteration), static_cast<double>(t.rank), static_cast<double>(static_cast<int>(t.status))}) log.put(x);
                log.put(Mat(G.get_variable_vector()));
                return "optimize";
            }
            case 5: {
                if (!set_up) return "no optimizer";
                bool ok = false;
                opt.prepare_to_estimate_covariances();
                Mat C = opt.estimate_covariance(w.vars[i].get(), ok);
                log.put(ok ? 1.0 : 0.0);
                if (ok) log.put(C);
                return "covariance";
            }
            case 6: {
                auto d = w.vars[i]->clone();
                d->apply_increment(w.step_for(s, i));
                log.put(Mat(d->value()));
                log.put(Mat(w.vars[i]->value()));
                return "clone #" + std::to_string(i) + ", move the clone";
            }
            case 7: {
                if (w.facs.empty()) return "no factor";
                log.put(Mat(w.facs[k]->compute_residual()));
                std::vector<Mat> a, n;
                w.facs[k]->compute_jacobians(a);
                fg::ComputeNumericalJacobians(*w.facs[k], n);
                for (auto& m : a) log.put(m);
                for (auto& m : n) log.put(m);
                return "factor #" + std::to_string(k);
            }
            case 8: {
                Vec x = G.get_variable_vector();
                for (Eigen::Index q = 0; q < x.size(); q++) x[q] = s.symmetric(0.1);
                G.apply_increment(x);
                log.put(Mat(G.get_variable_vector()));
                return "graph increment";
            }
            case 9:
                log.put(G.detailed_factor_test(1e-3) ? 1.0 : 0.0);
                return "factor self-test";
            default:
                std::string t = w.change(s, true);
                for (auto& v : w.vars) log.put(Mat(v->value()));
                return t;
            }
        }
    };

    // All at once: no thread starts before all are there
    void together(size_t n, const std::function<void(size_t)>& f)
    {
        std::atomic<size_t> there{0};
        std::vector<std::thread> ts;
        for (size_t t = 0; t < n; t++)
            ts.emplace_back([&, t] {
                there.fetch_add(1, std::memory_order_relaxed); // (relaxed: orders nothing for the race detector)
                while (there.load(std::memory_order_relaxed) < n) std::this_thread::yield();
                f(t);
            });
        for (auto& t : ts) t.join();
    }
    std::string difference(const Log& a, const Log& b)
    {
        if (a.words != b.words) {
            size_t i = 0;
            while (i < a.words.size() && i < b.words.size() && a.words[i] == b.words[i]) i++;
            return "step " + std::to_string(i) + " is \"" + (i < b.words.size() ? b.words[i] : "nothing") + "\" instead of \"" + (i < a.words.size() ? a.words[i] : "nothing") + "\"";
        }
        size_t step = 0;
        for (size_t i = 0; i < a.bits.size() && i < b.bits.size(); i++) {
            if (a.bits[i] != b.bits[i]) {
                double x, y;
                std::memcpy(&x, &a.bits[i], 8);
                std::memcpy(&y, &b.bits[i], 8);
                std::ostringstream o;
                o << std::setprecision(17) << "step " << step << " (" << a.words[step] << ") gives " << y << " instead of " << x;
                return o.str();
            }
            if (step < a.words.size() && a.bits[i] == 0x5eb0000000000001ull + step) step++;
        }
        return a.bits.size() == b.bits.size() ? "" : "a different number of observations";
    }
    int rounds()
    {
        static const int n = std::getenv("PBT_ROUNDS") ? std::atoi(std::getenv("PBT_ROUNDS")) : 1;
        return n;
    }
    // Everything that reading the objects tells
    Log reading(const Session& w, size_t from, bool jac)
    {
        Log l;
        size_t nv = w.vars.size(), nf = w.facs.size();
        for (size_t q = 0; q < nv; q++) {
            const fg::Variable& v = *w.vars[(q + from) % nv];
            l.put(Mat(v.value()));
            l.put(static_cast<double>(v.id()) + v.size() * 1e-3 + (v.is_constant() ? 0.5 : 0));
            auto d = v.clone();
            l.put(Mat(d->value()));
            if (auto *p = dynamic_cast<const fg::PoseVariable *>(&v)) l.put(Mat(p->dcm_CW()));
            if (auto *p = dynamic_cast<const fg::RotationVariable *>(&v)) l.put(Mat(p->rotation()));
            if (auto *p = dynamic_cast<const fg::InverseRangeVariable *>(&v)) l.put(Mat(p->pos_W()));
            if (auto *p = dynamic_cast<const fg::PlaneVariable *>(&v)) l.put(Mat(p->unit_vector()));
            l.step("variable " + v.name());
        }
        for (size_t q = 0; q < nf; q++) {
            size_t k = (q + from) % nf;
            const fg::Factor& f = *w.facs[k];
            try {
                l.put(Mat(f.compute_residual()));
                Vec r(f.residual_size());
                f.compute_residual(Eigen::Ref<Vec>(r));
                l.put(Mat(r));
            } catch (const std::exception& e) {
                l.step(e.what());
            }
            if (jac) {
                try {
                    std::vector<Mat> js;
                    f.compute_jacobians(js);
                    for (auto& m : js) l.put(m);
                } catch (const std::exception& e) {
                    l.step(e.what());
                }
            }
            l.step("factor " + f.name());
        }
        l.put(Mat(w.graph->get_variable_vector()));
        l.put(w.graph->residual_valid() ? Mat(w.graph->residual()) : Mat());
        l.put(w.graph->jacobian_valid() ? w.graph->jacobian() : Mat());
        for (auto& v : w.vars) {
            bool ok = false;
            auto p = w.graph->variable_placement(v->id(), ok);
            l.put(ok ? p.index + p.dim * 1e-3 : -1.0);
            l.put(w.graph->get_variable(v->id()) == v.get() ? 1.0 : 0.0);
        }
        l.step("graph");
        return l;
    }
    std::vector<uint32_t> choices(Src& s)
    {
        std::vector<uint32_t> v(60 + s.draw(500));
        for (auto& x : v) x = s.draw(1u << 30);
        return v;
    }
} // namespace

PROPERTY(P27, "one case: 2-3 programs of 1-8 calls (build, change, evaluate, optimize, covariance, clone, self-test) over separate graphs, run alone and "
              "then in turns in a drawn order or at the same time in threads, every observation compared bit for bit; or one graph read from 2-4 threads at "
              "once; under ThreadSanitizer in half of the workers; non-trivial: at least one program makes four observations or the graph has a factor")
{
    Quiet q;
    uint32_t mode = s.draw(3);
    if (mode == 2) {
        Session w;
        gen::GraphOpt o;
        o.max_vars = 5;
        o.max_facs = 5;
        w.start(s, o);
        // (CoordinateTransformFactor documents that it differentiates by moving its variables)
        bool jac = true;
        for (auto& f : w.g.facs) jac = jac && f.k != F_COORD;
        try {
            if (s.coin()) w.graph->compute_full_jacobian_and_residual();
        } catch (const std::exception&) {
        }
        size_t n = 2 + s.draw(3);
        if (c.want_text) {
            c.text << n << " threads read: ";
            show(c.text, w.g);
        }
        std::vector<Log> want, got(n);
        std::vector<size_t> from;
        for (size_t t = 0; t < n; t++) from.push_back(s.draw(6));
        for (size_t t = 0; t < n; t++) want.push_back(reading(w, from[t], jac));
        for (int k = 0; k < rounds(); k++) {
            together(n, [&](size_t t) { got[t] = reading(w, from[t], jac); });
            for (size_t t = 0; t < n; t++) {
                std::string d = difference(want[t], got[t]);
                PBT_REQUIRE(d.empty(), "reading the same objects from " << n << " threads: " << d);
            }
        }
        c.label("shared reading");
        c.nontrivial = !w.facs.empty();
        return;
    }
    size_t n = 2 + s.draw(2);
    std::vector<std::vector<uint32_t>> ch;
    std::vector<int> steps;
    for (size_t i = 0; i < n; i++) {
        steps.push_back(s.range(1, 8));
        ch.push_back(choices(s));
    }
    std::vector<Log> alone;
    for (size_t i = 0; i < n; i++) {
        Actor a(ch[i], steps[i]);
        a.run();
        if (c.want_text) {
            c.text << (i ? " || " : "") << "program " << i << ": ";
            for (auto& f : a.w.g.facs) c.text << fk_name(f.k) << " ";
            for (auto& x : a.log.words) c.text << x << "; ";
        }
        if (a.log.bits.size() >= 4 + a.log.words.size()) c.nontrivial = true;
        alone.push_back(a.log);
    }
    if (mode == 0) {
        std::vector<std::unique_ptr<Actor>> as;
        for (size_t i = 0; i < n; i++) as.push_back(std::make_unique<Actor>(ch[i], steps[i]));
        for (;;) {
            std::vector<size_t> live;
            for (size_t i = 0; i < n; i++)
                if (!as[i]->done()) live.push_back(i);
            if (live.empty()) break;
            as[live[s.draw(static_cast<uint32_t>(live.size()))]]->step();
        }
        for (size_t i = 0; i < n; i++) {
            std::string d = difference(alone[i], as[i]->log);
            PBT_REQUIRE(d.empty(), "program " << i << ", in turns with programs over other graphs: " << d);
        }
        c.label("in turns");
    } else {
        for (int k = 0; k < rounds(); k++) {
            std::vector<Log> got(n);
            together(n, [&](size_t t) {
                Actor a(ch[t], steps[t]);
                a.run();
                got[t] = a.log;
            });
            for (size_t i = 0; i < n; i++) {
                std::string d = difference(alone[i], got[i]);
                PBT_REQUIRE(d.empty(), "program " << i << ", at the same time as programs over other graphs: " << d);
            }
        }
        c.label("in threads");
    }
}
