// P08-P11: the factor graph.
#include "giant.hpp"

namespace
{
    Vec stacked(const Session& t)
    {
        std::vector<double> r;
        for (auto& f : t.facs) {
            Vec x = f->compute_residual();
            for (Eigen::Index i = 0; i < x.size(); i++) r.push_back(x[i]);
        }
        return evec(r);
    }
    // The assembled Jacobian; false if some factor refuses
    bool assembled(const Session& t, Mat& J)
    {
        std::map<const fg::Variable *, int> col;
        int n = 0, m = 0;
        for (auto& v : t.vars) {
            col[v.get()] = n;
            n += v->is_constant() ? 0 : v->size();
        }
        for (auto& f : t.facs) m += f->residual_size();
        J = Mat::Zero(m, n);
        int row = 0;
        for (auto& f : t.facs) {
            std::vector<Mat> b;
            try {
                f->compute_jacobians(b);
            } catch (const std::exception&) {
                return false;
            }
            auto vs = f->variables();
            for (size_t i = 0; i < vs.size(); i++)
                if (!vs[i]->is_constant()) J.block(row, col[vs[i]], f->residual_size(), vs[i]->size()) = b[i];
            row += f->residual_size();
        }
        return true;
    }
    void equal(const Vec& got, const Vec& want, const char *what)
    {
        PBT_REQUIRE(got.size() == want.size(), what << " has " << got.size() << " rows instead of " << want.size());
        for (Eigen::Index i = 0; i < want.size(); i++)
            PBT_REQUIRE(same(got[i], want[i]), what << " row " << i << " is " << got[i] << ", the factor gives " << want[i]);
    }
    void equal(const Mat& got, const Mat& want, const char *what)
    {
        PBT_REQUIRE(got.rows() == want.rows() && got.cols() == want.cols(), what << " is " << got.rows() << "x" << got.cols() << " instead of " << want.rows() << "x" << want.cols());
        for (Eigen::Index j = 0; j < want.cols(); j++)
            for (Eigen::Index i = 0; i < want.rows(); i++)
                PBT_REQUIRE(same(got(i, j), want(i, j)), what << " entry (" << i << "," << j << ") is " << got(i, j) << ", the factors give " << want(i, j));
    }
    template <typename F>
    bool throws(F f)
    {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    // ---- the same questions, asked of very large graphs
    void large_residuals(Src& s, Ctx& c)
    {
        Session t;
        giant::session(s, c, t, 90000, 1500);
        Vec reused;
        for (int round = 0; round < 3; round++) {
            if (round == 1) giant::stir(s, t);
            if (round == 2 && c.want_text) c.text << t.change(s, true) << "; ";
            else if (round == 2) t.change(s, true);
            Vec want = stacked(t);
            PBT_REQUIRE(t.graph->num_residuals() == want.size(), "num_residuals() is " << t.graph->num_residuals() << ", the factors have " << want.size());
            equal(t.graph->compute_full_residual_vector(), want, "compute_full_residual_vector()");
            t.graph->compute_full_residual_vector(reused);
            equal(reused, want, "compute_full_residual_vector(result)");
            equal(t.graph->residual(), want, "residual()");
        }
        c.nontrivial = true;
    }
    void large_jacobian(Src& s, Ctx& c)
    {
        Session t;
        giant::session(s, c, t, s.coin() ? 60000 : 3000, 400);
        for (int round = 0; round < 4; round++) {
            if (round > 0 && round < 3) giant::stir(s, t);
            if (round == 3 && c.want_text) c.text << t.change(s, true) << "; ";
            else if (round == 3) t.change(s, true);
            // what the factors give, column by column
            std::map<const fg::Variable *, size_t> first;
            std::vector<std::vector<std::pair<int, double>>> col;
            int rows = 0;
            for (auto& v : t.vars) {
                first[v.get()] = col.size();
                if (!v->is_constant()) col.resize(col.size() + static_cast<size_t>(v->size()));
            }
            for (auto& f : t.facs) {
                std::vector<Mat> b;
                try {
                    f->compute_jacobians(b);
                } catch (const std::exception&) {
                    throw Discard{}; // a degenerate geometry: small graphs look into this
                }
                auto vs = f->variables();
                for (size_t i = 0; i < vs.size(); i++)
                    if (!vs[i]->is_constant())
                        for (int q = 0; q < vs[i]->size(); q++)
                            for (int r = 0; r < f->residual_size(); r++) col[first[vs[i]] + static_cast<size_t>(q)].push_back({rows + r, b[i](r, q)});
                rows += f->residual_size();
            }
            const Eigen::SparseMatrix<double>& S = t.graph->compute_sparse_jacobian_matrix();
            PBT_REQUIRE(S.rows() == rows && S.cols() == static_cast<Eigen::Index>(col.size()), "sparse Jacobian is " << S.rows() << "x" << S.cols() << " instead of " << rows << "x" << col.size());
            for (size_t j = 0; j < col.size(); j++) {
                size_t at = 0;
                int last = -1;
                auto absent = [&] { PBT_REQUIRE(same(col[j][at].second, 0), "sparse Jacobian lacks the entry (" << col[j][at].first << "," << j << "), the factors give " << col[j][at].second); };
                for (Eigen::SparseMatrix<double>::InnerIterator it(S, static_cast<int>(j)); it; ++it) {
                    PBT_REQUIRE(it.row() > last && it.row() < rows, "sparse Jacobian column " << j << " has unsorted, repeated or impossible rows");
                    last = static_cast<int>(it.row());
                    for (; at < col[j].size() && col[j][at].first < last; at++) absent();
                    bool there = at < col[j].size() && col[j][at].first == last;
                    double want = there ? col[j][at].second : 0;
                    PBT_REQUIRE(same(it.value(), want), "sparse Jacobian entry (" << last << "," << j << ") is " << it.value() << ", the factors give " << want);
                    at += there;
                }
                for (; at < col[j].size(); at++) absent();
            }
            if (static_cast<double>(rows) * static_cast<double>(col.size()) <= 4e6) {
                const Mat& D = t.graph->compute_full_jacobian_matrix();
                PBT_REQUIRE(D.rows() == rows && D.cols() == S.cols(), "dense Jacobian is " << D.rows() << "x" << D.cols() << " instead of " << rows << "x" << S.cols());
                Mat want = Mat::Zero(D.rows(), D.cols());
                for (size_t j = 0; j < col.size(); j++)
                    for (auto& e : col[j]) want(e.first, static_cast<Eigen::Index>(j)) = e.second;
                equal(D, want, "dense Jacobian");
                c.label("dense too");
            }
        }
        c.nontrivial = true;
    }
    void large_values(Src& s, Ctx& c)
    {
        Session t;
        giant::session(s, c, t, 90000, 2000);
        for (int round = 0; round < 3; round++) {
            std::vector<double> flat;
            std::vector<VarPtr> model;
            std::vector<Obs> before;
            for (auto& v : t.vars) {
                model.push_back(v->clone());
                before.push_back(observe(*v));
                if (!v->is_constant())
                    for (Eigen::Index k = 0; k < v->size(); k++) flat.push_back(v->value()[k]);
            }
            Eigen::Index dim = static_cast<Eigen::Index>(flat.size());
            PBT_REQUIRE(t.graph->num_values() == dim, "num_values() is " << t.graph->num_values() << " instead of " << dim);
            equal(t.graph->get_variable_vector(), evec(flat), "get_variable_vector()");
            for (Eigen::Index wrong : {dim - 1, dim + 1, dim + 256, dim + 65536, Eigen::Index(0)}) {
                if (wrong < 0 || wrong == dim) continue;
                Vec x = Vec::Constant(wrong, 0.125);
                PBT_REQUIRE(throws([&] { t.graph->set_variable_values_from_vector(x); }), "a vector of length " << wrong << " was accepted for " << dim << " values");
                PBT_REQUIRE(throws([&] { t.graph->apply_increment(x); }), "an increment of length " << wrong << " was accepted for " << dim << " values");
            }
            for (size_t k = 0; k < t.vars.size(); k++) PBT_REQUIRE(observe(*t.vars[k]) == before[k], "a rejected vector changed variable #" << k);
            std::mt19937_64 rng(s.draw(1u << 30));
            bool set = s.coin();
            Vec x(dim);
            for (Eigen::Index k = 0; k < dim; k++) x[k] = (set ? flat[static_cast<size_t>(k)] : 0) + 0.2 * (static_cast<double>(rng() >> 11) / 9007199254740992.0);
            if (set)
                t.graph->set_variable_values_from_vector(x);
            else
                t.graph->apply_increment(x);
            Eigen::Index at = 0;
            for (size_t k = 0; k < t.vars.size(); k++) {
                if (!t.vars[k]->is_constant()) {
                    Vec seg = x.segment(at, t.vars[k]->size());
                    at += seg.size();
                    if (set)
                        model[k]->set_value_from_vector(seg);
                    else
                        model[k]->apply_increment(seg);
                }
                PBT_REQUIRE(observe(*t.vars[k]) == observe(*model[k]), "variable #" << k << " of " << t.vars.size() << " (" << vk_name(t.g.vars[k].k) << ") is " << t.vars[k]->value().transpose() << " after the graph-level "
                                                                                   << (set ? "set" : "increment") << ", its own segment gives " << model[k]->value().transpose());
            }
            if (c.want_text) c.text << (set ? "set; " : "increment; ");
            std::string d = t.change(s, true);
            if (c.want_text) c.text << d << "; ";
        }
        c.nontrivial = true;
    }
    void large_structure(Src& s, Ctx& c)
    {
        Session t;
        giant::session(s, c, t, 90000, 2000);
        for (int round = 0; round < 2; round++) {
            auto& av = t.graph->get_all_variables();
            auto& af = t.graph->get_all_factors();
            PBT_REQUIRE(av.size() == t.vars.size() && t.graph->num_variables() == static_cast<int>(t.vars.size()) && af.size() == t.facs.size(), "the graph lists " << av.size() << " variables and " << af.size() << " factors instead of "
                                                                                                                                           << t.vars.size() << " and " << t.facs.size());
            PBT_REQUIRE(t.graph->variable_placement_map().size() == av.size() && t.graph->factor_placement_map().size() == af.size(), "placement maps have another size");
            int col = 0, row = 0;
            for (size_t i = 0; i < av.size(); i++) {
                PBT_REQUIRE(av[i] == t.vars[i] && t.graph->get_variable(t.vars[i]->id()) == t.vars[i].get(), "variable " << i << " with id " << t.vars[i]->id() << " is not found where it was added");
                bool valid = false;
                fg::VariablePlacement p = t.graph->variable_placement(t.vars[i]->id(), valid);
                int dim = t.vars[i]->is_constant() ? 0 : t.vars[i]->size();
                PBT_REQUIRE(valid && p.variable == t.vars[i].get() && p.dim == dim && (dim == 0 || p.index == col), "placement of variable " << i << " is index " << p.index << " dim " << p.dim << " instead of " << col << "," << dim);
                col += dim;
            }
            for (size_t i = 0; i < af.size(); i++) {
                PBT_REQUIRE(af[i] == t.facs[i], "factor " << i << " of the list is another one");
                row += af[i]->residual_size();
            }
            PBT_REQUIRE(t.graph->num_values() == col && t.graph->num_residuals() == row, t.graph->num_values() << " values and " << t.graph->num_residuals() << " residuals instead of " << col << " and " << row);
            size_t n = 0, want = 0;
            auto lists = [&](VK k, size_t got) {
                size_t w = 0;
                for (auto& v : t.g.vars) w += v.k == k;
                PBT_REQUIRE(got == w, got << " variables of kind " << vk_name(k) << " instead of " << w);
                n += got, want += w;
            };
            lists(POSE, t.graph->get_variables_of_type<fg::PoseVariable>().size());
            lists(LM, t.graph->get_variables_of_type<fg::LandmarkVariable>().size());
            lists(ROT, t.graph->get_variables_of_type<fg::RotationVariable>().size());
            lists(INV, t.graph->get_variables_of_type<fg::InverseRangeVariable>().size());
            lists(GEN, t.graph->get_variables_of_type<fg::GenericVariable>().size());
            lists(PLANE, t.graph->get_variables_of_type<fg::PlaneVariable>().size());
            lists(POSE2, t.graph->get_variables_of_type<fg::Pose2DVariable>().size());
            for (int k = 0; k < 20; k++) { // ids that are in use, and ids that are not
                size_t i = s.draw(static_cast<uint32_t>(t.vars.size())), j = s.draw(static_cast<uint32_t>(t.facs.size()));
                VarPtr twin = t.vars[i]->clone();
                PBT_REQUIRE(throws([&] { t.graph->add_variable(twin); }), "a second variable with id " << twin->id() << " was accepted");
                PBT_REQUIRE(throws([&] { t.graph->add_factor(t.facs[j]); }), "a second factor with id " << t.facs[j]->id() << " was accepted");
                int id = gen::fresh_id(s, t.ids);
                t.ids.erase(id);
                bool valid = true;
                t.graph->variable_placement(id, valid);
                PBT_REQUIRE(!valid && t.graph->get_variable(id) == nullptr, "the id " << id << ", which nothing has, was found");
            }
            std::string d = t.change(s, true);
            if (c.want_text) c.text << d << "; ";
        }
        c.nontrivial = true;
    }
} // namespace

PROPERTY(P08, "one case: a random graph over all variable and factor kinds (ids of any sign and magnitude, any insertion order, "
              "constants) and a history of 1..8 value changes, structure changes with re-finalize, and residual evaluations by "
              "each of the three calls, into fresh, junk-filled and reused vectors; non-trivial: at least two factors and an "
              "evaluation after a change")
{
    if (giant::wanted(s, 4000)) return large_residuals(s, c);
    Session t;
    gen::GraphOpt o;
    t.start(s, o);
    if (c.want_text) show(c.text, t.g);
    Vec reused;
    int n = s.length(1, c.thorough ? 16 : 8, 150), changes = 0;
    for (int i = 0; i < n; i++) {
        if (i > 0 || s.coin()) {
            std::string d = t.change(s, true);
            changes++;
            if (c.want_text) c.text << d << "; ";
        }
        Vec want = stacked(t);
        PBT_REQUIRE(t.graph->num_residuals() == want.size(), "num_residuals() is " << t.graph->num_residuals() << ", the factors have " << want.size());
        int way = static_cast<int>(s.draw(4));
        if (c.want_text) c.text << "eval " << way << "; ";
        if (way == 0) {
            equal(t.graph->compute_full_residual_vector(), want, "compute_full_residual_vector()");
        } else if (way == 1) {
            Vec junk = Vec::Constant(s.range(0, 2) ? s.range(0, 40) : want.size(), 3.5);
            t.graph->compute_full_residual_vector(junk);
            equal(junk, want, "compute_full_residual_vector(result)");
        } else if (way == 2) {
            t.graph->compute_full_residual_vector(reused);
            equal(reused, want, "compute_full_residual_vector(reused result)");
        } else {
            Mat J;
            if (!assembled(t, J)) continue;
            t.graph->compute_full_jacobian_and_residual();
            PBT_REQUIRE(t.graph->residual_valid(), "residual_valid() is false after an evaluation");
            equal(t.graph->residual(), want, "residual()");
        }
    }
    if (t.graph->num_residuals() > 0) {
        equal(t.graph->compute_full_residual_vector(), stacked(t), "compute_full_residual_vector()");
        equal(t.graph->residual(), stacked(t), "residual()");
    }
    c.nontrivial = t.facs.size() >= 2 && changes > 0;
}

PROPERTY(P09, "one case: a random graph over all variable and factor kinds and a history of 1..10 value changes, constant-flag "
              "toggles, additions (each followed by finalize), graph copies, and dense or sparse evaluations in any order; "
              "non-trivial: a sparse evaluation that is not the first of its structure, or one after re-finalizing")
{
    if (giant::wanted(s, 2500)) return large_jacobian(s, c);
    Session t;
    gen::GraphOpt o;
    o.additive = s.coin();
    t.start(s, o);
    if (c.want_text) show(c.text, t.g);
    int n = s.length(1, c.thorough ? 20 : 10, 200), sparse = 0, refused = 0;
    for (int i = 0; i < n; i++) {
        if (i > 0 || s.coin()) {
            std::string d = t.change(s, s.chance(1, 2));
            if (c.want_text) c.text << d << "; ";
        }
        if (s.chance(1, 10)) { // the graph is a value: a copy evaluates on its own
            t.graph = std::make_shared<fg::FactorGraph>(*t.graph);
            if (c.want_text) c.text << "copy; ";
            c.label("copied");
        }
        Mat want;
        bool ok = assembled(t, want);
        int way = static_cast<int>(s.draw(4));
        if (c.want_text) c.text << "eval " << way << "; ";
        if (!ok) {
            refused++;
            PBT_REQUIRE(throws([&] {
                            if (way < 2)
                                t.graph->compute_sparse_jacobian_matrix();
                            else
                                t.graph->compute_full_jacobian_matrix();
                        }),
                        "a factor refuses to give its Jacobian but the graph's evaluation succeeds");
            continue;
        }
        if (way == 3) {
            t.graph->compute_full_jacobian_and_residual();
            PBT_REQUIRE(t.graph->jacobian_valid(), "jacobian_valid() is false after an evaluation");
            equal(t.graph->jacobian(), want, "dense jacobian()");
        }
        if (way == 2) equal(t.graph->compute_full_jacobian_matrix(), want, "dense Jacobian");
        if (way <= 1) {
            const Eigen::SparseMatrix<double>& S = t.graph->compute_sparse_jacobian_matrix();
            PBT_REQUIRE(S.rows() == want.rows() && S.cols() == want.cols(), "sparse Jacobian is " << S.rows() << "x" << S.cols());
            for (int j = 0; j < S.outerSize(); j++) {
                int last = -1;
                for (Eigen::SparseMatrix<double>::InnerIterator it(S, j); it; ++it) {
                    PBT_REQUIRE(it.row() > last && it.row() < S.rows(), "sparse Jacobian column " << j << " has unsorted or repeated rows");
                    last = static_cast<int>(it.row());
                }
            }
            equal(Mat(S), want, "sparse Jacobian");
            equal(Mat(t.graph->sparse_jacobian()), want, "sparse_jacobian()");
            sparse++;
        }
    }
    Mat want;
    if (assembled(t, want)) {
        equal(Mat(t.graph->compute_sparse_jacobian_matrix()), want, "sparse Jacobian at the end");
        equal(t.graph->compute_full_jacobian_matrix(), want, "dense Jacobian at the end");
        sparse++;
    }
    if (refused) c.label("with refusals");
    c.nontrivial = sparse >= 2;
}

PROPERTY(P10, "one case: a random graph (mixed kinds, constants, insertion orders) and 1..8 graph-level operations (get, set, "
              "increment, wrong-sized set and increment of lengths 0..n+4, constant toggles with finalize); non-trivial: at least one "
              "free and, over the history, one graph-level write")
{
    if (giant::wanted(s, 4000)) return large_values(s, c);
    Session t;
    gen::GraphOpt o;
    t.start(s, o);
    if (c.want_text) show(c.text, t.g);
    int n = s.length(1, c.thorough ? 16 : 8, 200), writes = 0;
    bool had_const = false;
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 3)) {
            std::string d = t.change(s, true);
            if (c.want_text) c.text << d << "; ";
        }
        std::vector<double> flat;
        std::vector<Obs> before;
        std::vector<VarPtr> model;
        for (auto& v : t.vars) {
            model.push_back(v->clone());
            before.push_back(observe(*v));
            had_const |= v->is_constant();
            if (!v->is_constant())
                for (Eigen::Index k = 0; k < v->size(); k++) flat.push_back(v->value()[k]);
        }
        int dim = static_cast<int>(flat.size());
        PBT_REQUIRE(t.graph->num_values() == dim, "num_values() is " << t.graph->num_values() << " instead of " << dim);
        equal(t.graph->get_variable_vector(), evec(flat), "get_variable_vector()");
        int op = static_cast<int>(s.draw(4));
        if (c.want_text) c.text << (op == 0 ? "set; " : op == 1 ? "increment; " : op == 2 ? "wrong size; " : "own value; ");
        if (op == 2) {
            int len = s.range(0, dim + 4);
            if (len == dim) len++;
            Vec x = Vec::Constant(len, 0.125);
            PBT_REQUIRE(throws([&] { t.graph->set_variable_values_from_vector(x); }), "a vector of length " << len << " was accepted for " << dim << " values");
            PBT_REQUIRE(throws([&] { t.graph->apply_increment(x); }), "an increment of length " << len << " was accepted for " << dim << " values");
            for (size_t k = 0; k < t.vars.size(); k++) PBT_REQUIRE(observe(*t.vars[k]) == before[k], "a rejected vector changed variable #" << k);
            continue;
        }
        Vec x(dim);
        int at = 0;
        for (size_t k = 0; k < t.vars.size(); k++) {
            if (t.vars[k]->is_constant()) continue;
            Vec seg = op == 0 ? t.value_for(s, k) : op == 1 ? t.step_for(s, k) : Vec(t.vars[k]->value());
            x.segment(at, seg.size()) = seg;
            at += static_cast<int>(seg.size());
            if (op == 1)
                model[k]->apply_increment(seg);
            else
                model[k]->set_value_from_vector(seg);
        }
        if (op == 1)
            t.graph->apply_increment(x);
        else
            t.graph->set_variable_values_from_vector(x);
        writes++;
        at = 0;
        Vec back = t.graph->get_variable_vector();
        for (size_t k = 0; k < t.vars.size(); k++) {
            if (t.vars[k]->is_constant()) {
                PBT_REQUIRE(observe(*t.vars[k]) == before[k], "constant variable #" << k << " was changed by a graph-level " << (op == 1 ? "increment" : "set"));
                continue;
            }
            Obs a = observe(*t.vars[k]), b = observe(*model[k]);
            PBT_REQUIRE(a == b, "variable #" << k << " (" << vk_name(t.g.vars[k].k) << ") is " << t.vars[k]->value().transpose() << " after the graph-level "
                                             << (op == 1 ? "increment" : "set") << ", its own segment gives " << model[k]->value().transpose());
            for (Eigen::Index q = 0; q < t.vars[k]->size(); q++) PBT_REQUIRE(back[at + q] == t.vars[k]->value()[q], "get_variable_vector() after a write");
            if (op != 1 && (t.g.vars[k].k == LM || t.g.vars[k].k == GEN || t.g.vars[k].k == POSE))
                for (Eigen::Index q = 0; q < t.vars[k]->size(); q++) PBT_REQUIRE(back[at + q] == x[at + q], "a value that was set does not read back");
            at += static_cast<int>(t.vars[k]->size());
        }
    }
    if (had_const) c.label("with constants");
    c.nontrivial = writes > 0 && t.cols() > 0;
}

// ------------------------------------------------------------------------------------------- P11
PROPERTY(P11, "one case: a history of 3..25 calls on an empty graph: add a fresh or duplicate variable, add a factor with a fresh or "
              "duplicate id whose variables may be missing from the graph, toggle a constant flag, finalize, evaluate, look up present "
              "and absent ids; the model is two lists; non-trivial: a successful finalize and a rejected call, or a change after a "
              "finalize")
{
    if (giant::wanted(s, 4000)) return large_structure(s, c);
    fg::FactorGraph graph;
    GraphSpec pool; // every variable and factor created so far
    std::vector<VarPtr> pv;
    std::vector<FacPtr> pf;
    std::vector<size_t> in_v, in_f; // what the graph holds, in order
    std::set<int> ids, fids;
    bool finalized = false, stale = false;
    int good = 0, rejected = 0, after = 0;
    gen::GraphOpt opt;

    auto holds_v = [&](size_t i) { return std::find(in_v.begin(), in_v.end(), i) != in_v.end(); };
    auto check = [&](const std::string& when) {
        auto& av = graph.get_all_variables();
        auto& af = graph.get_all_factors();
        PBT_REQUIRE(av.size() == in_v.size() && graph.num_variables() == static_cast<int>(in_v.size()), when << ": " << av.size() << " variables instead of " << in_v.size());
        PBT_REQUIRE(af.size() == in_f.size(), when << ": " << af.size() << " factors instead of " << in_f.size());
        std::map<int, std::vector<fg::Variable *>> by_kind;
        for (size_t i = 0; i < in_v.size(); i++) {
            PBT_REQUIRE(av[i] == pv[in_v[i]], when << ": variable " << i << " of the list is another one");
            by_kind[pool.vars[in_v[i]].k].push_back(pv[in_v[i]].get());
        }
        for (size_t i = 0; i < in_f.size(); i++) PBT_REQUIRE(af[i] == pf[in_f[i]], when << ": factor " << i << " of the list is another one");
        for (size_t i = 0; i < pv.size(); i++) {
            fg::Variable *got = graph.get_variable(pv[i]->id());
            fg::Variable *want = nullptr;
            for (size_t j : in_v)
                if (pv[j]->id() == pv[i]->id()) want = pv[j].get();
            PBT_REQUIRE(got == want, when << ": get_variable(" << pv[i]->id() << ") is wrong");
        }
        PBT_REQUIRE(graph.get_variable(123456789) == nullptr || ids.count(123456789), when << ": an absent id was found");
        auto of_type = [&](VK k, auto list) {
            auto& w = by_kind[k];
            bool ok = w.size() == list.size();
            for (size_t i = 0; ok && i < w.size(); i++) ok = list[i].get() == w[i];
            PBT_REQUIRE(ok, when << ": list of " << vk_name(k) << " variables has " << list.size() << " entries instead of " << w.size() << " or another order");
        };
        of_type(POSE, graph.get_variables_of_type<fg::PoseVariable>());
        of_type(LM, graph.get_variables_of_type<fg::LandmarkVariable>());
        of_type(ROT, graph.get_variables_of_type<fg::RotationVariable>());
        of_type(INV, graph.get_variables_of_type<fg::InverseRangeVariable>());
        of_type(GEN, graph.get_variables_of_type<fg::GenericVariable>());
        of_type(PLANE, graph.get_variables_of_type<fg::PlaneVariable>());
        of_type(POSE2, graph.get_variables_of_type<fg::Pose2DVariable>());
        if (finalized && !stale) {
            int col = 0, row = 0;
            for (size_t i : in_v) {
                bool valid = false;
                fg::VariablePlacement p = graph.variable_placement(pv[i]->id(), valid);
                int dim = pv[i]->is_constant() ? 0 : pv[i]->size();
                PBT_REQUIRE(valid && p.variable == pv[i].get() && p.dim == dim && (dim == 0 || p.index == col), when << ": placement of variable " << pv[i]->id() << " is index " << p.index
                                                                                                               << " dim " << p.dim << " instead of " << col << "," << dim);
                col += dim;
            }
            for (size_t i : in_f) row += pf[i]->residual_size();
            PBT_REQUIRE(graph.num_values() == col && graph.num_residuals() == row, when << ": " << graph.num_values() << " values and " << graph.num_residuals() << " residuals instead of " << col << " and "
                                                                                 << row);
            PBT_REQUIRE(graph.variable_placement_map().size() == in_v.size() && graph.factor_placement_map().size() == in_f.size(), when << ": placement maps have another size");
            for (size_t i = 0; i < pv.size(); i++)
                if (!graph.get_variable(pv[i]->id())) {
                    bool valid = true;
                    graph.variable_placement(pv[i]->id(), valid);
                    PBT_REQUIRE(!valid, when << ": placement of a variable that is not in the graph");
                }
        }
    };
    auto evaluate = [&](int way) {
        switch (way) {
        case 0: graph.compute_full_residual_vector(); break;
        case 1: {
            Vec v;
            graph.compute_full_residual_vector(v);
            break;
        }
        case 2: graph.compute_full_jacobian_matrix(); break;
        case 3: graph.compute_sparse_jacobian_matrix(); break;
        case 4: graph.compute_full_jacobian_and_residual(); break;
        case 5: graph.apply_increment(Vec::Zero(graph.num_values())); break;
        case 6: graph.detailed_factor_test(1e-3); break;
        default: graph.print_structure(); break;
        }
    };

    int n = s.length(3, c.thorough ? 50 : 25, 300);
    for (int step = 0; step < n; step++) {
        std::ostringstream when;
        when << "step " << step << " ";
        bool ok = true, want = true;
        switch (s.draw(8)) {
        case 0: { // a fresh variable
            VarSpec v = gen::var(s, static_cast<VK>(s.draw(NUM_VK)));
            v.id = gen::fresh_id(s, ids);
            v.constant = s.chance(1, 4);
            pool.vars.push_back(v);
            pv.push_back(make_var(v));
            graph.add_variable(pv.back());
            in_v.push_back(pv.size() - 1);
            when << "add variable " << vk_name(v.k) << "#" << v.id;
            if (finalized) after++;
            finalized = false;
            break;
        }
        case 1: { // something already seen: duplicate, or a variable a factor was waiting for
            if (pv.empty()) break;
            size_t i = s.draw(static_cast<uint32_t>(pv.size()));
            VarPtr p = pv[i];
            want = !holds_v(i);
            if (!want && s.coin()) { // another variable with the same id
                VarSpec v = gen::var(s, static_cast<VK>(s.draw(NUM_VK)));
                v.id = pool.vars[i].id;
                p = make_var(v);
            }
            ok = !throws([&] { graph.add_variable(p); });
            when << "add variable with id " << p->id() << (want ? " (first time)" : " (duplicate)");
            PBT_REQUIRE(ok == want, when.str() << (ok ? " was accepted" : " was refused"));
            if (want) {
                in_v.push_back(i);
                if (finalized) after++;
                finalized = false;
            }
            break;
        }
        case 2:
        case 3: { // a fresh factor; its new variables go into the graph or stay outside
            size_t nv = pool.vars.size();
            opt.max_vars = static_cast<int>(nv) + 2;
            gen::attach(s, pool, gen::shape(s, static_cast<FK>(s.draw(NUM_FK)), true), ids, fids, opt);
            for (size_t k = nv; k < pool.vars.size(); k++) {
                pv.push_back(make_var(pool.vars[k]));
                if (!s.chance(1, 6)) {
                    graph.add_variable(pv.back());
                    in_v.push_back(k);
                }
            }
            pf.push_back(make_factor(pool.facs.back(), pv));
            graph.add_factor(pf.back());
            in_f.push_back(pf.size() - 1);
            when << "add factor " << fk_name(pool.facs.back().k) << "#" << pool.facs.back().id;
            if (finalized) after++;
            finalized = false;
            break;
        }
        case 4: { // duplicate factor id
            if (in_f.empty()) break;
            size_t i = in_f[s.draw(static_cast<uint32_t>(in_f.size()))];
            FacPtr p = pf[i];
            if (s.coin()) {
                FacSpec f;
                f.k = F_PRIOR;
                f.v = {pool.facs[i].v[0]};
                f.id = pool.facs[i].id;
                gen::measure(s, f, pool.vars);
                p = make_factor(f, pv);
            }
            when << "add factor with id " << p->id() << " again";
            PBT_REQUIRE(throws([&] { graph.add_factor(p); }), when.str() << " was accepted");
            ok = false;
            break;
        }
        case 5: {
            if (pv.empty()) break;
            size_t i = s.draw(static_cast<uint32_t>(pv.size()));
            pv[i]->set_constant(!pv[i]->is_constant());
            stale = true; // placements describe the flags at the time of finalize
            when << "toggle constant flag of " << pv[i]->id();
            break;
        }
        case 6: { // finalize, perhaps after filling up with priors
            if (s.coin())
                for (size_t i : in_v) {
                    if (pv[i]->is_constant() || s.chance(1, 8)) continue;
                    FacSpec f;
                    f.k = F_PRIOR;
                    f.v = {static_cast<int>(i)};
                    f.id = gen::fresh_id(s, fids);
                    gen::measure(s, f, pool.vars);
                    pool.facs.push_back(f);
                    pf.push_back(make_factor(f, pv));
                    graph.add_factor(pf.back());
                    in_f.push_back(pf.size() - 1);
                }
            int rows = 0, cols = 0;
            want = true;
            for (size_t i : in_f) {
                rows += pf[i]->residual_size();
                for (int j : pool.facs[i].v)
                    if (!pv[static_cast<size_t>(j)]->is_constant() && !holds_v(static_cast<size_t>(j))) want = false;
            }
            for (size_t i : in_v) cols += pv[i]->is_constant() ? 0 : pv[i]->size();
            if (rows < cols) want = false;
            ok = !throws([&] { graph.finalize_structure(); });
            when << "finalize";
            PBT_REQUIRE(ok == want, when.str() << (ok ? " was accepted" : " was refused") << " with " << rows << " residuals, " << cols << " values");
            finalized = ok;
            stale = false;
            good += ok;
            break;
        }
        default: {
            int way = static_cast<int>(s.draw(8));
            when << "evaluate " << way;
            if (!finalized) {
                PBT_REQUIRE(throws([&] { evaluate(way); }), when.str() << " succeeded although the structure is not finalized");
                ok = false;
            } else if (!stale) {
                bool refuses = false; // a factor whose geometry is degenerate
                if (way == 2 || way == 3 || way == 4 || way == 6)
                    for (size_t i : in_f) {
                        std::vector<Mat> J;
                        refuses |= throws([&] { pf[i]->compute_jacobians(J); });
                    }
                bool bad = throws([&] { evaluate(way); });
                PBT_REQUIRE(!bad || refuses, when.str() << " threw although the structure is finalized");
                if (way < 2) {
                    std::vector<double> r;
                    for (size_t i : in_f) {
                        Vec x = pf[i]->compute_residual();
                        for (Eigen::Index q = 0; q < x.size(); q++) r.push_back(x[q]);
                    }
                    equal(graph.compute_full_residual_vector(), evec(r), "residual");
                }
            }
        }
        }
        rejected += !ok;
        if (c.want_text) c.text << when.str() << (ok ? "; " : " (rejected); ");
        check(when.str());
    }
    if (good) c.label("finalized");
    if (after) c.label("changed after finalize");
    if (rejected) c.label("rejections");
    c.nontrivial = good > 0 && (rejected > 0 || after > 0);
}
