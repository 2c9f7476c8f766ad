// A graph under change: the specification, the real objects, and the operations that histories are made of.
#pragma once
#include "gen.hpp"

struct Session
{
    GraphSpec g;
    std::vector<VarPtr> vars;
    std::vector<FacPtr> facs;
    std::shared_ptr<fg::FactorGraph> graph;
    std::set<int> ids, fids;
    gen::GraphOpt opt;

    int rows() const
    {
        int n = 0;
        for (auto& f : g.facs) n += gen::residual_rows(f, g.vars);
        return n;
    }
    int cols() const
    {
        int n = 0;
        for (size_t i = 0; i < vars.size(); i++) n += vars[i]->is_constant() ? 0 : gen::value_size(g.vars[i]);
        return n;
    }
    void start(Src& s, const gen::GraphOpt& o)
    {
        opt = o;
        g = gen::graph(s, o);
        graph = std::make_shared<fg::FactorGraph>();
        // factors may be added before the variables they refer to
        bool factors_first = s.chance(1, 5);
        for (auto& v : g.vars) {
            ids.insert(v.id);
            vars.push_back(make_var(v));
            if (!factors_first) graph->add_variable(vars.back());
        }
        for (auto& f : g.facs) {
            fids.insert(f.id);
            facs.push_back(make_factor(f, vars));
            graph->add_factor(facs.back());
        }
        if (factors_first)
            for (auto& v : vars) graph->add_variable(v);
        graph->finalize_structure();
    }
    void add_factor(const FacSpec& f)
    {
        g.facs.push_back(f);
        facs.push_back(make_factor(f, vars));
        graph->add_factor(facs.back());
    }
    // Add priors until there are enough residuals, then finalize
    void finalize(Src& s)
    {
        for (size_t i = 0; rows() < cols(); i = (i + 1) % vars.size()) {
            if (vars[i]->is_constant()) continue;
            FacSpec f;
            f.k = F_PRIOR;
            f.v = {static_cast<int>(i)};
            f.id = gen::fresh_id(s, fids);
            gen::measure(s, f, g.vars);
            add_factor(f);
        }
        graph->finalize_structure();
    }
    Vec step_for(Src& s, size_t i)
    {
        Vec x(gen::value_size(g.vars[i]));
        double m = s.pick(std::vector<double>{0.1, 1, 1e-4, 5});
        for (Eigen::Index k = 0; k < x.size(); k++) x[k] = s.symmetric(m);
        if (g.vars[i].k == PLANE) x.head<3>() *= 0.3 / std::max(m, 1.0);
        switch (s.draw(12)) { // parts that stay exactly where they are
        case 8: x.head(x.size() / 2).setZero(); break;
        case 9: x.tail(x.size() / 2).setZero(); break;
        case 10: x[static_cast<Eigen::Index>(s.draw(static_cast<uint32_t>(x.size())))] = 0; break;
        case 11: x.setZero(); break;
        default: break;
        }
        return x;
    }
    Vec value_for(Src& s, size_t i)
    {
        VarSpec v = gen::var(s, g.vars[i].k, g.vars[i].k == GEN ? gen::value_size(g.vars[i]) : 0);
        Vec x = evec(v.x);
        if (v.k == INV) x[0] = 1 / x[0];
        return x;
    }
    // One change; the graph is finalized again if its structure changed. Returns a description.
    std::string change(Src& s, bool structural)
    {
        if (vars.empty()) return "";
        std::ostringstream o;
        size_t i = s.draw(static_cast<uint32_t>(vars.size()));
        switch (s.draw(structural ? 6 : 3)) {
        case 0:
        case 1: {
            Vec dx = step_for(s, i);
            vars[i]->apply_increment(dx);
            o << "increment #" << i << " by " << dx.transpose();
            break;
        }
        case 2: {
            Vec x = value_for(s, i);
            vars[i]->set_value_from_vector(x);
            o << "set #" << i << " to " << x.transpose();
            break;
        }
        case 3:
            for (int more = 0;; more++) {
                vars[i]->set_constant(!vars[i]->is_constant());
                o << "make #" << i << (vars[i]->is_constant() ? " constant, " : " free, ");
                if (more == 3 || !s.coin()) break;
                // another, or one of the same size the other way, so that the number of free values stays what it was
                size_t was = i;
                i = s.draw(static_cast<uint32_t>(vars.size()));
                if (s.chance(3, 4))
                    for (size_t k = 0; k < vars.size(); k++) {
                        size_t j = (i + k) % vars.size();
                        if (j == was || gen::value_size(g.vars[j]) != gen::value_size(g.vars[was]) || vars[j]->is_constant() != vars[was]->is_constant()) continue;
                        i = j;
                        break;
                    }
            }
            finalize(s);
            o << "finalize";
            break;
        case 4: {
            size_t nv = g.vars.size();
            size_t nf = g.facs.size();
            gen::GraphOpt q = opt;
            q.max_vars = static_cast<int>(nv) + 3;
            gen::attach(s, g, gen::shape(s, static_cast<FK>(s.draw(NUM_FK)), opt.additive), ids, fids, q);
            for (size_t k = nv; k < g.vars.size(); k++) {
                vars.push_back(make_var(g.vars[k]));
                graph->add_variable(vars.back());
            }
            for (size_t k = nf; k < g.facs.size(); k++) {
                facs.push_back(make_factor(g.facs[k], vars));
                graph->add_factor(facs.back());
            }
            finalize(s);
            o << "add ";
            show(o, g.facs[nf]);
            o << " and finalize";
            break;
        }
        default:
            graph->finalize_structure();
            o << "finalize";
        }
        return o.str();
    }
};

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
