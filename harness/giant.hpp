// Size: a small scene repeated into very many disconnected copies (tiles), so that indices, offsets, counters and id
// tables meet numbers far beyond what small graphs reach, while every copy still has the small scene's answer.
#pragma once
#include "scene.hpp"
#include "session.hpp"
#include <random>

namespace giant
{
    // One case in `rate`. The coverage-guided fuzzer stays with small cases.
    inline bool wanted(Src& s, uint32_t rate)
    {
        bool y = s.chance(1, rate) || std::getenv("PBT_GIANT"); // the variable is for working on these cases
#ifdef PBT_FUZZER
        if (y) throw Discard{};
#endif
        return y;
    }

    struct Tiled
    {
        GraphSpec one; // a tile
        GraphSpec g;   // all of them
        size_t tiles = 0;
        std::vector<size_t> var_tile, var_local, fac_tile, fac_local; // where each came from
        std::vector<size_t> var_at, fac_at;                           // [tile * count + local]: where each is
        std::mt19937_64 rng;                                          // one draw of Src pays for all of it

        size_t var(size_t tile, size_t local) const { return var_at[tile * one.vars.size() + local]; }
        size_t fac(size_t tile, size_t local) const { return fac_at[tile * one.facs.size() + local]; }
        double symmetric(double p) { return p * (2 * (static_cast<double>(rng() >> 11) / 9007199254740992.0) - 1); }
        std::string text() const
        {
            std::ostringstream o;
            o << tiles << " copies of: ";
            show(o, one);
            o << "first ids";
            for (size_t i = 0; i < std::min<size_t>(3, g.vars.size()); i++) o << " " << g.vars[i].id;
            o << "; ";
            return o.str();
        }
        // Every free variable of every tile moved by its own step of up to p in each coordinate
        void perturb(const std::vector<State>& truth, double p)
        {
            for (size_t i = 0; i < g.vars.size(); i++) {
                if (g.vars[i].constant) continue;
                std::vector<LR> d;
                for (int k = 0; k < gen::value_size(g.vars[i]); k++) d.push_back(symmetric(p));
                scene::store(g.vars[i], scene::step(truth[var_local[i]], d));
            }
        }
    };

    // Up to `most` free values or residuals (whichever are more)
    inline Tiled tile(Src& s, const GraphSpec& one, int most)
    {
        Tiled t;
        t.one = one;
        int rows = 0, cols = 0;
        for (auto& f : one.facs) rows += gen::residual_rows(f, one.vars);
        for (auto& v : one.vars) cols += gen::value_size(v);
        double per = std::max(1, std::max(rows, cols));
        double size = s.coin() ? s.uniform(0.4, 1) * most : s.logu(std::min(200, most), most);
        t.tiles = static_cast<size_t>(std::max(2.0, size / per));
        t.rng.seed(s.draw(1u << 30));
        size_t nv = one.vars.size(), nf = one.facs.size();
        // order: tile by tile, all copies of one variable after the other, backwards, or shuffled
        auto order = [&](size_t n) {
            std::vector<size_t> o(n * t.tiles);
            for (size_t i = 0; i < o.size(); i++) o[i] = i;
            int how = static_cast<int>(s.draw(4));
            if (how == 1)
                for (size_t i = 0; i < o.size(); i++) o[i] = (i % t.tiles) * n + i / t.tiles;
            if (how == 2) std::reverse(o.begin(), o.end());
            if (how == 3) std::shuffle(o.begin(), o.end(), t.rng);
            return o;
        };
        auto ids = [&] {
            // an odd factor permutes the 32-bit numbers
            unsigned k = s.pick(std::vector<unsigned>{1, 0xffffffffu, 65537, 257, 0x9e3779b1u, 3}), b = s.coin() ? static_cast<unsigned>(s.draw(1u << 31)) * 2 : 0;
            return [k, b](size_t i) { return static_cast<int>(static_cast<unsigned>(i) * k + b); };
        };
        std::vector<size_t> vo = order(nv), fo = order(nf);
        auto vid = ids(), fid = ids();
        t.var_at.resize(vo.size());
        t.fac_at.resize(fo.size());
        for (size_t i = 0; i < vo.size(); i++) {
            t.var_tile.push_back(vo[i] / nv);
            t.var_local.push_back(vo[i] % nv);
            t.var_at[vo[i]] = i;
            VarSpec v = one.vars[vo[i] % nv];
            v.id = vid(i);
            t.g.vars.push_back(v);
        }
        for (size_t i = 0; i < fo.size(); i++) {
            size_t tl = fo[i] / nf;
            t.fac_tile.push_back(tl);
            t.fac_local.push_back(fo[i] % nf);
            t.fac_at[fo[i]] = i;
            FacSpec f = one.facs[fo[i] % nf];
            f.id = fid(i);
            for (auto& v : f.v) v = static_cast<int>(t.var(tl, static_cast<size_t>(v)));
            t.g.facs.push_back(f);
        }
        return t;
    }

    // The graph of a specification as a session
    inline void open(Session& t, const GraphSpec& g)
    {
        t.g = g;
        for (auto& v : g.vars) t.ids.insert(v.id);
        for (auto& f : g.facs) t.fids.insert(f.id);
        Built b = build(g);
        t.vars = b.vars;
        t.facs = b.facs;
        t.graph = b.graph;
    }

    // Variables with hundreds of values, differences and slices of them
    inline GraphSpec wide(Src& s, int most)
    {
        GraphSpec g;
        std::set<int> ids, fids;
        int dim = static_cast<int>(s.logu(20, most)), n = s.range(1, 3);
        std::mt19937_64 rng(s.draw(1u << 30));
        auto num = [&] { return 6 * (static_cast<double>(rng() >> 11) / 9007199254740992.0) - 3; };
        auto var = [&](int d, bool constant) {
            VarSpec v;
            v.k = GEN;
            for (int i = 0; i < d; i++) v.x.push_back(num());
            v.id = gen::fresh_id(s, ids);
            v.constant = constant;
            g.vars.push_back(v);
            return static_cast<int>(g.vars.size() - 1);
        };
        auto fac = [&](FK k, std::vector<int> v) {
            FacSpec f;
            f.k = k;
            f.v = v;
            f.id = gen::fresh_id(s, fids);
            f.s1 = s.uniform(0.3, 3);
            if (k == F_PRIOR)
                for (size_t i = 0; i < g.vars[static_cast<size_t>(v[0])].x.size(); i++) f.a.push_back(num());
            if (k == F_VELOCITY) {
                f.d1 = s.pick(std::vector<double>{1, 0.5, -2});
                f.idx0 = s.range(0, dim - static_cast<int>(g.vars[static_cast<size_t>(v[2])].x.size()));
            }
            g.facs.push_back(f);
        };
        for (int i = 0; i < n; i++) {
            int v = var(dim, false);
            fac(F_PRIOR, {v});
            if (i > 0) {
                if (s.coin())
                    fac(F_BETWEEN, {v - 1, v, 0});
                else
                    fac(F_VELOCITY, {v - 1, v, 0});
            }
        }
        // what the differences are measured against
        for (size_t i = 0; i < g.facs.size(); i++) {
            if (g.facs[i].v.size() < 3) continue;
            int len = g.facs[i].k == F_BETWEEN ? dim : s.range(1, dim);
            g.facs[i].v[2] = var(len, s.coin());
            if (g.facs[i].k == F_VELOCITY) g.facs[i].idx0 = s.range(0, dim - len);
            if (!g.vars.back().constant) {
                int w = g.facs[i].v[2];
                fac(F_PRIOR, {w});
            }
        }
        return g;
    }
    // A large session: copies of a random graph, or a few variables with hundreds of values
    inline void session(Src& s, Ctx& c, Session& t, int most, int widest)
    {
        gen::GraphOpt o;
        o.additive = true; // factors whose Jacobians are defined
        o.max_facs = 6;
        t.opt = o;
        if (s.chance(1, 4)) {
            GraphSpec g = wide(s, widest);
            open(t, g);
            if (c.want_text) c.text << "wide: " << g.vars.size() << " variables of " << g.vars[0].x.size() << " values; ";
            c.label("hundreds of values in a variable");
            return;
        }
        GraphSpec one = gen::graph(s, o);
        if (one.facs.empty() || one.vars.empty()) throw Discard{};
        Tiled w = tile(s, one, most);
        open(t, w.g);
        if (c.want_text) c.text << w.text();
        c.label(t.rows() > 32767 ? "more than 32767 residuals" : t.rows() > 2000 ? "thousands of residuals" : "hundreds of residuals");
    }
    // Copies of a well-posed scene, every copy started at its own distance of up to p from the truth
    struct Large
    {
        scene::Scene sc;
        Tiled t;
        Large(Src& s, Ctx& c, scene::Opt so, int most, double p)
        {
            so.max_facs = 4;
            sc = scene::make(s, so);
            int free = 0;
            for (auto& v : sc.g.vars) free += !v.constant;
            if (free == 0) throw Discard{};
            t = tile(s, sc.g, most);
            t.perturb(sc.truth, p);
            if (c.want_text) c.text << t.text() << "each up to " << p << " from the truth; ";
            c.label(t.g.vars.size() > 5000 ? "more than 5000 variables" : t.g.vars.size() > 500 ? "hundreds of variables" : "dozens of variables");
        }
        // One copy by itself, started where it is started among the others
        GraphSpec alone(size_t tile) const
        {
            GraphSpec h = t.one;
            for (size_t l = 0; l < h.vars.size(); l++) h.vars[l].x = t.g.vars[t.var(tile, l)].x;
            return h;
        }
        // The first, the last and some others
        std::vector<size_t> some(Src& s, int n) const
        {
            std::vector<size_t> o{0, t.tiles - 1};
            for (int i = 0; i < n; i++) o.push_back(s.draw(static_cast<uint32_t>(t.tiles)));
            return o;
        }
        // The variable furthest from where it should be, by the states of one copy
        LR worst(const std::vector<VarPtr>& vars, const std::vector<State>& want, size_t& who) const
        {
            LR d = 0;
            for (size_t i = 0; i < vars.size(); i++) {
                LR e = scene::distance(state_of(t.g.vars[i], *vars[i]), want[t.var_local[i]]);
                if (!(e <= d)) {
                    d = e;
                    who = i;
                }
            }
            return d;
        }
        std::string name(size_t i) const
        {
            std::ostringstream o;
            o << "variable #" << i << " of " << t.g.vars.size() << " (" << vk_name(t.g.vars[i].k) << ", copy " << t.var_tile[i] << " of " << t.tiles << ")";
            return o.str();
        }
    };
    // Everything moves
    inline void stir(Src& s, Session& t)
    {
        std::mt19937_64 rng(s.draw(1u << 30));
        for (size_t i = 0; i < t.vars.size(); i++) {
            Vec d(gen::value_size(t.g.vars[i]));
            for (Eigen::Index k = 0; k < d.size(); k++) d[k] = 0.1 * (static_cast<double>(rng() >> 11) / 4503599627370496.0 - 1);
            t.vars[i]->apply_increment(d);
        }
    }
} // namespace giant
