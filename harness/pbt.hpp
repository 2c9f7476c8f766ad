// A small property-based testing engine: every random decision is one entry of a choice sequence,
// so a case is replayed from its choices, shrunk by editing them (delete, zero, minimise), mutated by
// a fuzzer, and recovered after a crash from the file-backed record of the choices drawn so far.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt
{
    struct Fail
    {
        std::string msg;
    };
    struct Discard
    {
    };

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    // Shared with the parent through a file mapping: survives a crash of this process.
    struct Record
    {
        uint64_t case_index;
        uint64_t progress; // bumped at every case; the parent's hang watchdog looks at it
        uint64_t n;
        uint32_t c[1 << 16];
    };

    class Src
    {
    public:
        Src(uint64_t seed, Record *rec)
            : state_(mix(seed))
            , rec_(rec)
        {
            if (rec_) rec_->n = 0;
        }
        Src(const std::vector<uint32_t>& replay, Record *rec)
            : in_(replay)
            , replay_(true)
            , rec_(rec)
        {
            if (rec_) rec_->n = 0;
        }

        // A number in [0, n). Zero is the simplest choice. Beyond the end of a replay: zero.
        uint32_t draw(uint32_t n)
        {
            if (out.size() >= (1u << 16) - 1) throw Discard{};
            uint32_t v = 0;
            if (n > 1) {
                if (replay_) {
                    v = pos_ < in_.size() ? in_[pos_] % n : 0;
                } else {
                    state_ += 0x9e3779b97f4a7c15ull;
                    v = static_cast<uint32_t>(mix(state_) >> 32) % n;
                }
            }
            pos_++;
            out.push_back(v);
            if (rec_) {
                rec_->c[rec_->n] = v;
                rec_->n++;
            }
            return v;
        }
        bool coin() { return draw(2) == 1; }
        bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // zero choice: false
        int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); }
        // The length of a history: lo..hi, and once in 500 cases up to `most`
        int length(int lo, int hi, int most) { return chance(1, 500) ? range(hi, most) : range(lo, hi); }
        // Uniform in [0,1)
        double unit()
        {
            return draw(1u << 30) / static_cast<double>(1u << 30);
        }
        double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
        double symmetric(double m)
        {
            double u = unit();
            return coin() ? -m * u : m * u;
        }
        // exp-uniform in [lo, hi]
        double logu(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
        template <typename T>
        const T& pick(const std::vector<T>& v)
        {
            return v[draw(static_cast<uint32_t>(v.size()))];
        }

        std::vector<uint32_t> out;

    private:
        std::vector<uint32_t> in_;
        size_t pos_ = 0;
        bool replay_ = false;
        uint64_t state_ = 0;
        Record *rec_ = nullptr;
    };

    // What one case reports.
    struct Ctx
    {
        bool nontrivial = false;
        bool want_text = false;          // somebody will read the description
        bool thorough = false;
        std::ostringstream text;         // description of the case
        std::vector<std::string> labels; // classes this case belongs to
        std::set<std::string> known;     // known findings that this case ran into
        uint64_t sig = 0;                // structural hash, for counting distinct cases

        void label(const std::string& s) { labels.push_back(s); }
        // A recorded, unrepaired defect: counted when it is listed (PBT_KNOWN), a failure otherwise.
        void finding(const std::string& key, const std::string& msg)
        {
            static const std::string listed = std::string(",") + (std::getenv("PBT_KNOWN") ? std::getenv("PBT_KNOWN") : "") + ",";
            if (listed.find("," + key + ",") == std::string::npos) throw Fail{msg};
            known.insert(key);
        }
        void mixin(uint64_t v) { sig = mix(sig ^ v); }
        void mixin(double v)
        {
            uint64_t b;
            std::memcpy(&b, &v, 8);
            mixin(b);
        }
    };

    [[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

    struct Cat
    {
        std::ostringstream o;
        Cat() { o.precision(17); }
        template <typename T>
        Cat& operator<<(const T& t)
        {
            o << t;
            return *this;
        }
        operator std::string() const { return o.str(); }
    };
#define PBT_REQUIRE(cond, msg)                                                                                         \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream pbt_o_;                                                                                 \
            pbt_o_.precision(17);                                                                                      \
            pbt_o_ << msg;                                                                                             \
            throw pbt::Fail{pbt_o_.str()};                                                                             \
        }                                                                                                              \
    } while (0)

    struct Property
    {
        const char *id;
        const char *rule; // how cases are made, and which are non-trivial
        void (*run)(Src&, Ctx&);
    };

    std::vector<Property>& registry();
    struct Register
    {
        Register(const char *id, const char *rule, void (*run)(Src&, Ctx&)) { registry().push_back({id, rule, run}); }
    };
#define PROPERTY(ID, RULE)                                                                                             \
    static void prop_##ID(pbt::Src& s, pbt::Ctx& c);                                                                   \
    static pbt::Register reg_##ID(#ID, RULE, prop_##ID);                                                               \
    static void prop_##ID([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)
} // namespace pbt
