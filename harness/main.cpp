#include "fakeclock.hpp"
#include "pbt.hpp"
#include <atomic>
#include <chrono>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

// These take the place of libstdc++'s.
static std::atomic<int> fake_clocks{0};
static std::atomic<long long> fake_ns{1000000000LL * 1000000}, fake_tick{0}, fake_date{0};
static long long read_clock(clockid_t id)
{
    if (fake_clocks) return (fake_ns += fake_tick) + (id == CLOCK_REALTIME ? fake_date.load() : 0);
    timespec t;
    clock_gettime(id, &t);
    return t.tv_sec * 1000000000LL + t.tv_nsec;
}
namespace std
{
    namespace chrono
    {
        inline namespace _V2
        {
            system_clock::time_point system_clock::now() noexcept { return time_point(duration(read_clock(CLOCK_REALTIME))); }
            steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(read_clock(CLOCK_MONOTONIC))); }
        } // namespace _V2
    } // namespace chrono
} // namespace std
FakeClock::FakeClock(long long tick)
{
    fake_ns = 1000000000LL * 1000000;
    fake_date = 0;
    fake_tick = tick;
    fake_clocks++;
}
FakeClock::~FakeClock() { fake_clocks--; }
void FakeClock::pass(long long ns) { fake_ns += ns; }
void FakeClock::set_date(long long ns) { fake_date += ns; }

namespace pbt
{
    std::vector<Property>& registry()
    {
        static std::vector<Property> r;
        return r;
    }
} // namespace pbt

using namespace pbt;

enum class Outcome
{
    pass,
    fail,
    discard
};

static Outcome run_case(const Property& p, Src& s, Ctx& c, std::string& msg)
{
    try {
        p.run(s, c);
        return Outcome::pass;
    } catch (const Fail& f) {
        msg = f.msg;
        return Outcome::fail;
    } catch (const Discard&) {
        return Outcome::discard;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return Outcome::fail;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return Outcome::fail;
    }
}

static const Property *find(const std::string& id)
{
    for (auto& p : registry())
        if (id == p.id) return &p;
    return nullptr;
}

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static bool smaller(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

struct Shrinker
{
    const Property& p;
    Record *rec;
    std::vector<uint32_t> best;
    std::string msg;
    int runs = 0;
    double deadline;
    bool thorough;

    bool attempt(std::vector<uint32_t> cand)
    {
        if (runs >= 6000 || now() > deadline) return false;
        runs++;
        if (rec) rec->progress++;
        Src s(cand, rec);
        Ctx c;
        c.thorough = thorough;
        std::string m;
        if (run_case(p, s, c, m) != Outcome::fail) return false;
        if (!smaller(s.out, best)) return false;
        best = s.out;
        msg = m;
        return true;
    }
    void shrink()
    {
        bool improved = true;
        while (improved && runs < 6000 && now() < deadline) {
            improved = false;
            for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
                for (size_t i = best.size(); i-- > 0;) {
                    if (i + len > best.size()) continue;
                    std::vector<uint32_t> cand(best.begin(), best.begin() + i);
                    cand.insert(cand.end(), best.begin() + i + len, best.end());
                    if (attempt(cand)) improved = true;
                }
            }
            for (size_t len : {16, 8, 4, 2, 1}) {
                for (size_t i = 0; i + len <= best.size(); i++) {
                    bool any = false;
                    for (size_t k = i; k < i + len; k++) any |= best[k] != 0;
                    if (!any) continue;
                    std::vector<uint32_t> cand = best;
                    for (size_t k = i; k < i + len; k++) cand[k] = 0;
                    if (attempt(cand)) improved = true;
                }
            }
            for (size_t i = 0; i < best.size(); i++) {
                uint32_t lo = 0;
                while (i < best.size() && best[i] > lo) { // smallest failing value, assuming monotony
                    std::vector<uint32_t> cand = best;
                    cand[i] = lo + (best[i] - lo) / 2;
                    if (attempt(cand)) {
                        improved = true;
                    } else {
                        if (cand[i] == lo) {
                            lo++;
                            if (lo > 4) break;
                        } else {
                            lo = cand[i] + 1;
                        }
                    }
                    if (runs >= 6000 || now() > deadline) break;
                }
            }
        }
    }
};

static std::string json(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch < 32 || ch >= 127) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o + "\"";
}

static Record *open_record(const std::string& path)
{
    int fd = ::open(path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0) return nullptr;
    if (::ftruncate(fd, sizeof(Record)) != 0) return nullptr;
    void *m = ::mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    return m == MAP_FAILED ? nullptr : static_cast<Record *>(m);
}

#ifdef PBT_FUZZER
// Coverage-guided search over the same choice sequences.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static const Property *p = find(std::getenv("PBT_ID") ? std::getenv("PBT_ID") : "");
    static bool quiet = (std::freopen("/dev/null", "w", stdout), true);
    (void)quiet;
    if (!p) std::abort();
    std::vector<uint32_t> v(size / 4);
    if (!v.empty()) std::memcpy(v.data(), data, v.size() * 4);
    Src s(v, nullptr);
    Ctx c;
    c.thorough = true;
    std::string msg;
    if (run_case(*p, s, c, msg) == Outcome::fail) {
        std::fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
        std::abort();
    }
    return 0;
}
#else
int main(int argc, char **argv)
{
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    const Property *p = find(o["--id"]);
    if (!p) {
        std::fprintf(stderr, "no property %s in this binary\n", o["--id"].c_str());
        return 2;
    }
    Record *rec = o.count("--rec") ? open_record(o["--rec"]) : nullptr;
    const bool thorough = o["--tier"] == "thorough";

    // The library talks on stdout and stderr; the results go to files.
    if (!o.count("--loud")) {
        if (!std::freopen("/dev/null", "w", stdout)) return 2;
#if !defined(__SANITIZE_ADDRESS__)
        if (mode == "run" && !std::freopen("/dev/null", "w", stderr)) return 2;
#else
        std::cerr.setstate(std::ios::badbit);
#endif
    }

    if (mode == "replay") {
        std::vector<uint32_t> v;
        std::ifstream f(o["--choices"]);
        for (uint32_t x; f >> x;) v.push_back(x);
        Src s(v, rec);
        Ctx c;
        c.want_text = true;
        c.thorough = thorough;
        std::string msg;
        Outcome r = run_case(*p, s, c, msg);
        if (o.count("--out")) {
            std::ofstream w(o["--out"]);
            w << "{\"outcome\": \"" << (r == Outcome::fail ? "fail" : r == Outcome::pass ? "pass" : "discard")
              << "\", \"message\": " << json(msg) << ", \"case\": " << json(c.text.str()) << "}\n";
        }
        return r == Outcome::fail ? 1 : 0;
    }

    const uint64_t seed = std::strtoull(o["--seed"].c_str(), nullptr, 10);
    const uint64_t start = std::strtoull(o["--start"].c_str(), nullptr, 10);
    const uint64_t stride = std::strtoull(o["--stride"].c_str(), nullptr, 10);
    const uint64_t count = std::strtoull(o["--count"].c_str(), nullptr, 10);
    const double deadline = now() + std::strtod(o["--seconds"].c_str(), nullptr);
    uint64_t idh = 1469598103934665603ull;
    for (const char *q = p->id; *q; q++) idh = (idh ^ static_cast<uint64_t>(*q)) * 1099511628211ull;

    uint64_t evals = 0, discards = 0, max_choices = 0;
    std::unordered_set<uint64_t> nontrivial;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> known;
    std::vector<std::string> samples;
    bool failed = false;
    std::string fail_msg, fail_text;
    std::vector<uint32_t> fail_choices;
    bool out_of_time = false;
    uint64_t next_sample = 0;

    for (uint64_t i = start; i < count; i += stride) {
        if (now() > deadline) {
            out_of_time = true;
            break;
        }
        if (rec) {
            rec->case_index = i;
            rec->progress++;
        }
        Src s(mix(seed * 0x100000001b3ull + idh) + i * 0x9e3779b97f4a7c15ull, rec);
        Ctx c;
        c.thorough = thorough;
        c.want_text = evals >= next_sample && samples.size() < 3;
        std::string msg;
        Outcome r = run_case(*p, s, c, msg);
        if (r == Outcome::discard) {
            discards++;
            continue;
        }
        evals++;
        if (s.out.size() > max_choices) max_choices = s.out.size();
        for (auto& l : c.labels) labels[l]++;
        for (auto& k : c.known) known[k]++;
        if (c.nontrivial) {
            uint64_t h = c.sig;
            for (uint32_t v : s.out) h = mix(h ^ v);
            nontrivial.insert(h);
            if (c.want_text) {
                std::string t = c.text.str();
                if (t.size() > 1500) t = t.substr(0, 1500) + " ...";
                samples.push_back(t);
                next_sample = evals * 5 + 3;
            }
        }
        if (r == Outcome::fail) {
            failed = true;
            Shrinker sh{*p, rec, s.out, msg, 0, now() + 25.0, thorough};
            sh.shrink();
            fail_choices = sh.best;
            fail_msg = sh.msg;
            break;
        }
    }
    if (rec) rec->progress = ~0ull;
    std::ofstream w(o["--out"]);
    w << "{\"evaluations\": " << evals << ", \"discards\": " << discards << ", \"max_choices\": " << max_choices
      << ", \"out_of_time\": " << (out_of_time ? "true" : "false") << ", \"rule\": " << json(p->rule);
    w << ", \"labels\": {";
    const char *sep = "";
    for (auto& l : labels) {
        w << sep << json(l.first) << ": " << l.second;
        sep = ", ";
    }
    w << "}, \"known\": {";
    sep = "";
    for (auto& l : known) {
        w << sep << json(l.first) << ": " << l.second;
        sep = ", ";
    }
    w << "}, \"samples\": [";
    sep = "";
    for (auto& l : samples) {
        w << sep << json(l);
        sep = ", ";
    }
    w << "], \"failed\": " << (failed ? "true" : "false") << ", \"message\": " << json(fail_msg) << ", \"choices\": [";
    sep = "";
    for (uint32_t v : fail_choices) {
        w << sep << v;
        sep = ", ";
    }
    w << "]}\n";
    w.close();
    std::ofstream h(o["--out"] + ".sigs", std::ios::binary);
    for (uint64_t v : nontrivial) h.write(reinterpret_cast<const char *>(&v), 8);
    h.close();
    std::fflush(nullptr);
    _exit(failed ? 1 : 0);
}
#endif
