// A factor with a wrong Jacobian, and what the Jacobian self-test has to say about a graph.
#pragma once
#include "scene.hpp"
#include "text.hpp"
#include "factorama/numerical_jacobian.hpp"

struct WrongFactor : fg::Factor
{
    enum Kind
    {
        ENTRY,
        SCALED,
        EXTRA_COLUMN,
        MISSING_COLUMN,
        EXTRA_ROW,
        MISSING_BLOCK,
        EXTRA_BLOCK,
        EMPTY_BLOCK,
        CONSTANT_BLOCK,
        NAN_ENTRY,
        INF_ENTRY,
        TRANSPOSED_SIGN,
        NUM
    };
    FacPtr f;
    Kind kind;
    size_t block;
    int r, col;
    double delta;
    WrongFactor(FacPtr inner)
        : f(inner)
    {
        id_ = inner->id();
    }
    int residual_size() const override { return f->residual_size(); }
    void compute_residual(Eigen::Ref<Vec> out) const override { f->compute_residual(out); }
    Vec compute_residual() const override { return f->compute_residual(); }
    void compute_jacobians(std::vector<Mat>& J) const override
    {
        f->compute_jacobians(J);
        Mat& B = J[block];
        auto grow = [&](Eigen::Index m, Eigen::Index n) {
            Mat x = Mat::Zero(m, n);
            x.topLeftCorner(std::min(m, B.rows()), std::min(n, B.cols())) = B.topLeftCorner(std::min(m, B.rows()), std::min(n, B.cols()));
            B = x;
        };
        switch (kind) {
        case ENTRY: B(r, col) += delta; break;
        case SCALED:
        case TRANSPOSED_SIGN: B *= delta; break;
        case EXTRA_COLUMN: grow(B.rows(), B.cols() + 1); break;
        case MISSING_COLUMN: grow(B.rows(), B.cols() - 1); break;
        case EXTRA_ROW: grow(B.rows() + 1, B.cols()); break;
        case MISSING_BLOCK: J.pop_back(); break;
        case EXTRA_BLOCK: J.push_back(Mat::Zero(f->residual_size(), 1)); break;
        case EMPTY_BLOCK: B = Mat(); break;
        case CONSTANT_BLOCK: B = Mat::Zero(f->residual_size(), col); break;
        case NAN_ENTRY: B(r, col) = std::nan(""); break;
        case INF_ENTRY: B(r, col) = std::numeric_limits<double>::infinity(); break;
        default: break;
        }
    }
    std::vector<fg::Variable *> variables() override { return f->variables(); }
    fg::FactorType::FactorTypeEnum type() const override { return f->type(); }
    std::string name() const override { return f->name(); }
};

// The report of detailed_factor_test(tol, verbose), given what it printed and returned.  The factors are judged here anew.
inline void check_self_test_report(const std::string& x, bool verdict, const std::vector<FacPtr>& facs, double tol, bool verbose)
{
    enum Word
    {
        GOOD,
        BAD,
        UNCLEAR
    };
    auto about = [](double shown, double is, double scale) { return std::fabs(shown - is) <= 1e-3 * std::fabs(is) + 1e-5 * scale; };
    size_t sum_at = x.find("=== SUMMARY ===");
    PBT_REQUIRE(sum_at != std::string::npos, "the self-test has no summary:\n" << x);
    std::string sum = x.substr(sum_at);
    // the blocks of the report, by factor
    std::map<size_t, std::string> block;
    long last = -1;
    for (size_t h = x.find("--- Factor "); h != std::string::npos && h < sum_at;) {
        size_t next = x.find("--- Factor ", h + 1);
        std::string body = x.substr(h, std::min(next, sum_at) - h);
        size_t i = static_cast<size_t>(number_after(body, "--- Factor"));
        PBT_REQUIRE(static_cast<long>(i) > last && i < facs.size(), "the report on factor " << i << " follows the one on factor " << last << ":\n" << x);
        last = static_cast<long>(i);
        block[i] = body;
        h = next;
    }
    PBT_REQUIRE(verbose || block.empty(), "the self-test was not to be verbose, and says\n" << x);
    if (verbose) {
        PBT_REQUIRE(number_after(x, "Testing ") == static_cast<double>(facs.size()) && printed_as(number_after(x, "with tolerance"), tol, 1e-5), "a test of " << facs.size() << " factors with tolerance " << tol << " says\n" << x);
    }
    int good = 0, bad = 0;
    for (size_t i = 0; i < facs.size(); i++) {
        auto& f = *facs[i];
        std::vector<Mat> A, N;
        f.compute_jacobians(A);
        fg::ComputeNumericalJacobians(f, N);
        auto vars = f.variables();
        std::vector<Word> w(vars.size(), GOOD);
        Word all = GOOD;
        auto scaled = [&](size_t k) { return std::max(1e-2, N[k].cwiseAbs().maxCoeff() * tol); };
        if (A.size() != vars.size())
            all = BAD;
        else
            for (size_t k = 0; k < vars.size(); k++) {
                if (vars[k]->is_constant())
                    w[k] = A[k].size() ? BAD : GOOD;
                else if (A[k].rows() != N[k].rows() || A[k].cols() != N[k].cols())
                    w[k] = BAD;
                else if (N[k].size()) {
                    Mat d = N[k] - A[k];
                    if (!d.allFinite())
                        w[k] = BAD;
                    else {
                        double e = d.cwiseAbs().maxCoeff(), t = scaled(k);
                        w[k] = std::fabs(e - t) <= 1e-4 * t ? UNCLEAR : e > t ? BAD : GOOD;
                    }
                }
                if (w[k] == BAD || (w[k] == UNCLEAR && all == GOOD)) all = w[k];
            }
        good += all == GOOD;
        bad += all == BAD;
        if (!verbose) continue;
        auto it = block.find(i);
        if (all != UNCLEAR) PBT_REQUIRE((it != block.end()) == (all == BAD), "factor " << i << " is " << (all == BAD ? "wrong" : "right") << ", the report says\n" << x);
        if (it == block.end()) continue;
        const std::string& t = it->second;
        std::string head = t.substr(0, t.find('\n'));
        PBT_REQUIRE(head.find("(" + f.name() + ", ID=" + std::to_string(f.id()) + ")") != std::string::npos, "factor " << i << " is called " << f.name() << ", its id is " << f.id() << "; the report says " << head);
        if (A.size() != vars.size()) {
            PBT_REQUIRE(number_after(t, "analytical:") == static_cast<double>(A.size()) && number_after(t, "numerical:") == static_cast<double>(N.size()), "factor " << i << " has " << A.size() << " blocks, and numerically " << N.size() << "; the report says\n" << t);
            continue;
        }
        std::map<size_t, std::string> part;
        for (size_t p = t.find("FAIL: Variable "); p != std::string::npos;) {
            size_t next = t.find("FAIL: Variable ", p + 1);
            std::string body = t.substr(p, next == std::string::npos ? std::string::npos : next - p);
            part[static_cast<size_t>(number_after(body, "FAIL: Variable"))] += body;
            p = next;
        }
        for (size_t k = 0; k < vars.size(); k++) {
            auto pt = part.find(k);
            if (w[k] != UNCLEAR) PBT_REQUIRE((pt != part.end()) == (w[k] == BAD), "the block of variable " << k << " of factor " << i << " is " << (w[k] == BAD ? "wrong" : "right") << "; the report says\n" << t);
            if (pt == part.end()) continue;
            const std::string& y = pt->second;
            std::string line = y.substr(0, y.find('\n'));
            PBT_REQUIRE(line.find("(" + vars[k]->name() + ", ID=" + std::to_string(vars[k]->id()) + ")") != std::string::npos, "variable " << k << " of factor " << i << " is called " << vars[k]->name() << ", its id is " << vars[k]->id() << "; the report says " << line);
            if (vars[k]->is_constant()) {
                PBT_REQUIRE(line.find("constant") != std::string::npos, "variable " << k << " of factor " << i << " is constant; the report says\n" << line);
            } else if (A[k].rows() != N[k].rows() || A[k].cols() != N[k].cols()) {
                auto da = numbers(" " + [&] { auto q = after_label(y, "Analytical:"); for (auto& ch : q) if (ch == 'x') ch = ' '; return q; }());
                auto dn = numbers(" " + [&] { auto q = after_label(y, "Numerical:"); for (auto& ch : q) if (ch == 'x') ch = ' '; return q; }());
                PBT_REQUIRE(da.size() >= 2 && dn.size() >= 2 && da[0] == A[k].rows() && da[1] == A[k].cols() && dn[0] == N[k].rows() && dn[1] == N[k].cols(), "a block of " << A[k].rows() << "x" << A[k].cols() << " that should have " << N[k].rows() << "x" << N[k].cols() << " is reported as\n" << y);
            } else if ((N[k] - A[k]).allFinite()) {
                Mat d = N[k] - A[k];
                double scale = d.cwiseAbs().maxCoeff();
                PBT_REQUIRE(about(number_after(y, "Max error:"), scale, scale) && about(number_after(y, "scaled tolerance:"), scaled(k), 0) && printed_as(number_after(y, "original tol:"), tol, 1e-5) && about(number_after(y, "|error|:"), d.cwiseAbs().sum(), scale),
                            "numerically\n" << N[k] << "\nanalytically\n" << A[k] << "\nwith tolerance " << tol << " is reported as\n" << y);
                size_t a = y.find("Numerical jacobian:"), b = y.find("Analytical jacobian:"), c = y.find("Diff (numerical - analytical):");
                PBT_REQUIRE(a < b && b < c && c != std::string::npos, "the report does not show the Jacobians:\n" << y);
                auto same = [&](const std::string& z, const Mat& M) {
                    std::vector<double> want;
                    append(want, M);
                    auto got = numbers(z);
                    bool ok = got.size() == want.size();
                    for (size_t m = 0; ok && m < want.size(); m++) ok = about(got[m], want[m], std::max(1e-3, M.cwiseAbs().maxCoeff()));
                    return ok;
                };
                PBT_REQUIRE(same(y.substr(a, b - a), N[k]) && same(y.substr(b, c - b), A[k]) && same(y.substr(c + 30), d), "numerically\n" << N[k] << "\nanalytically\n" << A[k] << "\nis reported as\n" << y);
            }
        }
    }
    int n = static_cast<int>(facs.size());
    auto two = [&](const char *label) {
        auto q = after_label(sum, label);
        for (auto& ch : q)
            if (ch == '/') ch = ' ';
        auto v = numbers(" " + q);
        PBT_REQUIRE(v.size() >= 2 && v[1] == n, "a test of " << n << " factors ends with\n" << sum);
        return static_cast<int>(v[0]);
    };
    int passed = two("passed:"), failed = two("failed:");
    PBT_REQUIRE(passed + failed == n && passed >= good && failed >= bad, "a test of " << n << " factors of which " << good << " are right and " << bad << " wrong ends with\n" << sum);
    PBT_REQUIRE(verdict == (failed == 0) && (sum.find("ALL FACTORS PASSED") != std::string::npos) == verdict, "a test with " << failed << " failures returns " << verdict << " and says\n" << sum);
    if (!verdict) PBT_REQUIRE(number_after(sum.substr(sum.find('\n', sum.find("failed:")) ), "\n") == failed, "a test with " << failed << " failures says\n" << sum);
}
