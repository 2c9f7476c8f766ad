// Looking into printed text.
#pragma once
#include "pbt.hpp"
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>

// Every number in a text
inline std::vector<double> numbers(const std::string& t)
{
    std::vector<double> out;
    size_t i = 0;
    while (i < t.size()) {
        bool starts = std::isdigit(static_cast<unsigned char>(t[i])) || ((t[i] == '-' || t[i] == '+' || t[i] == '.') && i + 1 < t.size() && (std::isdigit(static_cast<unsigned char>(t[i + 1])) || t[i + 1] == '.'));
        if (starts && (i == 0 || !(std::isalnum(static_cast<unsigned char>(t[i - 1])) || t[i - 1] == '_'))) {
            char *end = nullptr;
            double v = std::strtod(t.c_str() + i, &end);
            size_t used = static_cast<size_t>(end - (t.c_str() + i));
            if (used > 0) {
                out.push_back(v);
                i += used;
                continue;
            }
        }
        i++;
    }
    return out;
}
inline bool printed_as(double shown, double is, double rel)
{
    return std::fabs(shown - is) <= rel * std::max(std::fabs(is), 1e-300) || (std::fabs(is) < 1e-300 && std::fabs(shown) < 1e-300);
}
// the expected numbers appear among the shown ones, in this order
inline bool in_order(const std::vector<double>& shown, const std::vector<double>& want, double rel)
{
    size_t j = 0;
    for (double w : want) {
        while (j < shown.size() && !printed_as(shown[j], w, rel)) j++;
        if (j++ >= shown.size()) return false;
    }
    return true;
}
inline std::string after_label(const std::string& t, const std::string& label)
{
    size_t i = t.find(label);
    if (i == std::string::npos) return "";
    i += label.size();
    size_t e = t.find('\n', i);
    return t.substr(i, e == std::string::npos ? std::string::npos : e - i);
}
inline double number_after(const std::string& t, const std::string& label)
{
    auto v = numbers(" " + after_label(t, label));
    PBT_REQUIRE(!v.empty(), "no number after \"" << label << "\" in:\n" << t);
    return v[0];
}
template <typename M>
void append(std::vector<double>& v, const M& m)
{
    for (Eigen::Index i = 0; i < m.rows(); i++)
        for (Eigen::Index j = 0; j < m.cols(); j++) v.push_back(m(i, j));
}
