#pragma once
// Environment stub. The selection of the best N individuals is any choice of N different ones when the parameter
// "select" is 1 (the caller has to follow whatever pagmo selects), the first N when it is 2, and non-dominated sorting otherwise (two objectives;
// crowding ties broken by position).
#include <algorithm>
#include <stdexcept>
#include <vector>
#include <pagmo/detail/custom_comparisons.hpp>
#include <pagmo/types.hpp>
extern "C" {
unsigned sym_pick(const char *, unsigned);
unsigned sym_param(const char *, unsigned);
}
namespace pagmo
{
namespace stub
{
struct selection {
    std::vector<vector_double> fs;
    pop_size_t n;
    std::vector<pop_size_t> chosen;
};
inline std::vector<selection> selections, repeat; // the selections made; the ones to repeat, in order, when replaying
} // namespace stub
inline bool pareto_dominance(const vector_double &a, const vector_double &b)
{
    unsigned some = 0, worse = 0;
    for (vector_double::size_type i = 0; i < a.size(); ++i) {
        worse |= static_cast<unsigned>(detail::greater_than_f(a[i], b[i]));
        some |= static_cast<unsigned>(detail::less_than_f(a[i], b[i]));
    }
    return some & ~worse;
}
inline std::vector<pop_size_t> non_dominated_front_2d(const std::vector<vector_double> &fs)
{
    std::vector<pop_size_t> r;
    for (pop_size_t i = 0; i < fs.size(); ++i) {
        bool d = false;
        for (pop_size_t j = 0; j < fs.size() && !d; ++j) d = pareto_dominance(fs[j], fs[i]);
        if (!d) r.push_back(i);
    }
    return r;
}
inline vector_double ideal(const std::vector<vector_double> &fs)
{
    if (fs.empty()) return {};
    auto r = fs[0];
    for (auto &f : fs)
        for (vector_double::size_type i = 0; i < r.size(); ++i)
            if (detail::less_than_f(f[i], r[i])) r[i] = f[i];
    return r;
}
inline vector_double nadir(const std::vector<vector_double> &fs)
{
    if (fs.empty()) return {};
    auto nd = non_dominated_front_2d(fs);
    auto r = fs[nd[0]];
    for (auto k : nd)
        for (vector_double::size_type i = 0; i < r.size(); ++i)
            if (detail::greater_than_f(fs[k][i], r[i])) r[i] = fs[k][i];
    return r;
}
inline std::vector<pop_size_t> select_best_N_mo(const std::vector<vector_double> &fs, pop_size_t N)
{
    if (N == 0u) throw std::invalid_argument("The number of individuals to select must be at least one");
    std::vector<pop_size_t> r;
    std::vector<unsigned> used(fs.size(), 0u);
    auto again = stub::selections.size();
    if (again < stub::repeat.size() && stub::repeat[again].fs.size() == fs.size() && stub::repeat[again].n == N) r = stub::repeat[again].chosen;
    else if (sym_param("select", 1u) == 2u) for (pop_size_t k = 0; k < std::min<pop_size_t>(N, fs.size()); ++k) r.push_back(k);
    else if (sym_param("select", 1u)) {
        for (pop_size_t k = 0; k < std::min<pop_size_t>(N, fs.size()); ++k) {
            unsigned j = sym_pick("selected", static_cast<unsigned>(fs.size() - k)), i = 0;
            for (;; ++i)
                if (!used[i] && j-- == 0u) break;
            used[i] = 1u;
            r.push_back(i);
        }
    } else {
        while (r.size() < std::min<pop_size_t>(N, fs.size())) {
            std::vector<pop_size_t> front;
            for (pop_size_t i = 0; i < fs.size(); ++i) {
                bool d = used[i];
                for (pop_size_t j = 0; j < fs.size() && !d; ++j) d = !used[j] && pareto_dominance(fs[j], fs[i]);
                if (!d) front.push_back(i);
            }
            for (auto i : front) {
                used[i] = 1u;
                if (r.size() < N) r.push_back(i);
            }
        }
    }
    stub::selections.push_back({fs, N, r});
    return r;
}
} // namespace pagmo
