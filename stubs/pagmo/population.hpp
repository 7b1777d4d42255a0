#pragma once
// Environment stub of pagmo::population (unconstrained problems).
#include <algorithm>
#include <stdexcept>
#include <vector>
#include <pagmo/detail/custom_comparisons.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/rng.hpp>
#include <pagmo/types.hpp>
namespace pagmo
{
class population
{
    problem m_prob;
    std::vector<unsigned long long> m_ID;
    std::vector<vector_double> m_x, m_f;
    unsigned long long m_next = 0;
    void dims(const vector_double &x, const vector_double &f) const
    {
        if (f.size() != m_prob.get_nf()) throw std::invalid_argument("fitness of the wrong dimension");
        if (x.size() != m_prob.get_nx()) throw std::invalid_argument("decision vector of the wrong dimension");
    }
    void single() const
    {
        if (m_x.empty()) throw std::overflow_error("empty population");
        if (m_prob.get_nobj() > 1u) throw std::invalid_argument("the best individual exists for a single objective only");
    }

public:
    typedef pop_size_t size_type;
    explicit population(const problem &p) : m_prob(p) {}
    const problem &get_problem() const { return m_prob; }
    problem &get_problem() { return m_prob; }
    size_type size() const { return m_x.size(); }
    const std::vector<vector_double> &get_x() const { return m_x; }
    const std::vector<vector_double> &get_f() const { return m_f; }
    const std::vector<unsigned long long> &get_ID() const { return m_ID; }
    void push_back(const vector_double &x) { push_back(x, m_prob.fitness(x)); }
    void push_back(const vector_double &x, const vector_double &f)
    {
        dims(x, f);
        m_ID.push_back(m_next++);
        m_x.push_back(x);
        m_f.push_back(f);
    }
    void set_xf(size_type i, const vector_double &x, const vector_double &f)
    {
        if (i >= size()) throw std::invalid_argument("no such individual");
        dims(x, f);
        m_x[i] = x;
        m_f[i] = f;
    }
    void set_x(size_type i, const vector_double &x) { set_xf(i, x, m_prob.fitness(x)); }
    size_type best_idx() const
    {
        single();
        auto l = [](const vector_double &a, const vector_double &b) { return detail::less_than_f(a[0], b[0]); };
        return static_cast<size_type>(std::min_element(m_f.begin(), m_f.end(), l) - m_f.begin());
    }
    size_type worst_idx() const
    {
        single();
        auto l = [](const vector_double &a, const vector_double &b) { return detail::less_than_f(a[0], b[0]); };
        return static_cast<size_type>(std::max_element(m_f.begin(), m_f.end(), l) - m_f.begin());
    }
    vector_double champion_x() const { return m_x[best_idx()]; }
    vector_double champion_f() const { return m_f[best_idx()]; }
};
} // namespace pagmo
