#pragma once
// Environment stub of pagmo::not_population_based.
#include <string>
#include <utility>
#include <boost/any.hpp>
#include <pagmo/population.hpp>
#include <pagmo/rng.hpp>
#include <pagmo/s11n.hpp>
#include <pagmo/types.hpp>
namespace pagmo
{
class not_population_based
{
public:
    not_population_based() : m_select(std::string("best")), m_replace(std::string("best")), m_rselect_seed(7u), m_e(7u) {}
    void set_random_sr_seed(unsigned s)
    {
        m_rselect_seed = s;
        m_e.seed(s);
    }
    static void ok(const std::string &s)
    {
        if (s != "best" && s != "worst" && s != "random") throw std::invalid_argument("unknown policy");
    }
    void set_selection(const std::string &s)
    {
        ok(s);
        m_select = s;
    }
    void set_selection(population::size_type n) { m_select = n; }
    boost::any get_selection() const { return m_select; }
    void set_replacement(const std::string &s)
    {
        ok(s);
        m_replace = s;
    }
    void set_replacement(population::size_type n) { m_replace = n; }
    boost::any get_replacement() const { return m_replace; }
    unsigned stub_seed() const { return m_rselect_seed; }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        for (auto *a : {&m_select, &m_replace}) {
            bool s = boost::any_cast<std::string>(a) != nullptr;
            ar << s;
            if (s) ar << boost::any_cast<std::string>(*a);
            else ar << boost::any_cast<population::size_type>(*a);
        }
        ar << m_rselect_seed;
        ar << m_e;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        for (auto *a : {&m_select, &m_replace}) {
            bool s;
            std::string str;
            population::size_type i;
            ar >> s;
            if (s) {
                ar >> str;
                *a = str;
            } else {
                ar >> i;
                *a = i;
            }
        }
        ar >> m_rselect_seed;
        ar >> m_e;
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
    population::size_type index(const boost::any &a, const population &pop) const
    {
        if (pop.size() == 0u) throw std::invalid_argument("empty population");
        if (auto *s = boost::any_cast<std::string>(&a)) {
            if (*s == "best") return pop.best_idx();
            if (*s == "worst") return pop.worst_idx();
            return std::uniform_int_distribution<population::size_type>(0u, pop.size() - 1u)(m_e);
        }
        auto i = boost::any_cast<population::size_type>(a);
        if (i >= pop.size()) throw std::out_of_range("no such individual");
        return i;
    }

protected:
    std::pair<vector_double, vector_double> select_individual(const population &pop) const
    {
        auto i = index(m_select, pop);
        return {pop.get_x()[i], pop.get_f()[i]};
    }
    void replace_individual(population &pop, const vector_double &x, const vector_double &f) const
    {
        pop.set_xf(index(m_replace, pop), x, f);
    }
    boost::any m_select, m_replace;
    unsigned m_rselect_seed;
    mutable detail::random_engine_type m_e;
};
} // namespace pagmo
