#pragma once
// Environment stub of pagmo::problem: a user defined problem behind a uniform interface, with evaluation counters.
// A harness can replace the evaluations by any landscape it likes (pagmo::stub::land).
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <pagmo/s11n.hpp>
#include <pagmo/threading.hpp>
#include <pagmo/type_traits.hpp>
#include <pagmo/types.hpp>
namespace pagmo
{
namespace stub
{
struct landscape {
    virtual ~landscape() {}
    virtual vector_double fitness(const vector_double &) = 0;
    virtual vector_double gradient(const vector_double &) = 0;
    virtual std::vector<vector_double> hessians(const vector_double &) = 0;
};
inline landscape *land = nullptr;
} // namespace stub
class problem
{
    struct base {
        virtual ~base() {}
        virtual base *clone() const = 0;
        virtual vector_double fitness(const vector_double &) const = 0;
        virtual vector_double gradient(const vector_double &) const = 0;
        virtual std::vector<vector_double> hessians(const vector_double &) const = 0;
        virtual std::vector<sparsity_pattern> hessians_sparsity() const = 0;
        virtual sparsity_pattern gradient_sparsity() const = 0;
        virtual std::pair<vector_double, vector_double> get_bounds() const = 0;
        virtual vector_double::size_type get_nobj() const = 0;
        virtual vector_double::size_type get_nix() const = 0;
        virtual std::string get_name() const = 0;
        virtual const void *get(const std::type_info &) const = 0;
    };
    template <typename T>
    struct inner final : base {
        T v;
        explicit inner(const T &x) : v(x) {}
        base *clone() const override { return new inner(v); }
        vector_double fitness(const vector_double &x) const override { return v.fitness(x); }
        vector_double gradient(const vector_double &x) const override { return v.gradient(x); }
        std::vector<vector_double> hessians(const vector_double &x) const override { return v.hessians(x); }
        std::vector<sparsity_pattern> hessians_sparsity() const override { return v.hessians_sparsity(); }
        sparsity_pattern gradient_sparsity() const override { return v.gradient_sparsity(); }
        std::pair<vector_double, vector_double> get_bounds() const override { return v.get_bounds(); }
        vector_double::size_type get_nobj() const override { return v.get_nobj(); }
        vector_double::size_type get_nix() const override { return v.get_nix(); }
        std::string get_name() const override { return v.get_name(); }
        const void *get(const std::type_info &t) const override { return t == typeid(T) ? &v : nullptr; }
    };
    std::unique_ptr<base> p;
    mutable unsigned long long fe = 0, ge = 0, he = 0;
    vector_double lb, ub;
    void dim(const vector_double &x) const
    {
        if (x.size() != lb.size()) throw std::invalid_argument("decision vector of the wrong dimension");
    }

public:
    template <typename T, std::enable_if_t<!std::is_same<std::decay_t<T>, problem>::value, int> = 0>
    explicit problem(const T &x) : p(new inner<T>(x))
    {
        auto b = p->get_bounds();
        lb = b.first;
        ub = b.second;
    }
    problem(const problem &o) : p(o.p->clone()), fe(o.fe), ge(o.ge), he(o.he), lb(o.lb), ub(o.ub) {}
    problem(problem &&) = default;
    problem &operator=(problem &&) = default;
    problem &operator=(const problem &o) { return *this = problem(o); }
    vector_double fitness(const vector_double &x) const
    {
        dim(x);
        auto r = stub::land ? stub::land->fitness(x) : p->fitness(x);
        ++fe;
        return r;
    }
    vector_double gradient(const vector_double &x) const
    {
        dim(x);
        auto r = stub::land ? stub::land->gradient(x) : p->gradient(x);
        ++ge;
        return r;
    }
    std::vector<vector_double> hessians(const vector_double &x) const
    {
        dim(x);
        auto r = stub::land ? stub::land->hessians(x) : p->hessians(x);
        ++he;
        return r;
    }
    std::vector<sparsity_pattern> hessians_sparsity() const { return p->hessians_sparsity(); }
    sparsity_pattern gradient_sparsity() const { return p->gradient_sparsity(); }
    std::pair<vector_double, vector_double> get_bounds() const { return {lb, ub}; }
    const vector_double &get_lb() const { return lb; }
    const vector_double &get_ub() const { return ub; }
    vector_double::size_type get_nx() const { return lb.size(); }
    vector_double::size_type get_nix() const { return p->get_nix(); }
    vector_double::size_type get_ncx() const { return get_nx() - get_nix(); }
    vector_double::size_type get_nobj() const { return p->get_nobj(); }
    vector_double::size_type get_nf() const { return get_nobj(); }
    vector_double::size_type get_nc() const { return 0u; }
    unsigned long long get_fevals() const { return fe; }
    unsigned long long get_gevals() const { return ge; }
    unsigned long long get_hevals() const { return he; }
    void increment_fevals(unsigned long long n) const { fe += n; }
    bool has_gradient() const { return true; }
    bool has_hessians() const { return true; }
    std::string get_name() const { return p->get_name(); }
    template <typename T>
    const T *extract() const
    {
        return static_cast<const T *>(p->get(typeid(T)));
    }
    template <typename T>
    bool is() const
    {
        return extract<T>() != nullptr;
    }
};
} // namespace pagmo
