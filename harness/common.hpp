#pragma once
#include <dcgp/expression.hpp>
#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>

// an uninterpreted kernel: nothing is known about it but that it is a function of its arguments
struct uf_kernel {
    unsigned id;
    double operator()(const std::vector<double> &in) const
    {
        return sym_uf(id, in.data(), static_cast<uint32_t>(in.size()));
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &id;
    }
};
// records what it is asked to print
struct uf_print {
    unsigned id;
    std::string operator()(const std::vector<std::string> &in) const
    {
        std::string r(1, static_cast<char>('A' + id));
        r += "(";
        for (unsigned i = 0; i < in.size(); ++i) {
            if (i) r += ",";
            r += in[i];
        }
        return r + ")";
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &id;
    }
};
inline std::vector<dcgp::kernel<double>> uf_kernels(unsigned n)
{
    std::vector<dcgp::kernel<double>> r;
    for (unsigned i = 0; i < n; ++i) r.emplace_back(uf_kernel{i}, uf_print{i}, std::string(1, static_cast<char>('A' + i)));
    return r;
}
typedef std::vector<unsigned> uvec;
typedef std::vector<double> dvec;

// geometry of a CGP as a caller sees it, and the reference (specification) structures derived from it alone
struct geom {
    unsigned n, m, r, c, l, nf, neph;
    uvec ar;
    unsigned N() const { return n + neph; }
    unsigned nodes() const { return N() + r * c; }
    unsigned len() const
    {
        unsigned s = m;
        for (auto a : ar) s += r * (1u + a);
        return s;
    }
    unsigned col(unsigned node) const { return (node - N()) / r; }
    unsigned gene(unsigned node) const // position of the function gene of a node
    {
        unsigned cl = col(node), s = 0;
        for (unsigned j = 0; j < cl; ++j) s += r * (1u + ar[j]);
        return s + ((node - N()) % r) * (1u + ar[cl]);
    }
    unsigned outgene(unsigned i) const { return len() - m + i; }
    // kind of a gene: 0 function, 1 connection, 2 output; and its node
    int kind(unsigned g, unsigned &node) const
    {
        if (g >= len() - m) return 2;
        for (node = N(); node < nodes(); ++node)
            if (g >= gene(node) && g <= gene(node) + ar[col(node)]) return g == gene(node) ? 0 : 1;
        return -1;
    }
    void bounds(unsigned g, unsigned &lo, unsigned &hi) const
    {
        unsigned node = 0;
        int k = kind(g, node);
        if (k == 0) {
            lo = 0;
            hi = nf - 1u;
        } else if (k == 1) {
            unsigned cl = col(node);
            hi = N() + cl * r - 1u;
            lo = cl >= l ? N() + r * (cl - l) : 0u;
        } else {
            hi = N() + r * c - 1u;
            lo = c >= l ? N() + r * (c - l) : 0u;
        }
    }
};
