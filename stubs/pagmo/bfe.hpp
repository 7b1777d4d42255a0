#pragma once
// Environment stub: a batch evaluator returns the concatenated fitness vectors of the points of the batch.
#include <pagmo/problem.hpp>
namespace pagmo
{
namespace stub
{
inline std::vector<unsigned> batches; // the evaluators used
}
class bfe
{
public:
    unsigned id = 0;
    bfe() = default;
    explicit bfe(unsigned i) : id(i) {}
    vector_double operator()(const problem &p, const vector_double &dvs) const
    {
        stub::batches.push_back(id);
        auto d = p.get_nx();
        if (d == 0u || dvs.size() % d) throw std::invalid_argument("bfe: the size of the batch is not a multiple of the dimension");
        vector_double r;
        for (vector_double::size_type i = 0; i < dvs.size() / d; ++i) {
            auto f = p.fitness(vector_double(dvs.data() + i * d, dvs.data() + (i + 1u) * d));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &id;
    }
};
} // namespace pagmo
