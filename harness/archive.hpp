#pragma once
// An archive in memory, for the serialization of the code under test: it keeps the sequence of items it is given, typed,
// and gives them back in that order. Polymorphic objects are transported as clones. Engines are transported whole (as
// their textual state would). A load may be made to fail at any item.
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <dcgp/function.hpp>
namespace boost::serialization // the registration of base classes, for polymorphic pointers only
{
template <class D, class B>
const void_cast_detail::void_caster &void_cast_register(D const *, B const *)
{
    static char none;
    return reinterpret_cast<const void_cast_detail::void_caster &>(none);
}
} // namespace boost::serialization
struct broken_archive : std::runtime_error {
    broken_archive() : std::runtime_error("the archive fails") {}
};
struct item {
    int kind;
    uint64_t u;
    double d;
    std::string s;
    std::shared_ptr<void> p;
};
struct items {
    std::vector<item> v;
    std::size_t pos = 0, fail = ~std::size_t(0);
    void put(int kind, uint64_t u, double d = 0., std::string s = {}, std::shared_ptr<void> p = {}) { v.push_back({kind, u, d, s, p}); }
    item &get(int kind)
    {
        if (pos == fail) throw broken_archive();
        sym_check(pos < v.size() && v[pos].kind == kind, "what is loaded is what was saved, in the same order");
        return v[pos++];
    }
};
struct archive_out {
    typedef boost::mpl::bool_<true> is_saving;
    typedef boost::mpl::bool_<false> is_loading;
    items &it;
    explicit archive_out(items &i) : it(i) {}
    template <typename T>
    archive_out &operator<<(const T &x)
    {
        put(x);
        return *this;
    }
    template <typename T>
    archive_out &operator&(const T &x)
    {
        put(x);
        return *this;
    }
    template <typename T>
    void put(const T &x)
    {
        if constexpr (std::is_integral<T>::value) it.put(1, static_cast<uint64_t>(x));
        else if constexpr (std::is_enum<T>::value) it.put(2, static_cast<uint64_t>(x));
        else if constexpr (std::is_floating_point<T>::value) it.put(3, 0u, x);
        else if constexpr (std::is_same<T, std::string>::value) it.put(4, 0u, 0., x);
        else if constexpr (std::is_same<T, std::mt19937>::value) it.put(5, 0u, 0., {}, std::make_shared<T>(x));
        else put2(x);
    }
    template <typename T>
    void put2(const T &x)
    {
        boost::serialization::access::serialize(*this, const_cast<T &>(x), 0u);
    }
    template <typename T>
    void put2(const std::vector<T> &x)
    {
        it.put(6, x.size());
        for (const T &y : x) put(y);
    }
    template <typename T, typename U>
    void put2(const std::pair<T, U> &x)
    {
        put(x.first);
        put(x.second);
    }
    template <typename... T>
    void put2(const std::tuple<T...> &x)
    {
        std::apply([this](const T &...y) { (put(y), ...); }, x);
    }
    template <typename M>
    void map(const M &x)
    {
        it.put(7, x.size());
        for (auto &y : x) put2(y);
    }
    template <typename K, typename U>
    void put2(const std::map<K, U> &x) { map(x); }
    template <typename K, typename U>
    void put2(const std::unordered_map<K, U> &x) { map(x); }
    template <typename T>
    void put2(const boost::optional<T> &x)
    {
        it.put(8, static_cast<uint64_t>(static_cast<bool>(x)));
        if (x) put(*x);
    }
    template <typename R, typename... A>
    void put2(const std::unique_ptr<dcgp::detail::function_inner_base<R, A...>> &x)
    {
        typedef dcgp::detail::function_inner_base<R, A...> base;
        it.put(9, x ? 1u : 0u, 0., {}, x ? std::shared_ptr<base>(x->clone()) : std::shared_ptr<base>());
    }
};
struct archive_in {
    typedef boost::mpl::bool_<false> is_saving;
    typedef boost::mpl::bool_<true> is_loading;
    items &it;
    explicit archive_in(items &i) : it(i) {}
    template <typename T>
    archive_in &operator>>(T &x)
    {
        get(x);
        return *this;
    }
    template <typename T>
    archive_in &operator&(T &x)
    {
        get(x);
        return *this;
    }
    template <typename T>
    void get(T &x)
    {
        if constexpr (std::is_integral<T>::value) x = static_cast<T>(it.get(1).u);
        else if constexpr (std::is_enum<T>::value) x = static_cast<T>(it.get(2).u);
        else if constexpr (std::is_floating_point<T>::value) x = it.get(3).d;
        else if constexpr (std::is_same<T, std::string>::value) x = it.get(4).s;
        else if constexpr (std::is_same<T, std::mt19937>::value) x = *static_cast<T *>(it.get(5).p.get());
        else get2(x);
    }
    template <typename T>
    void get2(T &x)
    {
        boost::serialization::access::serialize(*this, x, 0u);
    }
    template <typename T>
    void get2(std::vector<T> &x)
    {
        auto n = it.get(6).u;
        x.resize(n);
        for (auto &&y : x) get(y);
    }
    template <typename T, typename U>
    void get2(std::pair<T, U> &x)
    {
        get(x.first);
        get(x.second);
    }
    template <typename... T>
    void get2(std::tuple<T...> &x)
    {
        std::apply([this](T &...y) { (get(y), ...); }, x);
    }
    template <typename K, typename U, typename M>
    void map(M &x)
    {
        auto n = it.get(7).u;
        x.clear();
        for (; n-- > 0u;) {
            std::pair<K, U> y;
            get2(y);
            x.insert(y);
        }
    }
    template <typename K, typename U>
    void get2(std::map<K, U> &x) { map<K, U>(x); }
    template <typename K, typename U>
    void get2(std::unordered_map<K, U> &x) { map<K, U>(x); }
    template <typename T>
    void get2(boost::optional<T> &x)
    {
        if (it.get(8).u) {
            T y;
            get(y);
            x = std::move(y);
        } else x = boost::none;
    }
    template <typename R, typename... A>
    void get2(std::unique_ptr<dcgp::detail::function_inner_base<R, A...>> &x)
    {
        auto *p = static_cast<dcgp::detail::function_inner_base<R, A...> *>(it.get(9).p.get());
        x = p ? p->clone() : nullptr;
    }
};
// what is loaded of what was saved
template <typename T>
inline void reload(const T &from, T &to)
{
    items it;
    archive_out o(it);
    o << from;
    archive_in i(it);
    i >> to;
    sym_check(it.pos == it.v.size(), "all that was saved is loaded");
}
