// Bitcode run-time for the symbolic build: the out-of-line parts of libstdc++ that the code under test may call.
// Behaviour of the containers is what matters, so the implementations are the simplest correct ones.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
extern "C" int sym_rng_mode;
int sym_rng_mode = 0;
namespace std
{
// an unbalanced binary search tree satisfies the container contract (only complexity differs)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        auto *y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        auto *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        auto *y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        auto *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            repl(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        repl(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    auto *r = h._M_parent;
    if (!r) {
        h._M_left = h._M_right = &h;
    } else {
        auto *a = r;
        while (a->_M_left) a = a->_M_left;
        h._M_left = a;
        a = r;
        while (a->_M_right) a = a->_M_right;
        h._M_right = a;
    }
    return z;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    auto *n = _M_next, *p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
{
    static const std::size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
    for (auto p : pr)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    return n | 1;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const
{
    if (elt + ins > bkt || (bkt == 1 && elt + ins >= 1)) {
        std::size_t want = elt + ins + 1;
        if (want < 2 * bkt) want = 2 * bkt;
        return {true, _M_next_bkt(want)};
    }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    auto *c = static_cast<const unsigned char *>(p);
    size_t h = seed ^ 1469598103934665603ULL;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
    return h;
}
} // namespace std
// std::string members that libstdc++ keeps out of line
template class std::basic_string<char>;
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(const std::string &, const std::string &);
