// MemorySanitizer only: the parts of libstdc++ that are compiled into its (uninstrumented) shared
// library and that the drivers use, so that their writes are seen by the sanitizer.
#if defined(__has_feature)
#if __has_feature(memory_sanitizer) && !defined(MSAN_RT_H)
#define MSAN_RT_H
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1 // std::string is compiled here
#include <map>
#include <unordered_set>
namespace std {
typedef _Rb_tree_node_base* NB;
typedef const _Rb_tree_node_base* CNB;
static NB rb_next(NB x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    NB y = x->_M_parent;
    while (x == y->_M_right) x = y, y = y->_M_parent;
    return x->_M_right != y ? y : x;
}
static NB rb_prev(NB x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        NB y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    NB y = x->_M_parent;
    while (x == y->_M_left) x = y, y = y->_M_parent;
    return y;
}
NB _Rb_tree_increment(NB x) throw() { return rb_next(x); }
CNB _Rb_tree_increment(CNB x) throw() { return rb_next(const_cast<NB>(x)); }
NB _Rb_tree_decrement(NB x) throw() { return rb_prev(x); }
CNB _Rb_tree_decrement(CNB x) throw() { return rb_prev(const_cast<NB>(x)); }
static void rot_l(NB x, NB& root)
{
    NB y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rot_r(NB x, NB& root)
{
    NB y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NB x, NB p, _Rb_tree_node_base& h) throw()
{
    NB& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) h._M_parent = h._M_right = x;
        else if (p == h._M_left) h._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        NB g = x->_M_parent->_M_parent;
        bool l = x->_M_parent == g->_M_left;
        NB u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) {
            x->_M_parent->_M_color = u->_M_color = _S_black;
            g->_M_color = _S_red;
            x = g;
        }
        else {
            if (l ? x == x->_M_parent->_M_right : x == x->_M_parent->_M_left) {
                x = x->_M_parent;
                l ? rot_l(x, root) : rot_r(x, root);
            }
            x->_M_parent->_M_color = _S_black;
            g->_M_color = _S_red;
            l ? rot_r(g, root) : rot_l(g, root);
        }
    }
    root->_M_color = _S_black;
}
// no re-balancing: only the order matters
NB _Rb_tree_rebalance_for_erase(NB const z, _Rb_tree_node_base& h) throw()
{
    auto put = [&](NB a, NB b) {
        if (h._M_parent == a) h._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (h._M_left == z) h._M_left = rb_next(z);
    if (h._M_right == z) {
        NB q = z;
        if (q->_M_left) {
            q = q->_M_left;
            while (q->_M_right) q = q->_M_right;
        }
        else q = z->_M_parent;
        h._M_right = q;
    }
    if (!z->_M_left) put(z, z->_M_right);
    else if (!z->_M_right) put(z, z->_M_left);
    else {
        NB y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            put(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        put(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
        y->_M_color = z->_M_color;
    }
    if (h._M_parent) h._M_parent->_M_color = _S_black;
    else h._M_left = h._M_right = &h;
    return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    size_t p = n < 13 ? 13 : n | 1;
    _M_next_resize = p;
    return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        return {true, _M_next_bkt(2 * (ne + ni) + 1)};
    }
    return {false, 0};
}
} // namespace __detail
} // namespace std
#endif
#endif
