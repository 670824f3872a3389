// Stand-ins for the functions that live inside libstdc++.so, so that code using these facilities can be analysed. The red-black tree is
// replaced by a plain search tree with the same links (order, leftmost, rightmost and root as the header expects), the hash policy by a
// short list of sizes; clocks read an arbitrary time; waiting on a condition may return at any time.
#pragma once
#include <list>
#include <map>
#include <unordered_map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <pthread.h>
#include "vf.hpp"

namespace vf { __attribute__((weak)) pthread_mutex_t library = PTHREAD_MUTEX_INITIALIZER; }

namespace std
{
    namespace __detail
    {
        inline void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            bool ex = x._M_next == &x, ey = y._M_next == &y;
            _List_node_base a = x, b = y;
            if (ey) { x._M_next = x._M_prev = &x; } else { x._M_next = b._M_next; x._M_prev = b._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
            if (ex) { y._M_next = y._M_prev = &y; } else { y._M_next = a._M_next; y._M_prev = a._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        }
        inline void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this == last) return;
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            this->_M_prev->_M_next = first;
            _List_node_base* const tmp = this->_M_prev;
            this->_M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = tmp;
        }
        inline void _List_node_base::_M_reverse() noexcept
        {
            _List_node_base* t = this;
            do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
        }
        inline void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            this->_M_next = p;
            this->_M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        inline void _List_node_base::_M_unhook() noexcept
        {
            _List_node_base* const n = this->_M_next;
            _List_node_base* const p = this->_M_prev;
            p->_M_next = n;
            n->_M_prev = p;
        }
        inline size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            size_t k = 1;
            for (size_t p : { size_t(1), size_t(2), size_t(5), size_t(13), size_t(29), size_t(59), size_t(127), size_t(257), size_t(541), size_t(1109) })
                if ((k = p) >= n) break;
            const_cast<size_t&>(_M_next_resize) = k;
            return k;
        }
        inline pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
        {
            if (elt + ins <= bkt && !(bkt == 1 && elt == 0)) return { false, 0 };
            size_t want = elt + ins + 1;
            return { true, _M_next_bkt(want > 2 * bkt ? want : 2 * bkt) };
        }
    }

    inline _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw ()
    {
        if (x->_M_right)
        {
            x = x->_M_right;
            while (x->_M_left) x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    inline const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
    inline _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw ()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;      // the header
        if (x->_M_left)
        {
            x = x->_M_left;
            while (x->_M_right) x = x->_M_right;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    inline const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
    inline void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw ()
    {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left)
        {
            p->_M_left = x;
            if (p == &h) { h._M_parent = x; h._M_right = x; }
            else if (p == h._M_left) h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    inline _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw ()
    {
        _Rb_tree_node_base* const next = z == h._M_right ? nullptr : _Rb_tree_increment(z);
        _Rb_tree_node_base* const prev = z == h._M_left ? nullptr : _Rb_tree_decrement(z);
        auto put = [&](_Rb_tree_node_base* from, _Rb_tree_node_base* to)
        {
            if (h._M_parent == from) h._M_parent = to;
            else if (from->_M_parent->_M_left == from) from->_M_parent->_M_left = to;
            else from->_M_parent->_M_right = to;
            if (to) to->_M_parent = from->_M_parent;
        };
        if (!z->_M_left) put(z, z->_M_right);
        else if (!z->_M_right) put(z, z->_M_left);
        else
        {
            if (next->_M_parent != z) { put(next, next->_M_right); next->_M_right = z->_M_right; next->_M_right->_M_parent = next; }
            put(z, next);
            next->_M_left = z->_M_left; next->_M_left->_M_parent = next;
        }
        if (!next) h._M_right = prev ? prev : &h;
        if (!prev) h._M_left = next ? next : &h;
        return z;
    }

    inline _Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&vf::library); }
    inline _Sp_locker::_Sp_locker(const void*, const void*) noexcept { pthread_mutex_lock(&vf::library); }
    inline _Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&vf::library); }

    inline condition_variable::condition_variable() noexcept {}
    inline condition_variable::~condition_variable() {}
    inline void condition_variable::notify_one() noexcept {}
    inline void condition_variable::notify_all() noexcept {}
    inline void condition_variable::wait(unique_lock<mutex>& l) { l.unlock(); l.lock(); }

    namespace chrono { inline namespace _V2 {
        inline steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf_sym("now"))); }
        inline system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf_sym("now"))); }
    } }

    __thread void* __once_callable;
    __thread void (*__once_call)();
}

extern "C" inline void __once_proxy() { std::__once_call(); }
extern "C" inline int pthread_once(pthread_once_t* o, void (*f)(void))
{
    struct G { G() { pthread_mutex_lock(&vf::library); } ~G() { pthread_mutex_unlock(&vf::library); } } g;
    if (!*o) { f(); *o = 1; }
    return 0;
}
