// Runtime model linked with every harness in the engine build: the parts of
// libstdc++/libc that live in shared objects (no source here), written against
// the real headers.  Everything in headers is the real library code.
#include <bits/stl_tree.h>
#include <unordered_map>
#include <map>
#include <list>
#include <string>
#include <stdexcept>
#include <system_error>
#include <new>
#include <typeinfo>
#include <exception>
#include <locale>
#include <iostream>
#include <sstream>
#include <fstream>
#include <bits/basic_file.h>
#include <functional>
#include <memory>
#include <chrono>
#include <ctime>
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <cxxabi.h>
#include "vx.h"

#undef errno
static int vx_errno;
extern "C" int* __errno_location() { return &vx_errno; }
#define VERR (vx_errno)

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}

static const char* vx_cow(const char* s, size_t n)
{
    // [refcount:8][text]
    char* p = (char*)malloc(n + 9);
    *(size_t*)p = 1;
    for (size_t i = 0; i < n; ++i) p[8 + i] = s[i];
    p[8 + n] = 0;
    return p + 8;
}
static void vx_cow_rel(const char* s)
{
    if (!s) return;
    size_t* r = (size_t*)(s - 8);
    if (--*r == 0) free((void*)r);
}
static const char* vx_cow_add(const char* s) { if (s) ++*(size_t*)(s - 8); return s; }
__cow_string::__cow_string() : _M_p(vx_cow("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(vx_cow(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(vx_cow(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(vx_cow_add(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* p = vx_cow_add(o._M_p); vx_cow_rel(_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { vx_cow_rel(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = vx_cow("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define VX_BASE(T)                                                             \
    T::T(const string& s) : _M_msg(s) {}                                       \
    T::T(const char* s) : _M_msg(s, __builtin_strlen(s)) {}                    \
    T::T(T&& o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {}         \
    T& T::operator=(T&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
    T::T(const T& o) noexcept : exception(), _M_msg(o._M_msg) {}               \
    T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; }  \
    T::~T() noexcept {}                                                        \
    const char* T::what() const noexcept { return _M_msg._M_p; }
VX_BASE(logic_error)
VX_BASE(runtime_error)
#define VX_DER(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
VX_DER(domain_error, logic_error)
VX_DER(invalid_argument, logic_error)
VX_DER(length_error, logic_error)
VX_DER(out_of_range, logic_error)
VX_DER(range_error, runtime_error)
VX_DER(overflow_error, runtime_error)
VX_DER(underflow_error, runtime_error)

inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int i) const { return __cow_string(this->message(i)); }
struct vx_category : error_category
{
    const char* n;
    vx_category(const char* s) : n(s) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return string(n) + " error"; }
};
alignas(vx_category) static char vx_cats[3][sizeof(vx_category)];
static bool vx_cats_init;
static const error_category& vx_cat(int i)
{
    if (!vx_cats_init)
    {
        vx_cats_init = true;
        new (vx_cats[0]) vx_category("generic"); new (vx_cats[1]) vx_category("system"); new (vx_cats[2]) vx_category("iostream");
    }
    return *(const vx_category*)vx_cats[i];
}
const error_category& generic_category() noexcept { return vx_cat(0); }
const error_category& system_category() noexcept { return vx_cat(1); }
}
const error_category& iostream_category() noexcept { return vx_cat(2); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
ios_base::failure::failure(const string& s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return runtime_error::what(); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(string(s)); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(string(s)); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_bad_function_call() { throw bad_function_call(); }
}
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }

// ---------------------------------------------------------------- red-black tree, lists, hashing
namespace std {
static _Rb_tree_node_base* vx_inc(_Rb_tree_node_base* x)
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base* vx_dec(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vx_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vx_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vx_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vx_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void vx_rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void vx_rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
    _Rb_tree_node_base*& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left)
    {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red)
    {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left)
        {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else
            {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; vx_rotl(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; vx_rotr(xpp, root);
            }
        }
        else
        {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else
            {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; vx_rotr(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; vx_rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    _Rb_tree_node_base*& root = header._M_parent;
    _Rb_tree_node_base*& leftmost = header._M_left;
    _Rb_tree_node_base*& rightmost = header._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z)
    {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right)
        {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    }
    else
    {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red)
    {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left)
            {
                _Rb_tree_node_base* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; vx_rotl(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else
                {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; vx_rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black;
                    vx_rotl(xp, root); break;
                }
            }
            else
            {
                _Rb_tree_node_base* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; vx_rotr(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else
                {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; vx_rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black;
                    vx_rotr(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l)
    {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* const t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x)
    {
        if (y._M_next != &y)
        {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const unsigned pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 73, 97, 127, 151, 199, 257, 337, 439, 569, 739, 967, 1259, 1627, 2111, 2741, 3557, 4621, 6007, 7817, 10163, 13217, 17183};
    for (unsigned p : pr) if (p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; }
    sym_unsupported("hash table too large");
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize)
    {
        size_t want = elt + ins > (_M_next_resize ? 0 : 11) ? elt + ins : 11;
        if (want > bkt) { size_t m = want > bkt * 2 ? want : bkt * 2; return make_pair(true, _M_next_bkt(m + 1 > m ? m : m)); }
        _M_next_resize = bkt;
        return make_pair(false, (size_t)0);
    }
    return make_pair(false, (size_t)0);
}
}
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }   // any hash function will do
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
}

// ---------------------------------------------------------------- locale, ctype, ios_base
namespace std {
template<> locale::id num_put<char>::id; template<> locale::id num_get<char>::id;
locale::id ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++_S_refcount; return _M_index - 1; }
_Atomic_word locale::id::_S_refcount;
locale::_Impl* locale::_S_classic;
locale::_Impl* locale::_S_global;
locale::facet::~facet() {}
static const locale::facet* vx_facets[32];
alignas(16) static char vx_impl[sizeof(locale::_Impl)];
alignas(16) static char vx_f0[sizeof(ctype<char>)];
alignas(16) static char vx_f1[sizeof(num_put<char>)];
alignas(16) static char vx_f2[sizeof(num_get<char>)];
alignas(16) static char vx_f3[sizeof(codecvt<char, char, mbstate_t>)];
locale::_Impl::_Impl(size_t) throw() : _M_refcount(1), _M_facets(vx_facets), _M_facets_size(32), _M_caches(nullptr), _M_names(nullptr) {}
locale::_Impl::~_Impl() throw() {}
locale::locale() throw()
{
    if (!_S_classic)
    {
        _S_classic = new (vx_impl) _Impl(1);
        vx_facets[std::ctype<char>::id._M_id()] = new (vx_f0) std::ctype<char>(0, false, 1);
        vx_facets[num_put<char>::id._M_id()] = new (vx_f1) num_put<char>(1);
        vx_facets[num_get<char>::id._M_id()] = new (vx_f2) num_get<char>(1);
        vx_facets[codecvt<char, char, mbstate_t>::id._M_id()] = new (vx_f3) codecvt<char, char, mbstate_t>(1);
    }
    _M_impl = _S_classic;
}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char*) { locale l; _M_impl = l._M_impl; }
locale::locale(_Impl* p) throw() : _M_impl(p) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }
alignas(16) static char vx_classic[sizeof(locale)];
const locale& locale::classic() { return *new (vx_classic) locale(); }
locale locale::global(const locale&) { return locale(); }

static ctype_base::mask vx_table[256];
static bool vx_table_init;
const ctype_base::mask* ctype<char>::classic_table() throw()
{
    if (!vx_table_init)
    {
        vx_table_init = true;
        for (int c = 0; c < 128; ++c)
        {
            ctype_base::mask m = 0;
            if (c < 32 || c == 127) m |= cntrl;
            if (c == ' ' || (c >= 9 && c <= 13)) m |= space;
            if (c == ' ' || c == 9) m |= blank;
            if (c >= 'A' && c <= 'Z') m |= upper | alpha;
            if (c >= 'a' && c <= 'z') m |= lower | alpha;
            if (c >= '0' && c <= '9') m |= digit | xdigit;
            if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) m |= xdigit;
            if (c >= 32 && c < 127) m |= print;
            if (c > 32 && c < 127 && !(m & (alpha | digit))) m |= punct;
            vx_table[c] = m;
        }
    }
    return vx_table;
}
ctype<char>::ctype(const mask* t, bool del, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0) { (void)del; }
ctype<char>::~ctype() {}
static char vx_up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static char vx_lo(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
char ctype<char>::do_toupper(char c) const { return vx_up(c); }
char ctype<char>::do_tolower(char c) const { return vx_lo(c); }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b != e; ++b) *b = vx_up(*b); return e; }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b != e; ++b) *b = vx_lo(*b); return e; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }

codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs), _M_c_locale_codecvt(nullptr) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const intern_type* f, const intern_type*, const intern_type*& fn, extern_type* t, extern_type*, extern_type*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, extern_type* t, extern_type*, extern_type*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const extern_type* f, const extern_type*, const extern_type*& fn, intern_type* t, intern_type*, intern_type*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const extern_type* f, const extern_type* e, size_t m) const { size_t d = e - f; return (int)(m < d ? m : d); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { return l; }
void ios_base::_M_move(ios_base& r) noexcept
{
    _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state;
    _M_ios_locale = r._M_ios_locale;
}
void ios_base::_M_swap(ios_base& r) noexcept
{
    std::swap(_M_precision, r._M_precision); std::swap(_M_width, r._M_width); std::swap(_M_flags, r._M_flags); std::swap(_M_exception, r._M_exception); std::swap(_M_streambuf_state, r._M_streambuf_state);
}
bool ios_base::sync_with_stdio(bool) { return true; }

// standard stream objects: output is discarded and input is empty unless a harness sets a buffer
struct vx_nullbuf : streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } streamsize xsputn(const char*, streamsize n) override { return n; } };
}
alignas(16) char vx_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char vx_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char vx_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
alignas(16) char vx_cin[sizeof(std::istream)] __asm__("_ZSt3cin");
alignas(16) static char vx_nb[sizeof(std::vx_nullbuf)];
static bool vx_io_init;
namespace std {
ios_base::Init::Init()
{
    if (vx_io_init) return;
    vx_io_init = true;
    streambuf* nb = new (vx_nb) vx_nullbuf();
    new (vx_cout) ostream(nb); new (vx_cerr) ostream(nb); new (vx_clog) ostream(nb);
    istream* in = new (vx_cin) istream(nb);
    in->tie((ostream*)vx_cout);
    ((ostream*)vx_cerr)->setf(ios_base::unitbuf); ((ostream*)vx_cerr)->tie((ostream*)vx_cout);
}
ios_base::Init::~Init() {}
static ios_base::Init vx_init_streams __attribute__((init_priority(101)));

template<> istream& getline(istream& in, string& str, char delim)
{   // as the generic template
    ios_base::iostate err = ios_base::goodbit;
    size_t n = 0;
    istream::sentry ok(in, true);
    if (ok)
    {
        try
        {
            str.erase();
            int d = char_traits<char>::to_int_type(delim), eof = char_traits<char>::eof();
            int c = in.rdbuf()->sgetc();
            while (c != eof && c != d) { str += char_traits<char>::to_char_type(c); ++n; c = in.rdbuf()->snextc(); }
            if (c == eof) err |= ios_base::eofbit;
            else { ++n; in.rdbuf()->sbumpc(); }
        }
        catch (...) { in.setstate(ios_base::badbit); }
    }
    if (!n) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template<> istream& operator>>(istream& in, string& str)
{
    size_t n = 0;
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, false);
    if (ok)
    {
        str.erase();
        streamsize w = in.width();
        size_t mx = w > 0 ? (size_t)w : str.max_size();
        const ctype<char>& ct = use_facet<ctype<char>>(in.getloc());
        int eof = char_traits<char>::eof(), c = in.rdbuf()->sgetc();
        while (n < mx && c != eof && !ct.is(ctype_base::space, (char)c)) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
        if (n < mx && c == eof) err |= ios_base::eofbit;
        in.width(0);
    }
    if (!n) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template<> istream& istream::getline(char* s, streamsize n, char delim)
{
    _M_gcount = 0;
    ios_base::iostate err = ios_base::goodbit;
    sentry ok(*this, true);
    if (ok)
    {
        int d = (unsigned char)delim, eof = char_traits<char>::eof(), c = rdbuf()->sgetc();
        while (_M_gcount + 1 < n && c != eof && c != d) { *s++ = (char)c; ++_M_gcount; c = rdbuf()->snextc(); }
        if (c == eof) err |= ios_base::eofbit;
        else if (c == d) { ++_M_gcount; rdbuf()->sbumpc(); }
        else err |= ios_base::failbit;
    }
    if (n > 0) *s = 0;
    if (!_M_gcount) err |= ios_base::failbit;
    if (err) setstate(err);
    return *this;
}
template<> istream& istream::ignore(streamsize n)
{
    return ignore(n, char_traits<char>::eof());
}
template<> istream& istream::ignore(streamsize n, int delim)
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (ok && n > 0)
    {
        ios_base::iostate err = ios_base::goodbit;
        int eof = char_traits<char>::eof(), c = rdbuf()->sgetc();
        bool unlimited = n == __gnu_cxx::__numeric_traits<streamsize>::__max;
        while ((unlimited || _M_gcount < n) && c != eof && c != delim) { ++_M_gcount; c = rdbuf()->snextc(); }
        if (unlimited || _M_gcount < n)
        {
            if (c == eof) err |= ios_base::eofbit;
            else if (c == delim) { ++_M_gcount; rdbuf()->sbumpc(); }
        }
        if (err) setstate(err);
    }
    return *this;
}
template<> istream& istream::ignore() { return ignore(1); }

// streambuf helpers that are not templates
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& ineof)
{
    streamsize r = 0; ineof = true; int c = in->sgetc();
    while (c != char_traits<char>::eof()) { c = out->sputc((char)c); if (c == char_traits<char>::eof()) { ineof = false; break; } ++r; c = in->snextc(); }
    return r;
}
}

// ---------------------------------------------------------------- files: an in-memory file system
struct vx_file { std::string name; char data[4096]; size_t size; bool exists; };
static const int VX_NFILES = 4;
static vx_file* vx_files[VX_NFILES];
struct vx_handle { vx_file* f; size_t pos; bool append, rd, wr; };
static vx_file* vx_lookup(const char* n, bool create)
{
    for (int i = 0; i < VX_NFILES; ++i) if (vx_files[i] && vx_files[i]->name == n) return vx_files[i];
    if (!create) return nullptr;
    for (int i = 0; i < VX_NFILES; ++i)
        if (!vx_files[i]) { vx_files[i] = new vx_file(); vx_files[i]->name = n; vx_files[i]->size = 0; vx_files[i]->exists = false; return vx_files[i]; }
    sym_unsupported("too many files");
    return nullptr;
}
extern "C" void vx_file_set(const char* n, const char* d, size_t len)
{
    vx_file* f = vx_lookup(n, true); f->exists = true; f->size = len;
    for (size_t i = 0; i < len; ++i) f->data[i] = d[i];
}
extern "C" long vx_file_get(const char* n, char* d, size_t cap)
{
    vx_file* f = vx_lookup(n, false);
    if (!f || !f->exists) return -1;
    for (size_t i = 0; i < f->size && i < cap; ++i) d[i] = f->data[i];
    return (long)f->size;
}
extern "C" int remove(const char* n) { vx_file* f = vx_lookup(n, false); if (!f || !f->exists) return -1; f->exists = false; f->size = 0; return 0; }
namespace std {
static vx_handle* H(__c_file* f) { return reinterpret_cast<vx_handle*>(f); }
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode m, int)
{
    if (is_open()) return nullptr;
    bool in = m & ios_base::in, out = m & ios_base::out, tr = m & ios_base::trunc, app = m & ios_base::app;
    bool create, trunc;
    if (app) { if (tr) return nullptr; create = true; trunc = false; out = true; }
    else if (out && in) { create = tr; trunc = tr; }
    else if (out) { create = true; trunc = true; }
    else if (in) { if (tr) return nullptr; create = false; trunc = false; }
    else return nullptr;
    vx_file* f = vx_lookup(name, create);
    if (!f || (!f->exists && !create)) return nullptr;
    f->exists = true;
    if (trunc) f->size = 0;
    vx_handle* h = new vx_handle();
    h->f = f; h->pos = 0; h->append = app; h->rd = in; h->wr = out;
    _M_cfile = reinterpret_cast<__c_file*>(h); _M_cfile_created = true;
    return this;
}
__basic_file<char>* __basic_file<char>::close()
{
    if (!_M_cfile) return nullptr;
    delete H(_M_cfile);
    _M_cfile = nullptr;
    return this;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
int __basic_file<char>::fd() throw() { return 3; }
__c_file* __basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n)
{
    vx_handle* h = H(_M_cfile);
    if (!h->wr) return 0;
    if (h->append) h->pos = h->f->size;
    if (h->pos + (size_t)n > sizeof h->f->data) sym_unsupported("file larger than the model's limit");
    while (h->f->size < h->pos) h->f->data[h->f->size++] = 0;
    for (streamsize i = 0; i < n; ++i) h->f->data[h->pos++] = s[i];
    if (h->pos > h->f->size) h->f->size = h->pos;
    return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m)
{ streamsize r = xsputn(a, n); return r == n ? r + xsputn(b, m) : r; }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n)
{
    vx_handle* h = H(_M_cfile);
    if (!h->rd) return -1;
    streamsize r = 0;
    while (r < n && h->pos < h->f->size) s[r++] = h->f->data[h->pos++];
    return r;
}
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw()
{
    vx_handle* h = H(_M_cfile);
    streamoff base = w == ios_base::beg ? 0 : w == ios_base::cur ? (streamoff)h->pos : (streamoff)h->f->size;
    if (base + o < 0) return -1;
    h->pos = (size_t)(base + o);
    return (streamoff)h->pos;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { vx_handle* h = H(_M_cfile); return h->pos < h->f->size ? (streamsize)(h->f->size - h->pos) : 0; }
}

// ---------------------------------------------------------------- libc
extern "C" {
size_t strlen(const char*);
void* memcpy(void*, const void*, size_t);
void* memmove(void*, const void*, size_t);
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
long long llabs(long long x) { return x < 0 ? -x : x; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) ++k; return k; }
char* strtok(char* s, const char* d) { static char* at; if (!s) s = at; s += strspn(s, d); if (!*s) { at = s; return nullptr; } char* e = s + strcspn(s, d); at = *e ? e + 1 : e; *e = 0; return s; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)s + i; return nullptr; }
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    size_t old = 0;
    while (old < n && sym_is_valid_ptr(p, old + 1)) ++old;
    void* r = malloc(n);
    memcpy(r, p, old);
    free(p);
    return r;
}
int pthread_once(int* c, void (*f)(void)) { if (!*c) { *c = 2; f(); } return 0; }
static unsigned long vx_strtoul(const char* s, char** e, int base, unsigned long maxpos, unsigned long maxneg, bool sgn)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    auto hexd = [](char c) -> int { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && hexd(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long mx = neg ? maxneg : maxpos, acc = 0;
    bool any = false, over = false;
    for (;; ++p)
    {
        unsigned d;
        char c = *p;
        if (base <= 10) { if (c < '0' || c >= '0' + base) break; d = (unsigned)(c - '0'); }
        else { int h = hexd(c); if (h >= base) break; d = (unsigned)h; }
        any = true;
        if (!over)
        {
            if (acc > mx / (unsigned)base || acc * (unsigned)base > mx - d) over = true;
            else acc = acc * (unsigned)base + d;
        }
    }
    if (e) *e = (char*)(any ? p : s);
    if (over) { VERR = ERANGE; return sgn ? (neg ? 0ul - mx : mx) : mx; }
    return neg ? 0ul - acc : acc;
}
long strtol(const char* s, char** e, int b) { return (long)vx_strtoul(s, e, b, 0x7fffffffffffffffl, 0x8000000000000000ul, true); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return vx_strtoul(s, e, b, ~0ul, ~0ul, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) { size_t u = 0; int er = 0; double v = sym_parse_double(s, &u, &er); if (er) VERR = ERANGE; if (e) *e = (char*)s + u; return v; }
float strtof(const char* s, char** e) { size_t u = 0; int er = 0; float v = sym_parse_float(s, &u, &er); if (er) VERR = ERANGE; if (e) *e = (char*)s + u; return v; }
double atof(const char* s) { return strtod(s, nullptr); }

static void vx_putn(char* b, size_t cap, size_t& n, char c) { if (n + 1 < cap) b[n] = c; ++n; }
int vsnprintf(char* b, size_t cap, const char* f, va_list ap)
{
    size_t n = 0;
    for (; *f; ++f)
    {
        if (*f != '%') { vx_putn(b, cap, n, *f); continue; }
        ++f;
        bool left = false, zero = false, plus = false, alt = false;
        for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f != ' ') break; }
        int w = 0, pr = -1;
        if (*f == '*') { w = va_arg(ap, int); ++f; if (w < 0) { left = true; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        if (*f == '.') { ++f; pr = 0; if (*f == '*') { pr = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
        int lng = 0;
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') ++lng; else if (*f == 'h') --lng; else if (*f == 'L') lng = 9; else break; }
        char buf[400]; size_t k = 0; const char* out = buf;
        char c = *f;
        if (c == '%') { buf[k++] = '%'; }
        else if (c == 'c') buf[k++] = (char)va_arg(ap, int);
        else if (c == 's') { out = va_arg(ap, const char*); while ((pr < 0 || (int)k < pr) && out[k]) ++k; }
        else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p')
        {
            unsigned long u; bool neg = false; unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
            if (c == 'd' || c == 'i')
            {
                long v = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
                if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v;
                neg = v < 0; u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
            }
            else
            {
                u = lng > 0 || c == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
                if (lng == -1) u = (unsigned short)u; else if (lng == -2) u = (unsigned char)u;
            }
            char t[70]; int dn = 1; unsigned long p = 1;
            while (u / p >= base) { p *= base; ++dn; }
            if (neg) buf[k++] = '-'; else if (plus) buf[k++] = '+';
            if (c == 'p' || (alt && base == 16 && u)) { buf[k++] = '0'; buf[k++] = c == 'X' ? 'X' : 'x'; }
            size_t pre = k; (void)t;
            int minw = pr >= 0 ? pr : (zero && !left ? w - (int)pre : 0);
            for (int i = dn; i < minw; ++i) buf[k++] = '0';
            for (int i = 0; i < dn; ++i) { unsigned d = (unsigned)((u / p) % base); buf[k++] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + (d - 10)); p /= base; }
        }
        else if (c == 'f' || c == 'F' || c == 'e' || c == 'E' || c == 'g' || c == 'G')
        {
            double v = va_arg(ap, double);
            if (plus) sym_unsupported("printf flag");
            sym_fmt_double(buf, sizeof buf, v, c, pr < 0 ? 6 : pr);
            while (buf[k]) ++k;
        }
        else sym_unsupported("printf conversion");
        if (!left) for (size_t i = k; i < (size_t)w; ++i) vx_putn(b, cap, n, zero && c != 's' && c != 'c' ? '0' : ' ');
        for (size_t i = 0; i < k; ++i) vx_putn(b, cap, n, out[i]);
        if (left) for (size_t i = k; i < (size_t)w; ++i) vx_putn(b, cap, n, ' ');
    }
    if (cap) b[n < cap ? n : cap - 1] = 0;
    return (int)n;
}
int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 16, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 16, f, ap); }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fflush(FILE*) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int putchar(int c) { return c; }
int fputc(int c, FILE*) { return c; }
char* getenv(const char*) { return nullptr; }
static bool vx_clock_fixed;
void vx_clock_stop(void) { vx_clock_fixed = true; }
time_t time(time_t* t) { time_t v = (time_t)sym_u32("env.time"); if (t) *t = v; return v; }
clock_t clock() { return (clock_t)(sym_u64("env.clock") >> 2); }
}
namespace std { namespace chrono { inline namespace _V2 {
static unsigned long vx_now()
{
    static unsigned long last;
    if (vx_clock_fixed) return last;
    unsigned long v = sym_u64("env.clock");
    sym_assume(v >= last && v < (1ul << 61));
    last = v;
    return v;
}
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)vx_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)vx_now())); }
} } }
// ---------------------------------------------------------------- std::call_once
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
