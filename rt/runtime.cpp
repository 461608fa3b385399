// The parts of libstdc++ which live in its shared object, in source form, so that the executor can walk them.
#include <exception>
#include <new>
#include <stdexcept>
#include <functional>
#include <memory_resource>
#include <cstring>
#include <cstdlib>
#include <typeinfo>
#include <system_error>
#include <optional>
#include <variant>
#include <bits/stl_tree.h>
#include <bits/functexcept.h>
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
type_info::~type_info() {}
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
const nothrow_t nothrow{};

static const char* dupstr(const char* s, size_t n) { auto p = static_cast<char*>(::operator new(n + 1)); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupstr("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { ::operator delete((void*)_M_p); _M_p = dupstr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { ::operator delete((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupstr("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define VX_EXC(base, cls) \
    cls::cls(const string& s) : base(s) {} \
    cls::cls(const char* s) : base(s) {} \
    cls::~cls() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
VX_EXC(logic_error, domain_error)
VX_EXC(logic_error, invalid_argument)
VX_EXC(logic_error, length_error)
VX_EXC(logic_error, out_of_range)
VX_EXC(runtime_error, range_error)
VX_EXC(runtime_error, overflow_error)
VX_EXC(runtime_error, underflow_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// red-black tree (bits/stl_tree.h), textbook algorithms with the header/leftmost/rightmost conventions of libstdc++
using B = _Rb_tree_node_base;
static B* inc(B* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    B* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static B* dec(B* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    B* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
B* _Rb_tree_increment(B* x) throw() { return inc(x); }
const B* _Rb_tree_increment(const B* x) throw() { return inc(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { return dec(x); }
const B* _Rb_tree_decrement(const B* x) throw() { return dec(const_cast<B*>(x)); }
static void rotl(B* x, B*& root) {
    B* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(B* x, B*& root) {
    B* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
    B*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        B* g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            B* y = g->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
        } else {
            B* y = g->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
        }
    }
    root->_M_color = _S_black;
}
static B* mn(B* x) { while (x->_M_left) x = x->_M_left; return x; }
static B* mx(B* x) { while (x->_M_right) x = x->_M_right; return x; }
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
    B *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    B *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) leftmost = !z->_M_right ? z->_M_parent : mn(x);
        if (rightmost == z) rightmost = !z->_M_left ? z->_M_parent : mx(x);
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                B* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
            } else {
                B* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace pmr {
memory_resource::~memory_resource() = default;
namespace {
struct newdel final : memory_resource {
    void* do_allocate(size_t n, size_t a) override { return ::operator new(n, align_val_t(a)); }
    void do_deallocate(void* p, size_t n, size_t a) override { ::operator delete(p, n, align_val_t(a)); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return &o == this; }
};
struct nullres final : memory_resource {
    void* do_allocate(size_t, size_t) override { throw bad_alloc(); }
    void do_deallocate(void*, size_t, size_t) override {}
    bool do_is_equal(const memory_resource& o) const noexcept override { return &o == this; }
};
newdel g_newdel; nullres g_null; memory_resource* g_default = &g_newdel;
}
memory_resource* new_delete_resource() noexcept { return &g_newdel; }
memory_resource* null_memory_resource() noexcept { return &g_null; }
memory_resource* get_default_resource() noexcept { return g_default; }
memory_resource* set_default_resource(memory_resource* r) noexcept { auto o = g_default; g_default = r ? r : &g_newdel; return o; }
}
}
extern "C" void vx_rt_bad_alloc() { throw std::bad_alloc(); }
// demangled names are cosmetic: the mangled one is handed out
extern "C" char* __cxa_demangle(const char* s, char*, size_t*, int* st) { size_t n = strlen(s); auto p = (char*)malloc(n + 1); memcpy(p, s, n + 1); if (st) *st = 0; return p; }
