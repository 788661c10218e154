// self-contained instrumented element and allocator for demonstrations
#ifndef PROBE_HPP
#define PROBE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <map>
#include <vector>
#include <algorithm>
#include <nestl/config.hpp>
#include <nestl/type_traits.hpp>
#include <nestl/no_exceptions/errc_based_error.hpp>
typedef nestl::no_exceptions::errc_based_error Err;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::fflush(stdout); ++fails; } } while (0)
static std::set<const void*> g_live;
static long g_fault = -1;                 // countdown to the failing operation
static bool fault() { if (g_fault < 0) return false; return g_fault-- == 0; }
struct T {
    int v;
    T() noexcept : v(0) { CHECK(g_live.insert(this).second); }
    ~T() noexcept { CHECK(g_live.erase(this) == 1); v = -1; }
    T(const T&) = delete; T& operator=(const T&) = delete;
};
inline bool operator==(const T& a, const T& b) { return a.v / 100 == b.v / 100; }
inline bool operator<(const T& a, const T& b) { return a.v / 100 < b.v / 100; }
struct X { T t; explicit X(int v) { t.v = v; } };
namespace nestl {
template <> struct two_phase_initializator<T> {
    static void init(Err& e, T& d, const T& s) noexcept { CHECK(g_live.count(&s)); if (fault()) { build_bad_alloc(e); return; } d.v = s.v; }
};
}
struct Blk { int id; size_t n; };
static std::map<void*, Blk> g_blocks;
template <typename U> struct Alloc {
    typedef U value_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <typename W> struct rebind { typedef Alloc<W> other; };
    int id;
    Alloc() noexcept : id(0) {} explicit Alloc(int i) noexcept : id(i) {}
    Alloc(const Alloc& o) noexcept : id(o.id) {} template <typename W> Alloc(const Alloc<W>& o) noexcept : id(o.id) {}
    Alloc& operator=(const Alloc& o) noexcept { id = o.id; return *this; }
    template <typename OE> U* allocate(OE& e, size_t n, const void* = 0) noexcept {
        if (fault()) { build_bad_alloc(e); return nullptr; }
        void* p = std::malloc(n * sizeof(U) + 1); g_blocks[p] = Blk{id, n}; return static_cast<U*>(p); }
    void deallocate(U* p, size_t n) noexcept {
        if (!p) return; auto it = g_blocks.find(p); CHECK(it != g_blocks.end()); if (it == g_blocks.end()) return;
        CHECK(it->second.n == n); CHECK(it->second.id == id); g_blocks.erase(it); std::free(p); }
};
#endif
