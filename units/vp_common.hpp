// Opaque element, error and allocator types used to instantiate the real templates of /repo.
// Every operation on the element type is an external function, so nothing about T is assumed
// beyond what the C++ language lets a user type do (including failing to be copied).
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include <memory>
#include <iterator>
#include <utility>
#include <type_traits>
#include <nestl/config.hpp>
#include <nestl/type_traits.hpp>
#include <nestl/no_exceptions/errc_based_error.hpp>

typedef nestl::no_exceptions::errc_based_error Err;

struct E
{
    E() noexcept;
    ~E() noexcept;
    E(const E&) = delete;
    E(E&&) = delete;
    E& operator=(const E&) = delete;
private:
    char c;
};

extern "C" void vp_E_init_copy(Err* err, E* dst, const E* src) noexcept;
extern "C" void vp_E_init_move(Err* err, E* dst, E* src) noexcept;
extern "C" bool vp_E_eq(const E* l, const E* r) noexcept;
extern "C" bool vp_E_less(const E* l, const E* r) noexcept;
inline bool operator==(const E& l, const E& r) noexcept { return vp_E_eq(&l, &r); }
inline bool operator<(const E& l, const E& r) noexcept { return vp_E_less(&l, &r); }
struct ELess { bool operator()(const E& l, const E& r) const noexcept { return vp_E_less(&l, &r); } };

namespace nestl {
template <> struct two_phase_initializator<E>
{
    static void init(Err& err, E& d, const E& s) noexcept { vp_E_init_copy(&err, &d, &s); }
    static void init(Err& err, E& d, E&& s) noexcept { vp_E_init_move(&err, &d, &s); }
};
}

extern "C" void* vp_allocate(int id, Err* err, std::size_t n, std::size_t size) noexcept;
extern "C" void vp_deallocate(int id, void* p, std::size_t n, std::size_t size) noexcept;

template <typename T>
struct A
{
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef std::size_t size_type;
    typedef std::true_type propagate_on_container_move_assignment;
    typedef std::true_type propagate_on_container_copy_assignment;
    template <typename U> struct rebind { typedef A<U> other; };

    int id;

    A() noexcept : id(0) {}
    A(const A& o) noexcept : id(o.id) {}
    template <typename U> A(const A<U>& o) noexcept : id(o.id) {}
    A& operator=(const A& o) noexcept { id = o.id; return *this; }
    ~A() noexcept {}

    T* allocate(Err& err, std::size_t n, const void* = 0) noexcept
    { return static_cast<T*>(vp_allocate(id, &err, n, sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept
    { vp_deallocate(id, p, n, sizeof(T)); }
};
#endif
