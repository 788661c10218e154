// allocator whose own copies are tracked objects (their construction and destruction are external operations)
#ifndef VP_TRACK_HPP
#define VP_TRACK_HPP
#include "vp_common.hpp"
extern "C" void vp_obj_ctor(void* p) noexcept;
extern "C" void vp_obj_dtor(void* p) noexcept;
template <typename T>
struct TA
{
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef std::size_t size_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <typename U> struct rebind { typedef TA<U> other; };
    int id;
    TA() noexcept : id(0) { vp_obj_ctor(this); }
    TA(const TA& o) noexcept : id(o.id) { vp_obj_ctor(this); }
    template <typename U> TA(const TA<U>& o) noexcept : id(o.id) { vp_obj_ctor(this); }
    TA& operator=(const TA& o) noexcept { id = o.id; return *this; }
    ~TA() noexcept { vp_obj_dtor(this); }
    T* allocate(Err& err, std::size_t n, const void* = 0) noexcept
    { return static_cast<T*>(vp_allocate(id, &err, n, sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept
    { vp_deallocate(id, p, n, sizeof(T)); }
};
#endif
