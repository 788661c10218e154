#include "vp_track.hpp"
#include <nestl/implementation/shared_ptr.hpp>
typedef nestl::impl::shared_ptr<E> SP;
typedef nestl::impl::shared_ptr<const E> CSP;
typedef nestl::impl::weak_ptr<E> WP;
typedef TA<E> Al;
#define U extern "C" void
#define UV(r) extern "C" r
U sp_ctor(SP* p) { ::new (static_cast<void*>(p)) SP(); }
U sp_ctor_null(SP* p) { ::new (static_cast<void*>(p)) SP(nullptr); }
U sp_copy(SP* p, const SP* o) { ::new (static_cast<void*>(p)) SP(*o); }
U sp_conv(CSP* p, const SP* o) { ::new (static_cast<void*>(p)) CSP(*o); }
U sp_move(SP* p, SP* o) { ::new (static_cast<void*>(p)) SP(std::move(*o)); }
U sp_dtor(SP* p) { p->~SP(); }
U sp_assign(SP* p, const SP* o) { *p = *o; }
U sp_assign_conv(CSP* p, const SP* o) { *p = *o; }
U sp_massign(SP* p, SP* o) { *p = std::move(*o); }
U sp_massign_conv(CSP* p, SP* o) { *p = std::move(*o); }
U sp_reset(SP* p) { p->reset(); }
U sp_swap(SP* p, SP* o) { p->swap(*o); }
UV(E*) sp_get(const SP* p) { return p->get(); }
UV(E*) sp_deref(const SP* p) { return &**p; }
UV(E*) sp_arrow(const SP* p) { return p->operator->(); }
UV(long) sp_use_count(const SP* p) { return p->use_count(); }
UV(bool) sp_unique(const SP* p) { return p->unique(); }
UV(bool) sp_bool(const SP* p) { return bool(*p); }
U wp_ctor(WP* p) { ::new (static_cast<void*>(p)) WP(); }
U wp_copy(WP* p, const WP* o) { ::new (static_cast<void*>(p)) WP(*o); }
U wp_from_sp(WP* p, const SP* o) { ::new (static_cast<void*>(p)) WP(*o); }
U wp_move(WP* p, WP* o) { ::new (static_cast<void*>(p)) WP(std::move(*o)); }
U wp_dtor(WP* p) { p->~WP(); }
U wp_assign(WP* p, const WP* o) { *p = *o; }
U wp_assign_sp(WP* p, const SP* o) { *p = *o; }
U wp_massign(WP* p, WP* o) { *p = std::move(*o); }
U wp_reset(WP* p) { p->reset(); }
UV(bool) wp_expired(const WP* p) { return p->expired(); }
UV(long) wp_use_count(const WP* p) { return p->use_count(); }
U wp_lock(SP* r, WP* p) { ::new (static_cast<void*>(r)) SP(p->lock()); }
U sp_make(SP* r, Err* e, Al* a, const E* x) { ::new (static_cast<void*>(r)) SP(nestl::impl::make_shared_a_nothrow<E>(*e, *a, *x)); }
U sp_make0(SP* r, Err* e, Al* a) { ::new (static_cast<void*>(r)) SP(nestl::impl::make_shared_a_nothrow<E>(*e, *a)); }
