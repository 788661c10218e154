#include "vp_common.hpp"
#include <nestl/implementation/vector.hpp>
typedef nestl::impl::vector<E, A<E> > V;
typedef V::const_iterator CI;
typedef V::iterator I;
typedef A<E> Al;
#define U extern "C" void
#define UV(r) extern "C" r
U vec_ctor(V* v, const Al* a) { ::new (static_cast<void*>(v)) V(*a); }
U vec_move_ctor(V* v, V* o) { ::new (static_cast<void*>(v)) V(std::move(*o)); }
U vec_dtor(V* v) { v->~V(); }
U vec_move_assign(V* v, V* o) { *v = std::move(*o); }
U vec_copy(V* v, Err* e, const V* o) { v->copy_nothrow(*e, *o); }
U vec_assign_n(V* v, Err* e, std::size_t n, const E* x) { v->assign_nothrow(*e, n, *x); }
U vec_assign_it(V* v, Err* e, const E* f, const E* l) { v->assign_nothrow(*e, f, l); }
UV(E*) vec_index(V* v, std::size_t i) { return &(*v)[i]; }
UV(const E*) vec_cindex(const V* v, std::size_t i) { return &(*v)[i]; }
UV(E*) vec_front(V* v) { return &v->front(); }
UV(const E*) vec_cfront(const V* v) { return &v->front(); }
UV(E*) vec_back(V* v) { return &v->back(); }
UV(const E*) vec_cback(const V* v) { return &v->back(); }
UV(E*) vec_data(V* v) { return v->data(); }
UV(const E*) vec_cdata(const V* v) { return v->data(); }
UV(E*) vec_begin(V* v) { return v->begin(); }
UV(const E*) vec_begin_c(const V* v) { return v->begin(); }
UV(const E*) vec_cbegin(const V* v) { return v->cbegin(); }
UV(E*) vec_end(V* v) { return v->end(); }
UV(const E*) vec_end_c(const V* v) { return v->end(); }
UV(const E*) vec_cend(const V* v) { return v->cend(); }
UV(const E*) vec_rbegin(V* v) { return v->rbegin().base(); }
UV(const E*) vec_rbegin_c(const V* v) { return v->rbegin().base(); }
UV(const E*) vec_crbegin(const V* v) { return v->crbegin().base(); }
UV(const E*) vec_rend(V* v) { return v->rend().base(); }
UV(const E*) vec_rend_c(const V* v) { return v->rend().base(); }
UV(const E*) vec_crend(const V* v) { return v->crend().base(); }
UV(bool) vec_empty(const V* v) { return v->empty(); }
UV(std::size_t) vec_size(const V* v) { return v->size(); }
UV(std::size_t) vec_max_size(const V* v) { return v->max_size(); }
UV(std::size_t) vec_capacity(const V* v) { return v->capacity(); }
UV(int) vec_get_allocator(const V* v) { return v->get_allocator().id; }
U vec_reserve(V* v, Err* e, std::size_t n) { v->reserve_nothrow(*e, n); }
U vec_shrink(V* v, Err* e) { v->shrink_to_fit_nothrow(*e); }
UV(E*) vec_insert_copy(V* v, Err* e, const E* p, const E* x) { return v->insert_nothrow(*e, p, *x); }
UV(E*) vec_insert_move(V* v, Err* e, const E* p, E* x) { return v->insert_nothrow(*e, p, std::move(*x)); }
U vec_push_copy(V* v, Err* e, const E* x) { v->push_back_nothrow(*e, *x); }
U vec_push_move(V* v, Err* e, E* x) { v->push_back_nothrow(*e, std::move(*x)); }
U vec_emplace_back(V* v, Err* e, const E* x) { v->emplace_back_nothrow(*e, *x); }
U vec_emplace_back0(V* v, Err* e) { v->emplace_back_nothrow(*e); }
U vec_resize(V* v, Err* e, std::size_t n) { v->resize_nothrow(*e, n); }
U vec_resize_val(V* v, Err* e, std::size_t n, const E* x) { v->resize_nothrow(*e, n, *x); }
U vec_swap(V* v, V* o) { v->swap(*o); }
UV(bool) vec_eq(const V* v, const V* o) { return *v == *o; }
