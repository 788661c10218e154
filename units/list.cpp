#include "vp_common.hpp"
#include <functional>
#include <nestl/implementation/list.hpp>
typedef nestl::impl::list<E, A<E> > L;
typedef nestl::impl::list_node_base N;
typedef L::const_iterator CI;
typedef L::iterator I;
typedef A<E> Al;
#define U extern "C" void
#define UV(r) extern "C" r
U lst_ctor(L* v, const Al* a) { ::new (static_cast<void*>(v)) L(*a); }
U lst_move_ctor(L* v, L* o) { ::new (static_cast<void*>(v)) L(std::move(*o)); }
U lst_dtor(L* v) { v->~L(); }
U lst_move_assign(L* v, L* o) { *v = std::move(*o); }
U lst_copy(L* v, Err* e, const L* o) { v->copy_nothrow(*e, *o); }
U lst_assign_n(L* v, Err* e, std::size_t n, const E* x) { v->assign_nothrow(*e, n, *x); }
U lst_assign_it(L* v, Err* e, const E* f, const E* l) { v->assign_nothrow(*e, f, l); }
UV(E*) lst_front(L* v) { return &v->front(); }
UV(const E*) lst_cfront(const L* v) { return &v->front(); }
UV(E*) lst_back(L* v) { return &v->back(); }
UV(const E*) lst_cback(const L* v) { return &v->back(); }
UV(N*) lst_begin(L* v) { return v->begin().get_list_node(); }
UV(N*) lst_begin_c(const L* v) { return v->begin().get_list_node(); }
UV(N*) lst_cbegin(const L* v) { return v->cbegin().get_list_node(); }
UV(N*) lst_end(L* v) { return v->end().get_list_node(); }
UV(N*) lst_end_c(const L* v) { return v->end().get_list_node(); }
UV(N*) lst_cend(const L* v) { return v->cend().get_list_node(); }
UV(N*) lst_rbegin(L* v) { return v->rbegin().base().get_list_node(); }
UV(N*) lst_rbegin_c(const L* v) { return v->rbegin().base().get_list_node(); }
UV(N*) lst_crbegin(const L* v) { return v->crbegin().base().get_list_node(); }
UV(N*) lst_rend(L* v) { return v->rend().base().get_list_node(); }
UV(N*) lst_rend_c(const L* v) { return v->rend().base().get_list_node(); }
UV(N*) lst_crend(const L* v) { return v->crend().base().get_list_node(); }
UV(bool) lst_empty(const L* v) { return v->empty(); }
UV(std::size_t) lst_size(const L* v) { return v->size(); }
UV(std::size_t) lst_max_size(const L* v) { return v->max_size(); }
UV(int) lst_get_allocator(const L* v) { return v->get_allocator().id; }
U lst_clear(L* v) { v->clear(); }
UV(N*) lst_insert_copy(L* v, Err* e, const N* p, const E* x) { return v->insert_nothrow(*e, CI(p), *x).get_list_node(); }
UV(N*) lst_insert_move(L* v, Err* e, const N* p, E* x) { return v->insert_nothrow(*e, CI(p), std::move(*x)).get_list_node(); }
UV(N*) lst_emplace(L* v, Err* e, const N* p, const E* x) { return v->emplace_nothrow(*e, CI(p), *x).get_list_node(); }
UV(N*) lst_emplace0(L* v, Err* e, const N* p) { return v->emplace_nothrow(*e, CI(p)).get_list_node(); }
U lst_insert_n(L* v, Err* e, const N* p, std::size_t n, const E* x) { v->insert_nothrow(*e, CI(p), n, *x); }
U lst_insert_it(L* v, Err* e, const N* p, const E* f, const E* l) { v->insert_nothrow(*e, CI(p), f, l); }
UV(N*) lst_erase(L* v, const N* p) { return v->erase(CI(p)).get_list_node(); }
UV(N*) lst_erase_range(L* v, const N* p, const N* q) { return v->erase(CI(p), CI(q)).get_list_node(); }
U lst_push_back_copy(L* v, Err* e, const E* x) { v->push_back_nothrow(*e, *x); }
U lst_push_back_move(L* v, Err* e, E* x) { v->push_back_nothrow(*e, std::move(*x)); }
U lst_emplace_back(L* v, Err* e, const E* x) { v->emplace_back_nothrow(*e, *x); }
U lst_push_front_copy(L* v, Err* e, const E* x) { v->push_front_nothrow(*e, *x); }
U lst_push_front_move(L* v, Err* e, E* x) { v->push_front_nothrow(*e, std::move(*x)); }
U lst_emplace_front(L* v, Err* e, const E* x) { v->emplace_front_nothrow(*e, *x); }
U lst_pop_back(L* v) { v->pop_back(); }
U lst_pop_front(L* v) { v->pop_front(); }
U lst_swap(L* v, L* o) { v->swap(*o); }
U lst_splice(L* v, const N* p, L* o) { v->splice(CI(p), *o); }
U lst_splice_rv(L* v, const N* p, L* o) { v->splice(CI(p), std::move(*o)); }
U lst_splice_one(L* v, const N* p, L* o, const N* i) { v->splice(CI(p), *o, CI(i)); }
U lst_splice_one_rv(L* v, const N* p, L* o, const N* i) { v->splice(CI(p), std::move(*o), CI(i)); }
U lst_splice_range(L* v, const N* p, L* o, const N* f, const N* l) { v->splice(CI(p), *o, CI(f), CI(l)); }
U lst_splice_range_rv(L* v, const N* p, L* o, const N* f, const N* l) { v->splice(CI(p), std::move(*o), CI(f), CI(l)); }
U lst_merge(L* v, L* o) { v->merge(*o); }
U lst_merge_rv(L* v, L* o) { v->merge(std::move(*o)); }
U lst_merge_comp(L* v, L* o) { v->merge(*o, ELess()); }
U lst_merge_comp_rv(L* v, L* o) { v->merge(std::move(*o), ELess()); }
U lst_sort(L* v) { v->sort(); }
U lst_sort_comp(L* v) { v->sort(ELess()); }
UV(bool) lst_eq(const L* v, const L* o) { return *v == *o; }
UV(N*) lst_it_inc(N* p) { I i(p); return (++i).get_list_node(); }
UV(N*) lst_it_dec(N* p) { I i(p); return (--i).get_list_node(); }
UV(N*) lst_it_postinc(N* p, N** o) { I i(p); *o = (i++).get_list_node(); return i.get_list_node(); }
UV(N*) lst_it_postdec(N* p, N** o) { I i(p); *o = (i--).get_list_node(); return i.get_list_node(); }
UV(E*) lst_it_deref(N* p) { I i(p); return &*i; }
UV(E*) lst_it_arrow(N* p) { I i(p); return i.operator->(); }
UV(bool) lst_it_eq(N* p, N* q) { return I(p) == I(q); }
UV(bool) lst_it_ne(N* p, N* q) { return I(p) != I(q); }
UV(N*) lst_ci_inc(const N* p) { CI i(p); return (++i).get_list_node(); }
UV(N*) lst_ci_dec(const N* p) { CI i(p); return (--i).get_list_node(); }
UV(N*) lst_ci_postinc(const N* p, N** o) { CI i(p); *o = (i++).get_list_node(); return i.get_list_node(); }
UV(N*) lst_ci_postdec(const N* p, N** o) { CI i(p); *o = (i--).get_list_node(); return i.get_list_node(); }
UV(const E*) lst_ci_deref(const N* p) { CI i(p); return &*i; }
UV(const E*) lst_ci_arrow(const N* p) { CI i(p); return i.operator->(); }
UV(bool) lst_ci_eq(const N* p, const N* q) { return CI(p) == CI(q); }
UV(bool) lst_ci_ne(const N* p, const N* q) { return CI(p) != CI(q); }
UV(N*) lst_ci_from(N* p) { return CI(I(p)).get_list_node(); }
