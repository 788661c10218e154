#include "vp_common.hpp"
#include <functional>
#include <nestl/implementation/set.hpp>
typedef nestl::impl::set<E, std::less<E>, A<E> > S;
typedef nestl::impl::detail::rb_tree_node_base N;
typedef nestl::impl::detail::rb_tree_node<E> ND;
typedef S::const_iterator CI;
typedef S::iterator I;
typedef A<E> Al;
static inline I it(N* p) { I i; i.m_node = p; return i; }
static inline CI ci(const N* p) { CI i; i.m_node = p; return i; }
#define U extern "C" void
#define UV(r) extern "C" r
U set_ctor(S* v, const Al* a) { ::new (static_cast<void*>(v)) S(*a); }
U set_ctor_comp(S* v, const Al* a) { ::new (static_cast<void*>(v)) S(std::less<E>(), *a); }
U set_move_ctor(S* v, S* o) { ::new (static_cast<void*>(v)) S(std::move(*o)); }
U set_dtor(S* v) { v->~S(); }
U set_move_assign(S* v, S* o) { *v = std::move(*o); }
U set_copy(S* v, Err* e, const S* o) { v->copy_nothrow(*e, *o); }
UV(N*) set_begin(S* v) { return v->begin().m_node; }
UV(const N*) set_begin_c(const S* v) { return v->begin().m_node; }
UV(const N*) set_cbegin(const S* v) { return v->cbegin().m_node; }
UV(N*) set_end(S* v) { return v->end().m_node; }
UV(const N*) set_end_c(const S* v) { return v->end().m_node; }
UV(const N*) set_cend(const S* v) { return v->cend().m_node; }
UV(N*) set_rbegin(S* v) { return v->rbegin().base().m_node; }
UV(const N*) set_rbegin_c(const S* v) { return v->rbegin().base().m_node; }
UV(const N*) set_crbegin(const S* v) { return v->crbegin().base().m_node; }
UV(N*) set_rend(S* v) { return v->rend().base().m_node; }
UV(const N*) set_rend_c(const S* v) { return v->rend().base().m_node; }
UV(const N*) set_crend(const S* v) { return v->crend().base().m_node; }
UV(bool) set_empty(const S* v) { return v->empty(); }
UV(std::size_t) set_size(const S* v) { return v->size(); }
UV(std::size_t) set_max_size(const S* v) { return v->max_size(); }
UV(int) set_get_allocator(const S* v) { return v->get_allocator().id; }
U set_clear(S* v) { v->clear(); }
UV(N*) set_insert_copy(S* v, Err* e, const E* x, bool* f) { S::iterator_with_flag r = v->insert_nothrow(*e, *x); *f = r.second; return r.first.m_node; }
UV(N*) set_insert_move(S* v, Err* e, E* x, bool* f) { S::iterator_with_flag r = v->insert_nothrow(*e, std::move(*x)); *f = r.second; return r.first.m_node; }
UV(N*) set_erase_pos(S* v, const N* p) { return v->erase(ci(p)).m_node; }
UV(std::size_t) set_erase_key(S* v, const E* x) { return v->erase(*x); }
UV(N*) set_find(S* v, const E* x) { return v->find(*x).m_node; }
UV(const N*) set_find_c(const S* v, const E* x) { return v->find(*x).m_node; }
UV(N*) set_it_inc(N* p) { I i = it(p); return (++i).m_node; }
UV(N*) set_it_dec(N* p) { I i = it(p); return (--i).m_node; }
UV(N*) set_it_postinc(N* p, N** o) { I i = it(p); *o = (i++).m_node; return i.m_node; }
UV(N*) set_it_postdec(N* p, N** o) { I i = it(p); *o = (i--).m_node; return i.m_node; }
UV(E*) set_it_deref(N* p) { I i = it(p); return &*i; }
UV(E*) set_it_arrow(N* p) { I i = it(p); return i.operator->(); }
UV(bool) set_it_eq(N* p, N* q) { return it(p) == it(q); }
UV(bool) set_it_ne(N* p, N* q) { return it(p) != it(q); }
UV(const N*) set_ci_inc(const N* p) { CI i = ci(p); return (++i).m_node; }
UV(const N*) set_ci_dec(const N* p) { CI i = ci(p); return (--i).m_node; }
UV(const N*) set_ci_postinc(const N* p, const N** o) { CI i = ci(p); *o = (i++).m_node; return i.m_node; }
UV(const N*) set_ci_postdec(const N* p, const N** o) { CI i = ci(p); *o = (i--).m_node; return i.m_node; }
UV(const E*) set_ci_deref(const N* p) { CI i = ci(p); return &*i; }
UV(const E*) set_ci_arrow(const N* p) { CI i = ci(p); return i.operator->(); }
UV(bool) set_ci_eq(const N* p, const N* q) { return ci(p) == ci(q); }
UV(bool) set_ci_ne(const N* p, const N* q) { return ci(p) != ci(q); }
UV(const N*) set_ci_from(N* p) { return CI(it(p)).m_node; }
