// Operations of the open-addressing containers under verification. -DKIND=0 map, 1 set; -DSTABLE; -DORDERED
#include "vp.hpp"
#include <new>
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>
#if KIND == 0
#ifdef STABLE
#define VT std::pair<const Obj, Obj>
#define NM(x) x##stable_map
#else
#define VT std::pair<Obj, Obj>
#define NM(x) x##sparse_map
#endif
#else
#define VT Obj
#ifdef STABLE
#define NM(x) x##stable_set
#else
#define NM(x) x##sparse_set
#endif
#endif
#ifdef ORDERED
#define TN NM(ordered_)
#else
#define TN NM()
#endif
#if KIND == 0
using M = tpp::TN<Obj, Obj, H, E, A<VT>>;
#else
using M = tpp::TN<Obj, H, E, A<VT>>;
#endif
using It = M::iterator;
using CIt = M::const_iterator;
using U = std::uint64_t;
#define OP extern "C"
OP bool op_contains(const M &m, const Obj &k) { return m.contains(k); }
OP void op_find(M &m, const Obj &k, It *o) { new (o) It(m.find(k)); }
OP void op_cfind(const M &m, const Obj &k, CIt *o) { new (o) CIt(m.find(k)); }
OP U op_size(const M &m) { return m.size(); }
OP bool op_empty(const M &m) { return m.empty(); }
OP U op_bucket_count(const M &m) { return m.bucket_count(); }
OP U op_capacity(const M &m) { return m.capacity(); }
OP void op_begin(M &m, It *o) { new (o) It(m.begin()); }
OP void op_end(M &m, It *o) { new (o) It(m.end()); }
OP void op_cbegin(const M &m, CIt *o) { new (o) CIt(m.begin()); }
OP void op_cend(const M &m, CIt *o) { new (o) CIt(m.end()); }
OP void op_next(It *i) { ++*i; }
OP bool op_ieq(const It &a, const It &b) { return a == b; }
#if KIND == 0
OP const void *op_key(const It &i) { return &i->first; }
OP const void *op_val(const It &i) { return &i->second; }
OP bool op_try_emplace(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.try_emplace(k, v); new (o) It(r.first); return r.second; }
OP bool op_try_emplace_m(M &m, Obj &k, Obj &v, It *o) { auto r = m.try_emplace(std::move(k), std::move(v)); new (o) It(r.first); return r.second; }
OP void op_try_emplace_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.try_emplace(h, k, v)); }
OP bool op_emplace(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.emplace(k, v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, k, v)); }
OP bool op_insert_or_assign(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.insert_or_assign(k, v); new (o) It(r.first); return r.second; }
OP bool op_insert_or_assign_m(M &m, Obj &k, Obj &v, It *o) { auto r = m.insert_or_assign(std::move(k), std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_or_assign_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.insert_or_assign(h, k, v)); }
OP bool op_insert(M &m, const M::insert_type &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, M::insert_type &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const M::insert_type &v, It *o) { new (o) It(m.insert(h, v)); }
OP void *op_index(M &m, const Obj &k) { return &m[k]; }
OP void *op_index_m(M &m, Obj &k) { return &m[std::move(k)]; }
OP void *op_at(M &m, const Obj &k) { return &m.at(k); }
OP const void *op_cat(const M &m, const Obj &k) { return &m.at(k); }
#else
OP const void *op_key(const It &i) { return &*i; }
OP bool op_insert(M &m, const Obj &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, Obj &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const Obj &v, It *o) { new (o) It(m.insert(h, v)); }
OP bool op_emplace(M &m, const Obj &v, It *o) { auto r = m.emplace(v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, v)); }
#endif
OP void op_erase(M &m, const Obj &k, It *o) { new (o) It(m.erase(k)); }
OP void op_erase_at(M &m, const CIt &p, It *o) { new (o) It(m.erase(p)); }
OP void op_clear(M &m) { m.clear(); }
OP void op_reserve(M &m, U n) { m.reserve(n); }
OP void op_rehash(M &m, U n) { m.rehash(n); }
OP void op_ctor(M *m) { new (m) M(); }
OP void op_ctor_n(M *m, U n) { new (m) M(n); }
OP void op_dtor(M &m) { m.~M(); }
OP void op_copy(M *m, const M &o) { new (m) M(o); }
OP void op_move(M *m, M &o) { new (m) M(std::move(o)); }
OP void op_assign(M &m, const M &o) { m = o; }
OP void op_assign_m(M &m, M &o) { m = std::move(o); }
OP void op_swap(M &m, M &o) { m.swap(o); }
OP bool op_eq(const M &a, const M &b) { return a == b; }
OP bool op_neq(const M &a, const M &b) { return a != b; }
#ifdef STABLE
using N = M::node_type;
OP void op_extract(M &m, const Obj &k, N *o) { new (o) N(m.extract(k)); }
OP void op_extract_at(M &m, const CIt &p, N *o) { new (o) N(m.extract(p)); }
OP bool op_insert_node(M &m, N &n, It *o, N *rest) { auto r = m.insert(std::move(n)); new (o) It(r.position); new (rest) N(std::move(r.node)); return r.inserted; }
OP void op_insert_node_h(M &m, const CIt &h, N &n, It *o) { new (o) It(m.insert(h, std::move(n))); }
#if KIND == 0
OP bool op_assign_node(M &m, N &n, It *o) { auto r = m.insert_or_assign(std::move(n)); new (o) It(r.first); return r.second; }
OP void op_assign_node_h(M &m, const CIt &h, N &n, It *o) { new (o) It(m.insert_or_assign(h, std::move(n))); }
#endif
OP void op_node_move(N *a, N &b) { new (a) N(std::move(b)); }
OP void op_node_assign(N &a, N &b) { a = std::move(b); }
OP void op_node_swap(N &a, N &b) { a.swap(b); }
OP bool op_node_empty(const N &a) { return a.empty(); }
OP void op_node_dtor(N &a) { a.~N(); }
OP void op_merge(M &m, M &o) { m.merge(o); }
#endif
