// Operations of the dense containers under verification. -DKIND=0 map, 1 set, 2 multiset (two keys), 3 multimap (two keys); -DORDERED
#include "vp.hpp"
#include <new>
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_multimap.hpp>
#include <tpp/dense_multiset.hpp>
#ifdef ORDERED
#define NM(x) ordered_##x
#else
#define NM(x) x
#endif
using MK = tpp::multikey<Obj, Obj>;
using KT = std::tuple<Obj, Obj>;
#if KIND == 0
using M = tpp::NM(dense_map)<Obj, Obj, H, E, A<std::pair<Obj, Obj>>>;
#elif KIND == 1
using M = tpp::NM(dense_set)<Obj, H, E, A<Obj>>;
#elif KIND == 2
using M = tpp::NM(dense_multiset)<MK, H, E, A<KT>>;
#else
using M = tpp::NM(dense_multimap)<MK, Obj, H, E, A<std::pair<KT, Obj>>>;
#endif
using It = M::iterator;
using CIt = M::const_iterator;
using U = std::uint64_t;
#define OP extern "C"
OP U op_size(const M &m) { return m.size(); }
OP bool op_empty(const M &m) { return m.empty(); }
OP U op_bucket_count(const M &m) { return m.bucket_count(); }
OP U op_capacity(const M &m) { return m.capacity(); }
OP void op_begin(M &m, It *o) { new (o) It(m.begin()); }
OP void op_end(M &m, It *o) { new (o) It(m.end()); }
OP void op_cbegin(const M &m, CIt *o) { new (o) CIt(m.begin()); }
OP void op_cend(const M &m, CIt *o) { new (o) CIt(m.end()); }
OP void op_next(It *i) { ++*i; }
OP bool op_ieq(const It &a, const It &b) { return a == b; }
#if KIND < 2
OP bool op_contains(const M &m, const Obj &k) { return m.contains(k); }
OP void op_find(M &m, const Obj &k, It *o) { new (o) It(m.find(k)); }
OP void op_cfind(const M &m, const Obj &k, CIt *o) { new (o) CIt(m.find(k)); }
OP void op_erase(M &m, const Obj &k, It *o) { new (o) It(m.erase(k)); }
#else
OP bool op_contains_0(const M &m, const Obj &k) { return m.contains<0>(k); }
OP bool op_contains_1(const M &m, const Obj &k) { return m.contains<1>(k); }
OP void op_find_0(M &m, const Obj &k, It *o) { new (o) It(m.find<0>(k)); }
OP void op_find_1(M &m, const Obj &k, It *o) { new (o) It(m.find<1>(k)); }
OP void op_cfind_0(const M &m, const Obj &k, CIt *o) { new (o) CIt(m.find<0>(k)); }
OP void op_cfind_1(const M &m, const Obj &k, CIt *o) { new (o) CIt(m.find<1>(k)); }
OP void op_erase_0(M &m, const Obj &k, It *o) { new (o) It(m.erase<0>(k)); }
OP void op_erase_1(M &m, const Obj &k, It *o) { new (o) It(m.erase<1>(k)); }
#endif
#if KIND == 0
OP const void *op_key(const It &i) { return &i->first; }
OP const void *op_val(const It &i) { return &i->second; }
OP bool op_try_emplace(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.try_emplace(k, v); new (o) It(r.first); return r.second; }
OP bool op_try_emplace_m(M &m, Obj &k, Obj &v, It *o) { auto r = m.try_emplace(std::move(k), std::move(v)); new (o) It(r.first); return r.second; }
OP void op_try_emplace_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.try_emplace(h, k, v)); }
OP bool op_emplace(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.emplace(k, v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, k, v)); }
OP bool op_insert_or_assign(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.insert_or_assign(k, v); new (o) It(r.first); return r.second; }
OP bool op_insert_or_assign_m(M &m, Obj &k, Obj &v, It *o) { auto r = m.insert_or_assign(std::move(k), std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_or_assign_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.insert_or_assign(h, k, v)); }
OP bool op_insert(M &m, const M::insert_type &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, M::insert_type &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const M::insert_type &v, It *o) { new (o) It(m.insert(h, v)); }
OP void *op_index(M &m, const Obj &k) { return &m[k]; }
OP void *op_index_m(M &m, Obj &k) { return &m[std::move(k)]; }
OP void *op_at(M &m, const Obj &k) { return &m.at(k); }
OP const void *op_cat(const M &m, const Obj &k) { return &m.at(k); }
#elif KIND == 1
OP const void *op_key(const It &i) { return &*i; }
OP bool op_insert(M &m, const Obj &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, Obj &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const Obj &v, It *o) { new (o) It(m.insert(h, v)); }
OP bool op_emplace(M &m, const Obj &v, It *o) { auto r = m.emplace(v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, v)); }
#elif KIND == 2
OP const void *op_key_0(const It &i) { return &std::get<0>(*i); }
OP const void *op_key_1(const It &i) { return &std::get<1>(*i); }
OP bool op_insert(M &m, const KT &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, KT &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const KT &v, It *o) { new (o) It(m.insert(h, v)); }
OP bool op_emplace(M &m, const Obj &k, const Obj &v, It *o) { auto r = m.emplace(k, v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const Obj &k, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, k, v)); }
#else
OP const void *op_key_0(const It &i) { return &std::get<0>(i->first); }
OP const void *op_key_1(const It &i) { return &std::get<1>(i->first); }
OP const void *op_val(const It &i) { return &i->second; }
OP bool op_insert(M &m, const M::insert_type &v, It *o) { auto r = m.insert(v); new (o) It(r.first); return r.second; }
OP bool op_insert_m(M &m, M::insert_type &v, It *o) { auto r = m.insert(std::move(v)); new (o) It(r.first); return r.second; }
OP void op_insert_h(M &m, const CIt &h, const M::insert_type &v, It *o) { new (o) It(m.insert(h, v)); }
OP bool op_try_emplace(M &m, const KT &k, const Obj &v, It *o) { auto r = m.try_emplace(k, v); new (o) It(r.first); return r.second; }
OP bool op_try_emplace_m(M &m, KT &k, Obj &v, It *o) { auto r = m.try_emplace(std::move(k), std::move(v)); new (o) It(r.first); return r.second; }
OP void op_try_emplace_h(M &m, const CIt &h, const KT &k, const Obj &v, It *o) { new (o) It(m.try_emplace(h, k, v)); }
OP bool op_emplace(M &m, const KT &k, const Obj &v, It *o) { auto r = m.emplace(k, v); new (o) It(r.first); return r.second; }
OP void op_emplace_h(M &m, const CIt &h, const KT &k, const Obj &v, It *o) { new (o) It(m.emplace_hint(h, k, v)); }
#endif
OP void op_erase_at(M &m, const CIt &p, It *o) { new (o) It(m.erase(p)); }
OP void op_clear(M &m) { m.clear(); }
OP void op_reserve(M &m, U n) { m.reserve(n); }
OP void op_rehash(M &m, U n) { m.rehash(n); }
OP void op_ctor(M *m) { new (m) M(); }
OP void op_ctor_n(M *m, U n) { new (m) M(n); }
OP void op_dtor(M &m) { m.~M(); }
OP void op_copy(M *m, const M &o) { new (m) M(o); }
OP void op_move(M *m, M &o) { new (m) M(std::move(o)); }
OP void op_assign(M &m, const M &o) { m = o; }
OP void op_assign_m(M &m, M &o) { m = std::move(o); }
OP void op_swap(M &m, M &o) { m.swap(o); }
OP bool op_eq(const M &a, const M &b) { return a == b; }
OP bool op_neq(const M &a, const M &b) { return a != b; }
