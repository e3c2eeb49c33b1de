// Random histories over one multi-key container against a reference model. -DCONT=20..23 (see the table below).
#include "common.hpp"
#include <tpp/dense_multimap.hpp>
#include <tpp/dense_multiset.hpp>
template<size_t N> struct Keys; template<> struct Keys<2> { using mk = tpp::multikey<Obj, Obj>; using t = std::tuple<Obj, Obj>; }; template<> struct Keys<3> { using mk = tpp::multikey<Obj, Obj, Obj>; using t = std::tuple<Obj, Obj, Obj>; };
#if CONT == 20
constexpr size_t N = 2; constexpr bool M = 0; const char *NAME = "dense_multiset<2>";
#elif CONT == 21
constexpr size_t N = 3; constexpr bool M = 0; const char *NAME = "dense_multiset<3>";
#elif CONT == 22
constexpr size_t N = 2; constexpr bool M = 1; const char *NAME = "dense_multimap<2>";
#elif CONT == 23
constexpr size_t N = 3; constexpr bool M = 1; const char *NAME = "dense_multimap<3>";
#endif
const char *g_container = NAME;
using KT = typename Keys<N>::t; using MK = typename Keys<N>::mk; using PT = std::pair<KT, Obj>;
using Cont = std::conditional_t<M, tpp::dense_multimap<MK, Obj, Hash, Eq, Al<PT>>, tpp::dense_multiset<MK, Hash, Eq, Al<KT>>>;
struct El { int k[N]; int rep, v, vr; };
struct Model { std::vector<El> e; int salt = 0, eq = 0, al = 0; size_t res_n = 0, res_bc = 0; float mlf = .875f;
	int idx(size_t j, int c) const { for (size_t i = 0; i < e.size(); i++) if (e[i].k[j] == c) return (int) i; return -1; }
	std::set<int> conflicts(const int *k) const { std::set<int> s; for (size_t j = 0; j < N; j++) { int i = idx(j, k[j]); if (i >= 0) s.insert(i); } return s; } };
static int U = 16, g_rep = 0; static unsigned G;
enum { G_CAP = 4, G_COPY = 8, G_HINT = 32, G_EQ = 128 };
template<size_t... Is> KT mkk__(const int *k, int rp, std::index_sequence<Is...>) { return KT(Obj(k[Is], rp)...); }
template<class K> KT mkk_(const K *k, int rp) { return mkk__(k, rp, std::make_index_sequence<std::tuple_size_v<KT>>{}); }
template<class C> struct Run {
using It = typename C::iterator; using CIt = typename C::const_iterator;
using VT = std::conditional_t<M, std::pair<const KT, Obj>, typename C::key_type>;
template<class I> static const KT &keys(I i) { if constexpr (M) return (*i).first; else return *i; }
template<size_t... J> static void rd(const KT &t, int *k, int *rp, std::index_sequence<J...>) { (std::get<J>(t).use("read"), ...); ((k[J] = std::get<J>(t).cls), ...); ((rp[J] = std::get<J>(t).rep), ...); }
template<class I> static El read(I i) { El e{}; int rp[N]; const KT &t = keys(i); rd(t, e.k, rp, std::make_index_sequence<N>{}); e.rep = rp[0]; for (size_t j = 1; j < N; j++) if (rp[j] != rp[0]) e.rep = -1; if constexpr (M) { (*i).second.use("read"); e.v = (*i).second.cls; e.vr = (*i).second.rep; } return e; }
static bool eqk(const El &a, const El &b) { for (size_t j = 0; j < N; j++) if (a.k[j] != b.k[j]) return false; return true; }
static void same(const El &g, const El &w, const char *where) {
	CHK(LOOKUP | ITER, eqk(g, w), "%s: found entry (%d,%d,..), expected (%d,%d,..)", where, g.k[0], g.k[1], w.k[0], w.k[1]);
	CHK(VALUE, g.rep == w.rep, "%s: stored key objects of (%d,%d,..) are #%d, expected #%d", where, w.k[0], w.k[1], g.rep, w.rep);
	if (M) CHK(VALUE, g.v == w.v && g.vr == w.vr, "%s: mapped value of (%d,%d,..) is %d#%d, expected %d#%d", where, w.k[0], w.k[1], g.v, g.vr, w.v, w.vr);
}
template<size_t J> static void audit_key(C &c, Model &m, const char *where) {
	const C &cc = c;
	for (int k = 0; k < U; k++) {
		Obj key(k, -1); int i = m.idx(J, k); bool in = cc.template contains<J>(key);
		CHK(LOOKUP, in == (i >= 0), "%s: contains<%zu>(%d) is %d, expected %d", where, J, k, (int) in, (int) (i >= 0));
		auto f = c.template find<J>(key); auto cf = cc.template find<J>(key);
		CHK(LOOKUP, (f != c.end()) == (i >= 0), "%s: find<%zu>(%d) %s", where, J, k, i >= 0 ? "fails" : "succeeds");
		CHK(LOOKUP, (cf != cc.end()) == (i >= 0), "%s: const find<%zu>(%d) %s", where, J, k, i >= 0 ? "fails" : "succeeds");
		if (i >= 0 && f != c.end()) { same(read(f), m.e[(size_t) i], where); same(read(cf), m.e[(size_t) i], where); }
		if constexpr (M) if (k % 5 == 0 && (i >= 0 || k == 0)) {
			int v = -5; bool thrown = false; try { v = cc.template at<J>(key).cls; } catch (const std::out_of_range &) { thrown = true; }
			CHK(RET, thrown == (i < 0), "%s: at<%zu>(%d) %s", where, J, k, thrown ? "throws" : "does not throw");
			if (i >= 0 && !thrown) CHK(VALUE | RET, v == m.e[(size_t) i].v, "%s: at<%zu>(%d) is %d", where, J, k, v);
		}
	}
}
template<size_t... J> static void audit_keys(C &c, Model &m, const char *where, std::index_sequence<J...>) { (audit_key<J>(c, m, where), ...); }
static void audit(C &c, Model &m, const char *where) {
	const C &cc = c;
	CHK(SIZE | OTHER, c.size() == m.e.size(), "%s: size() is %zu, expected %zu", where, (size_t) c.size(), m.e.size());
	CHK(SIZE | OTHER, c.empty() == m.e.empty(), "%s: empty() is %d", where, (int) c.empty());
	audit_keys(c, m, where, std::make_index_sequence<N>{});
	size_t n = 0; std::set<int> seen;
	for (auto i = cc.begin(); i != cc.end(); ++i) { if (++n > m.e.size() + 2) break; El g = read(i); int k = m.idx(0, g.k[0]); CHK(ITER, k >= 0 && eqk(g, m.e[(size_t) k]), "%s: iteration visits (%d,%d,..), which is not stored", where, g.k[0], g.k[1]); if (k >= 0) { CHK(ITER, seen.insert(k).second, "%s: iteration visits (%d,%d,..) twice", where, g.k[0], g.k[1]); same(g, m.e[(size_t) k], where); } }
	CHK(ITER, n == m.e.size(), "%s: iteration visits %zu entries of %zu", where, n, m.e.size());
	if (m.res_n) { if (m.e.size() <= m.res_n) CHK(CAP, c.bucket_count() == m.res_bc, "%s: reserve(%zu) gave %zu buckets, with %zu elements there are %zu", where, m.res_n, m.res_bc, m.e.size(), (size_t) c.bucket_count()); if (m.e.size() >= m.res_n) m.res_n = 0; }
	CHK(FUNC, c.hash_function().salt == m.salt && c.key_eq().id == m.eq && c.get_allocator().id == m.al && c.max_load_factor() == m.mlf, "%s: hasher, comparator, allocator or load factor is not the expected one", where);
}
// one insertion, expected to follow the rule "any conflicting key means nothing happens"
static void inserted(C &c, Model &m, It it, bool ins, bool known, const int *k, int r, int v, const char *op) {
	auto cf = m.conflicts(k);
	if (known) CHK(RET, ins == cf.empty(), "%s(%d,%d,..): inserted is %d, %zu conflicts", op, k[0], k[1], (int) ins, cf.size());
	CHK(RET, it != c.end(), "%s(%d,%d,..): returns end()", op, k[0], k[1]);
	if (cf.empty()) { El e{}; for (size_t j = 0; j < N; j++) e.k[j] = k[j]; e.rep = r; e.v = M ? v : 0; e.vr = M ? r : 0; m.e.push_back(e); if ((g_active & RET) && it != c.end()) same(read(it), e, op); }
	else if ((g_active & RET) && it != c.end()) { El g = read(it); bool ok = false; for (int i: cf) ok |= eqk(g, m.e[(size_t) i]); CHK(RET, ok, "%s(%d,%d,..): the returned entry (%d,%d,..) does not conflict", op, k[0], k[1], g.k[0], g.k[1]); }
}
static void targ(const KT &t, const int *k, int rp, const char *op) { int a[N], b[N]; rd(t, a, b, std::make_index_sequence<N>{}); bool ok = true; for (size_t j = 0; j < N; j++) ok &= a[j] == k[j] && b[j] == rp; CHK(ARGS, ok, "%s(%d,%d,..): the caller's arguments were modified", op, k[0], k[1]); }
static void oarg(const Obj &o, int cls, int rep, const char *op) { CHK(ARGS, !o.moved && o.cls == cls && o.rep == rep, "%s: the caller's argument was modified", op); }
template<size_t J> static void by_key(C &c, Model &m, int k) {
	trace("erase<%zu>(%d);", J, k); Obj key(k, -1); int i = m.idx(J, k); size_t before = c.size(); auto it = c.template erase<J>(key); oarg(key, k, -1, "erase");
	CHK(RET | SIZE, c.size() == before - (i >= 0 ? 1 : 0), "erase<%zu>(%d) leaves size %zu of %zu", J, k, (size_t) c.size(), before);
	if (i < 0) CHK(RET, it == c.end(), "erase<%zu> of the absent key %d does not return end()", J, k); else m.e.erase(m.e.begin() + i);
}
static It locate(C &c, Model &m, size_t i, size_t j) { Obj key(m.e[i].k[j], -1); if (j == 0) return c.template find<0>(key); if (j == 1) return c.template find<1>(key); return c.template find<N - 1>(key); }
static void op_insert(C &c, Model &m, Rng &r, bool hint) {
	int k[N], rp = ++g_rep, v = (int) r(1000); for (auto &x: k) x = (int) r((uint64_t) U);
	if (r.chance(40) && !m.e.empty()) { for (int t = 0; t < 20; t++) { for (size_t j = 0; j < N; j++) k[j] = (int) r((uint64_t) U); if (m.conflicts(k).empty()) break; } }
	if (r.chance(15) && !m.e.empty()) { auto &e = m.e[r(m.e.size())]; for (size_t j = 0; j < N; j++) if (r.chance(60)) k[j] = e.k[j]; }
	bool had = !m.conflicts(k).empty(); (void) had;
	if (hint) {
		CIt h = c.cend(); if (!m.e.empty() && r.chance(70)) h = CIt{locate(c, m, r(m.e.size()), r(N))};
		if constexpr (M) switch (r(4)) {
			case 0: { trace("insert(hint,%d,%d);", k[0], k[1]); const PT p(mkk_(k, rp), Obj(v, rp)); auto x = c.insert(h, p); inserted(c, m, x, 0, 0, k, rp, v, "insert(hint)"); targ(p.first, k, rp, "insert(hint)"); break; }
			case 1: { trace("insert(hint,move %d,%d);", k[0], k[1]); PT p(mkk_(k, rp), Obj(v, rp)); auto x = c.insert(h, std::move(p)); inserted(c, m, x, 0, 0, k, rp, v, "insert(hint)"); break; }
			case 2: { trace("emplace_hint(%d,%d);", k[0], k[1]); auto x = c.emplace_hint(h, mkk_(k, rp), Obj(v, rp)); inserted(c, m, x, 0, 0, k, rp, v, "emplace_hint"); break; }
			default: { trace("try_emplace(hint,%d,%d);", k[0], k[1]); KT t = mkk_(k, rp); Obj o(v, rp); auto x = c.try_emplace(h, std::as_const(t), o); inserted(c, m, x, 0, 0, k, rp, v, "try_emplace(hint)"); targ(t, k, rp, "try_emplace"); oarg(o, v, rp, "try_emplace"); break; }
		} else switch (r(3)) {
			case 0: { trace("insert(hint,%d,%d);", k[0], k[1]); const KT p = mkk_(k, rp); auto x = c.insert(h, p); inserted(c, m, x, 0, 0, k, rp, v, "insert(hint)"); targ(p, k, rp, "insert(hint)"); break; }
			case 1: { trace("insert(hint,move %d,%d);", k[0], k[1]); KT p = mkk_(k, rp); auto x = c.insert(h, std::move(p)); inserted(c, m, x, 0, 0, k, rp, v, "insert(hint)"); break; }
			default: { trace("emplace_hint(%d,%d);", k[0], k[1]); auto x = c.emplace_hint(h, mkk_(k, rp)); inserted(c, m, x, 0, 0, k, rp, v, "emplace_hint"); break; }
		}
		return;
	}
	if constexpr (M) switch (r(8)) {
		case 0: { trace("insert(%d,%d);", k[0], k[1]); const PT p(mkk_(k, rp), Obj(v, rp)); auto x = c.insert(p); inserted(c, m, x.first, x.second, 1, k, rp, v, "insert"); targ(p.first, k, rp, "insert"); oarg(p.second, v, rp, "insert"); break; }
		case 1: { trace("insert(move %d,%d);", k[0], k[1]); PT p(mkk_(k, rp), Obj(v, rp)); auto x = c.insert(std::move(p)); inserted(c, m, x.first, x.second, 1, k, rp, v, "insert(&&)"); break; }
		case 2: { trace("emplace(%d,%d);", k[0], k[1]); auto x = c.emplace(mkk_(k, rp), Obj(v, rp)); inserted(c, m, x.first, x.second, 1, k, rp, v, "emplace"); break; }
		case 3: { trace("try_emplace(%d,%d);", k[0], k[1]); const KT t = mkk_(k, rp); Obj o(v, rp); auto x = c.try_emplace(t, o); inserted(c, m, x.first, x.second, 1, k, rp, v, "try_emplace"); targ(t, k, rp, "try_emplace"); oarg(o, v, rp, "try_emplace"); break; }
		case 4: { trace("try_emplace(move %d,%d);", k[0], k[1]); KT t = mkk_(k, rp); Obj o(v, rp); auto x = c.try_emplace(std::move(t), std::move(o)); inserted(c, m, x.first, x.second, 1, k, rp, v, "try_emplace(&&)"); if (had) { targ(t, k, rp, "try_emplace(&&)"); oarg(o, v, rp, "try_emplace(&&)"); } break; }
		case 5: { trace("try_emplace(forward %d,%d);", k[0], k[1]); KT t = mkk_(k, rp); Obj o(v, rp); auto x = fwd(c, t, o, std::make_index_sequence<N>{}); inserted(c, m, x.first, x.second, 1, k, rp, v, "try_emplace(tuple&)"); targ(t, k, rp, "try_emplace(tuple&)"); oarg(o, v, rp, "try_emplace"); break; }
		default: range(c, m, r); break;
	} else switch (r(5)) {
		case 0: { trace("insert(%d,%d);", k[0], k[1]); const KT p = mkk_(k, rp); auto x = c.insert(p); inserted(c, m, x.first, x.second, 1, k, rp, v, "insert"); targ(p, k, rp, "insert"); break; }
		case 1: { trace("insert(move %d,%d);", k[0], k[1]); KT p = mkk_(k, rp); auto x = c.insert(std::move(p)); inserted(c, m, x.first, x.second, 1, k, rp, v, "insert(&&)"); break; }
		case 2: { trace("emplace(%d,%d);", k[0], k[1]); auto x = c.emplace(mkk_(k, rp)); inserted(c, m, x.first, x.second, 1, k, rp, v, "emplace"); break; }
		case 3: { trace("emplace(parts %d,%d);", k[0], k[1]); KT p = mkk_(k, rp); auto x = emp(c, p, std::make_index_sequence<N>{}); inserted(c, m, x.first, x.second, 1, k, rp, v, "emplace"); targ(p, k, rp, "emplace"); break; }
		default: range(c, m, r); break;
	}
}
template<size_t... J> static auto fwd(C &c, KT &t, Obj &o, std::index_sequence<J...>) { return c.try_emplace(std::forward_as_tuple(std::as_const(std::get<J>(t))...), o); }
template<size_t... J> static auto emp(C &c, KT &t, std::index_sequence<J...>) { return c.emplace(std::get<J>(t)...); }
static void add(std::vector<VT> &vec, const int *k, int rp, int v) { if constexpr (M) vec.emplace_back(mkk_(k, rp), Obj(v, rp)); else { (void) v; vec.push_back(mkk_(k, rp)); } }
static void range(C &c, Model &m, Rng &r) {
	int n = (int) r(6); std::vector<VT> vec; vec.reserve(8); std::vector<El> els; trace("insert range[");
	for (int i = 0; i < n; i++) { El e{}; for (auto &x: e.k) x = (int) r((uint64_t) U); e.rep = ++g_rep; int v = (int) r(1000); e.v = M ? v : 0; e.vr = M ? e.rep : 0; trace("(%d,%d)", e.k[0], e.k[1]); add(vec, e.k, e.rep, v); els.push_back(e); }
	trace("];"); c.insert(vec.begin(), vec.end()); m.res_n = 0; for (auto &e: els) if (m.conflicts(e.k).empty()) m.e.push_back(e);
}
static bool hit(unsigned mask, int k) { return mask >> (k & 31) & 1; }
static void op_erase(C &c, Model &m, Rng &r) {
	m.res_n = 0;
	switch (r(8)) {
	case 0: case 1: case 2: { int k = (int) r((uint64_t) U); size_t j = r(N); if (r.chance(75) && !m.e.empty()) k = m.e[r(m.e.size())].k[j]; if (j == 0) by_key<0>(c, m, k); else if (j == 1) by_key<1>(c, m, k); else by_key<N - 1>(c, m, k); break; }
	case 3: case 4: { if (m.e.empty()) break; size_t i = r(m.e.size()); auto it = locate(c, m, i, r(N)); if (it == c.end()) { CHK(LOOKUP, 0, "find of a stored entry fails"); break; } trace("erase(it %d,%d);", m.e[i].k[0], m.e[i].k[1]); c.erase(CIt{it}); m.e.erase(m.e.begin() + (long) i); break; }
	case 5: { unsigned mask = (unsigned) r.next(); trace("erase loop %x;", mask); size_t guard = 0, n = 0, n0 = m.e.size(); for (auto i = c.cbegin(); i != c.cend();) { if (++guard > n0 * 2 + 2) break; int k = read(i).k[0]; ++n; if (hit(mask, k)) { i = c.erase(i); int x = m.idx(0, k); if (x >= 0) m.e.erase(m.e.begin() + x); } else ++i; } CHK(RET, n == n0, "erase loop visits %zu of %zu entries", n, n0); break; }
	case 6: { unsigned mask = (unsigned) r.next(); trace("erase_if %x;", mask); size_t n0 = 0; for (auto &e: m.e) n0 += hit(mask, e.k[1]); size_t n = erase_if(c, [&](const auto &v) { if constexpr (M) return hit(mask, std::get<1>(v.first).cls); else return hit(mask, std::get<1>(v).cls); }); m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](El &e) { return hit(mask, e.k[1]); }), m.e.end()); CHK(RET, n == n0, "erase_if reports %zu, expected %zu", n, n0); break; }
	default: { std::vector<int> o; for (auto i = c.cbegin(); i != c.cend() && o.size() <= m.e.size(); ++i) o.push_back(read(i).k[0]); if (o.size() != m.e.size()) break; size_t a = r(o.size() + 1), b = a + r(o.size() - a + 1); trace("erase range [%zu,%zu);", a, b); auto f = c.cbegin(); for (size_t i = 0; i < a; i++) ++f; auto l = f; for (size_t i = a; i < b; i++) ++l; c.erase(f, l); for (size_t i = a; i < b; i++) { int x = m.idx(0, o[i]); if (x >= 0) m.e.erase(m.e.begin() + x); } break; }
	}
}
static void op_cap(C &c, Model &m, Rng &r) {
	size_t n; switch (r(5)) { case 0: n = 0; break; case 1: n = r(m.e.size() + 1); break; case 2: n = m.e.size(); break; case 3: n = 1 + r(20); break; default: n = r(200); }
	if (r.chance(55)) { trace("reserve(%zu);", n); c.reserve(n); if (n >= m.e.size() && n > 0 && m.mlf == .875f) { m.res_n = n; m.res_bc = c.bucket_count(); } }
	else { trace("rehash(%zu);", n); c.rehash(n); m.res_n = 0; }
}
static C *fresh(Model &m, Rng &r) {
	m = Model{}; m.salt = (int) r(4); m.eq = (int) r(3); m.al = (int) r(2);
	if (r.chance(40)) { m.salt = m.eq = 0; if (r.chance(50)) { m.al = 0; return new C(); } return new C(typename C::allocator_type(m.al)); }
	size_t n = r.chance(30) ? 0 : r(40); trace("new(%zu);", n); return new C(n, Hash(m.salt), Eq(m.eq), typename C::allocator_type(m.al));
}
static void op_copy(C *&c, Model &m, C *&d, Model &dm, Rng &r) {
	dm.res_n = 0; using A = typename C::allocator_type;
	switch (r(7)) {
	case 0: trace("d = copy(c);"); delete d; d = new C(*c); dm = m; break;
	case 1: { int a = (int) r(2); trace("d = copy(c, alloc%d);", a); delete d; d = new C(*c, A(a)); dm = m; dm.al = a; break; }
	case 2: { trace("d assigned from c;"); *d = *c; int al = PROP ? m.al : dm.al; dm = m; dm.al = al; break; }
	case 3: trace("d = move(c);"); delete d; d = new C(std::move(*c)); dm = m; delete c; c = fresh(m, r); break;
	case 4: { int a = (int) r(2); trace("d = move(c, alloc%d);", a); delete d; d = new C(std::move(*c), A(a)); dm = m; dm.al = a; delete c; c = fresh(m, r); break; }
	case 5: { trace("d move-assigned from c;"); *d = std::move(*c); int al = PROP ? m.al : dm.al; dm = m; dm.al = al;
		if (r.chance(50)) { trace("c.clear();"); c->clear(); Model x; x.salt = c->hash_function().salt; x.eq = c->key_eq().id; x.al = c->get_allocator().id; x.mlf = c->max_load_factor(); m = x; } else { delete c; c = fresh(m, r); } break; }
	default: if (m.al != dm.al && !PROP) break; trace("swap(c, d);"); if (r.chance(50)) c->swap(*d); else { using std::swap; swap(*c, *d); } std::swap(m, dm);
	}
	m.res_n = dm.res_n = 0;
}
static void op_eq(C *c, Model &m, C *d, Model &dm) {
	auto eq = [&](const Model &a, const Model &b) { if (a.e.size() != b.e.size()) return false; for (auto &x: a.e) { int i = b.idx(0, x.k[0]); if (i < 0 || !eqk(x, b.e[(size_t) i]) || (M && b.e[(size_t) i].v != x.v)) return false; } return true; };
	trace("==;"); const C &a = *c, &b = *d; bool w = eq(m, dm);
	CHK(EQ, (a == b) == w && (b == a) == w, "operator== is %d, expected %d", (int) (a == b), (int) w); CHK(EQ, (a != b) == !w, "operator!= is %d, expected %d", (int) (a != b), (int) !w);
	CHK(EQ, a == a && !(a != a), "a container differs from itself");
}
static void history(uint64_t seed, size_t maxlen) {
	Rng r(seed); g_trace.n = 0; g_trace.buf[0] = 0; g_live = 0; g_blocks.clear(); g_rep = 0;
	static const int us[] = {4, 8, 16, 24, 40, 64}; U = us[r(6)]; fill_tables(r, U);
	size_t len = 1 + r(r.chance(50) ? 30 : 160); if (len > maxlen) len = maxlen; unsigned w_ins = 20 + (unsigned) r(60), w_er = 5 + (unsigned) r(w_ins + 10);
	{
		Model m, dm; C *c = fresh(m, r), *d = fresh(dm, r);
		if (r.chance(30)) { int n = (int) r((uint64_t) U + 1); trace("fill %d;", n); for (int i = 0; i < n; i++) { El e{}; for (size_t j = 0; j < N; j++) e.k[j] = (i + (int) j * 7) % U; e.rep = ++g_rep; e.v = M ? 3 : 0; e.vr = M ? e.rep : 0; if constexpr (M) c->insert(PT(mkk_(e.k, e.rep), Obj(3, e.rep))); else c->insert(mkk_(e.k, e.rep)); m.e.push_back(e); } }
		for (size_t i = 0; i < len; i++) {
			++g_ops; unsigned p = (unsigned) r(w_ins + w_er + 30);
			if (p < w_ins) op_insert(*c, m, r, false); else if (p < w_ins + w_er) op_erase(*c, m, r);
			else switch (r(8)) {
				case 0: case 1: if (G & G_CAP) op_cap(*c, m, r); break;
				case 2: case 3: if (G & G_COPY) op_copy(c, m, d, dm, r); break;
				case 4: case 5: if (G & G_HINT) op_insert(*c, m, r, true); break;
				case 6: if (G & G_EQ) op_eq(c, m, d, dm); break;
				default: if (r.chance(30)) { trace("clear;"); c->clear(); m.e.clear(); m.res_n = 0; } else if (r.chance(50) && (G & (G_COPY | G_EQ))) { trace("switch;"); std::swap(c, d); std::swap(m, dm); }
			}
			audit(*c, m, "first container"); if (i % 4 == 0 || i + 1 == len) audit(*d, dm, "second container");
		}
		delete c; delete d;
	}
	CHK(LIFE, g_live == 0, "%lld elements are never destroyed (or destroyed twice)", (long long) g_live);
	CHK(ALLOC, g_blocks.empty(), "%zu blocks are never deallocated", g_blocks.size());
	++g_histories;
}
};
static void history(uint64_t seed, size_t maxlen) { Run<Cont>::history(seed, maxlen); }
#include "main.hpp"
