// Random histories over one single-key container against a reference model (a vector in insertion order).
// Built once per container: -DCONT=n, see the table below.
#include "common.hpp"
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>

#define SETC(name) tpp::name<Obj, Hash, Eq, Al<Obj>>
#define MAPC(name, P) tpp::name<Obj, Obj, Hash, Eq, Al<P>>
using PP = std::pair<Obj, Obj>; using CP = std::pair<const Obj, Obj>;
#if CONT == 0
using Cont = SETC(sparse_set); constexpr bool M = 0, O = 0, S = 0, D = 0; const char *NAME = "sparse_set";
#elif CONT == 1
using Cont = SETC(ordered_sparse_set); constexpr bool M = 0, O = 1, S = 0, D = 0; const char *NAME = "ordered_sparse_set";
#elif CONT == 2
using Cont = MAPC(sparse_map, PP); constexpr bool M = 1, O = 0, S = 0, D = 0; const char *NAME = "sparse_map";
#elif CONT == 3
using Cont = MAPC(ordered_sparse_map, PP); constexpr bool M = 1, O = 1, S = 0, D = 0; const char *NAME = "ordered_sparse_map";
#elif CONT == 4
using Cont = SETC(stable_set); constexpr bool M = 0, O = 0, S = 1, D = 0; const char *NAME = "stable_set";
#elif CONT == 5
using Cont = SETC(ordered_stable_set); constexpr bool M = 0, O = 1, S = 1, D = 0; const char *NAME = "ordered_stable_set";
#elif CONT == 6
using Cont = MAPC(stable_map, CP); constexpr bool M = 1, O = 0, S = 1, D = 0; const char *NAME = "stable_map";
#elif CONT == 7
using Cont = MAPC(ordered_stable_map, CP); constexpr bool M = 1, O = 1, S = 1, D = 0; const char *NAME = "ordered_stable_map";
#elif CONT == 8
using Cont = SETC(dense_set); constexpr bool M = 0, O = 0, S = 0, D = 1; const char *NAME = "dense_set";
#elif CONT == 9
using Cont = SETC(ordered_dense_set); constexpr bool M = 0, O = 1, S = 0, D = 1; const char *NAME = "ordered_dense_set";
#elif CONT == 10
using Cont = MAPC(dense_map, PP); constexpr bool M = 1, O = 0, S = 0, D = 1; const char *NAME = "dense_map";
#elif CONT == 11
using Cont = MAPC(ordered_dense_map, PP); constexpr bool M = 1, O = 1, S = 0, D = 1; const char *NAME = "ordered_dense_map";
#endif
const char *g_container = NAME;

struct El { int cls, rep, v, vr; const void *addr; };
struct Model { std::vector<El> e; int salt = 0, eq = 0, al = 0; size_t res_n = 0, res_bc = 0; float mlf = .875f;
	int idx(int c) const { for (size_t i = 0; i < e.size(); i++) if (e[i].cls == c) return (int) i; return -1; } };

template<class R> const Obj &kof(const R &r) { if constexpr (M) return r.first; else return r; }
template<class I> const Obj &key_at(I i) { if constexpr (M) return (*i).first; else return *i; }
template<class I> const Obj *val_at(I i) { if constexpr (M) return &(*i).second; else return nullptr; }
template<class I> El read(I i) { const Obj &k = key_at(i); k.use("read"); El r{k.cls, k.rep, 0, 0, &k}; if constexpr (M) { auto *v = val_at(i); v->use("read"); r.v = v->cls; r.vr = v->rep; } return r; }

static int U = 16; // universe of keys
static int g_rep = 0;
static unsigned G; // groups of operations enabled
enum { G_INS = 1, G_ERASE = 2, G_CAP = 4, G_COPY = 8, G_NODE = 16, G_HINT = 32, G_ASSIGN = 64, G_EQ = 128, G_RANGE = 256 };

// ---------------------------------------------------------------- audits
template<class C> struct Run {
using It = typename C::iterator; using CIt = typename C::const_iterator;
static void same(const El &got, const El &want, const char *where, bool addr = true) {
	CHK(LOOKUP | ITER, got.cls == want.cls, "%s: found key %d, expected %d", where, got.cls, want.cls);
	CHK(VALUE, got.rep == want.rep, "%s: stored key object of %d is #%d, expected #%d", where, want.cls, got.rep, want.rep);
	if (M) CHK(VALUE, got.v == want.v && got.vr == want.vr, "%s: mapped value of %d is %d#%d, expected %d#%d", where, want.cls, got.v, got.vr, want.v, want.vr);
	if (S && addr && want.addr) CHK(ADDR, got.addr == want.addr, "%s: element %d moved from %p to %p", where, want.cls, want.addr, got.addr);
}
static void audit(C &c, Model &m, const char *where) {
	const C &cc = c;
	CHK(SIZE | OTHER, c.size() == m.e.size(), "%s: size() is %zu, expected %zu", where, (size_t) c.size(), m.e.size());
	CHK(SIZE | OTHER, c.empty() == m.e.empty(), "%s: empty() is %d", where, (int) c.empty());
	for (int k = 0; k < U; k++) {
		Obj key(k, -1); int i = m.idx(k); bool in = cc.contains(key);
		CHK(LOOKUP, in == (i >= 0), "%s: contains(%d) is %d, expected %d", where, k, (int) in, (int) (i >= 0));
		auto f = c.find(key); auto cf = cc.find(key);
		CHK(LOOKUP, (f != c.end()) == (i >= 0), "%s: find(%d) %s", where, k, i >= 0 ? "fails" : "succeeds");
		CHK(LOOKUP, (cf != cc.end()) == (i >= 0), "%s: const find(%d) %s", where, k, i >= 0 ? "fails" : "succeeds");
		if (i >= 0 && f != c.end()) { El g = read(f); same(g, m.e[(size_t) i], where); if (S) m.e[(size_t) i].addr = g.addr; same(read(cf), m.e[(size_t) i], where); }
		if constexpr (M) {
			if (k % 5 == 0 && (i >= 0 || k == 0 || k == U - 1)) {
				int v = -5; bool thrown = false; try { v = cc.at(key).cls; } catch (const std::out_of_range &) { thrown = true; }
				CHK(RET, thrown == (i < 0), "%s: at(%d) %s", where, k, thrown ? "throws" : "does not throw");
				if (i >= 0 && !thrown) { CHK(VALUE | RET, v == m.e[(size_t) i].v, "%s: at(%d) is %d", where, k, v); c.at(key).use("read through at"); }
			}
		}
	}
	// iteration
	std::vector<char> seen((size_t) U, 0); size_t n = 0; size_t bad = 0; int last = -1; bool inorder = true; size_t pos = 0; std::string got;
	for (auto i = cc.begin(); i != cc.end(); ++i) {
		if (++n > m.e.size() + 2) break;
		El g = read(i); got += std::to_string(g.cls) + " ";
		int k = m.idx(g.cls);
		CHK(ITER, k >= 0, "%s: iteration visits %d, which is not stored", where, g.cls);
		if (k >= 0) { CHK(ITER, !seen[(size_t) g.cls], "%s: iteration visits %d twice", where, g.cls); seen[(size_t) g.cls] = 1; same(g, m.e[(size_t) k], where); }
		if (O && (pos >= m.e.size() || m.e[pos].cls != g.cls)) inorder = false;
		++pos;
	}
	(void) bad; (void) last;
	CHK(ITER, n == m.e.size(), "%s: iteration visits %zu elements of %zu", where, n, m.e.size());
	size_t n2 = 0; for (auto i = c.begin(); i != c.end(); i++) { if (++n2 > m.e.size() + 2) break; (void) key_at(i).cls; }
	CHK(ITER, n2 == m.e.size(), "%s: mutable iteration visits %zu elements of %zu", where, n2, m.e.size());
	if constexpr (O) {
		std::string want; for (auto &x: m.e) want += std::to_string(x.cls) + " ";
		CHK(ORDER, inorder && n == m.e.size(), "%s: iteration order is [%s], expected [%s]", where, got.c_str(), want.c_str());
		size_t k = m.e.size(); auto i = cc.end(); bool ok = true;
		while (k > 0) { --i; --k; if (read(i).cls != m.e[k].cls) { ok = false; break; } }
		CHK(ORDER, ok && i == cc.begin(), "%s: backward iteration disagrees with the order [%s]", where, want.c_str());
		if (!m.e.empty()) {
			CHK(ORDER, kof(c.front()).cls == m.e.front().cls && kof(cc.front()).cls == m.e.front().cls, "%s: front() is not the first element", where);
			CHK(ORDER, kof(c.back()).cls == m.e.back().cls && kof(cc.back()).cls == m.e.back().cls, "%s: back() is not the last element", where);
		}
	}
	if constexpr (D) {
		size_t k = 0; for (auto i = cc.rbegin(); i != cc.rend(); ++i) { if (++k > m.e.size() + 2) break; if (O && k <= m.e.size()) CHK(ORDER, kof(*i).cls == m.e[m.e.size() - k].cls, "%s: reverse iteration out of order", where); }
		CHK(ITER, k == m.e.size(), "%s: reverse iteration visits %zu elements of %zu", where, k, m.e.size());
	} else {
		size_t cap = c.bucket_count();
		CHK(CAP, c.size() <= cap - cap / 8, "%s: %zu elements in %zu slots", where, (size_t) c.size(), cap);
		CHK(CAP, cap == 0 || ((cap + 1) & cap) == 0, "%s: bucket count %zu", where, cap);
	}
	if (m.res_n) { if (m.e.size() <= m.res_n) CHK(CAP, c.bucket_count() == m.res_bc, "%s: reserve(%zu) gave %zu buckets, with %zu elements there are %zu", where, m.res_n, m.res_bc, m.e.size(), (size_t) c.bucket_count()); if (m.e.size() >= m.res_n) m.res_n = 0; }
	CHK(FUNC, c.hash_function().salt == m.salt, "%s: hasher is #%d, expected #%d", where, c.hash_function().salt, m.salt);
	CHK(FUNC, c.key_eq().id == m.eq, "%s: comparator is #%d, expected #%d", where, c.key_eq().id, m.eq);
	CHK(FUNC, c.get_allocator().id == m.al, "%s: allocator is #%d, expected #%d", where, c.get_allocator().id, m.al);
	if constexpr (D) CHK(FUNC, c.max_load_factor() == m.mlf, "%s: max_load_factor is %f, expected %f", where, (double) c.max_load_factor(), (double) m.mlf);
}

// ---------------------------------------------------------------- helpers
static PP mkp(int k, int r, int v) { return PP(std::piecewise_construct, std::forward_as_tuple(k, r), std::forward_as_tuple(v, r)); }
static Hash hs(const Model &m) { return Hash(m.salt); }
static void inserted(C &c, Model &m, It it, bool ins, bool known_ins, int k, int r, int v, bool assign, int hintpos, const char *op) {
	int i = m.idx(k);
	if (known_ins) CHK(RET, ins == (i < 0), "%s(%d): inserted is %d", op, k, (int) ins);
	CHK(RET, it != c.end(), "%s(%d): returns end()", op, k);
	if (i < 0) {
		El e{k, r, M ? v : 0, M ? r : 0, nullptr};
		if (hintpos == -2) m.e.push_back(e); // no hint
		else if (hintpos == -1) m.e.insert(m.e.begin(), e); // hint end(): directly after the header
		else m.e.insert(m.e.begin() + hintpos + 1, e);
		i = m.idx(k);
	} else if (assign) { m.e[(size_t) i].v = v; m.e[(size_t) i].vr = r; }
	if ((g_active & RET) && it != c.end()) { El g = read(it), &w = m.e[(size_t) i]; CHK(RET, g.cls == k && g.rep == w.rep && g.v == w.v && g.vr == w.vr, "%s(%d): the returned iterator names %d#%d->%d#%d, expected %d#%d->%d#%d", op, k, g.cls, g.rep, g.v, g.vr, k, w.rep, w.v, w.vr); }
}
static void arg_same(const Obj &o, int cls, int rep, const char *op) { CHK(ARGS, !o.moved && o.cls == cls && o.rep == rep, "%s(%d): the caller's object was modified", op, cls); }
// a const_iterator naming the i-th model element, end() for -1
static CIt iter_of(C &c, const Model &m, int i) { if (i < 0) return c.cend(); Obj k(m.e[(size_t) i].cls, -1); return CIt{c.find(k)}; }



static void op_insert(C &c, Model &m, Rng &r) {
	int k = (int) r((uint64_t) U), rp = ++g_rep, v = (int) r(1000); bool had = m.idx(k) >= 0;
	switch (r(M ? 12 : 7)) {
	case 0: { trace("insert(%d);", k); if constexpr (M) { const PP p = mkp(k, rp, v); auto x = c.insert(p); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert"); arg_same(p.first, k, rp, "insert"); arg_same(p.second, v, rp, "insert"); }
		else { const Obj o(k, rp); auto x = c.insert(o); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert"); arg_same(o, k, rp, "insert"); } break; }
	case 1: { trace("insert(move %d);", k); if constexpr (M) { PP p = mkp(k, rp, v); auto x = c.insert(std::move(p)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert(&&)"); }
		else { Obj o(k, rp); auto x = c.insert(std::move(o)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert(&&)"); } break; }
	case 2: { trace("insert(lvalue %d);", k); if constexpr (M) { PP p = mkp(k, rp, v); auto x = c.insert(p); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert(lvalue)"); arg_same(p.first, k, rp, "insert(lvalue)"); arg_same(p.second, v, rp, "insert(lvalue)"); }
		else { Obj o(k, rp); auto x = c.insert(o); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert(lvalue)"); arg_same(o, k, rp, "insert(lvalue)"); } break; }
	case 3: { trace("emplace(%d);", k); if constexpr (M) { Obj a(k, rp), b(v, rp); auto x = c.emplace(a, b); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "emplace"); arg_same(a, k, rp, "emplace"); arg_same(b, v, rp, "emplace"); }
		else { auto x = c.emplace(k, rp); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "emplace"); } break; }
	case 4: { trace("emplace(move %d);", k); if constexpr (M) { Obj a(k, rp), b(v, rp); auto x = c.emplace(std::move(a), std::move(b)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "emplace(&&)"); }
		else { Obj a(k, rp); auto x = c.emplace(a); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "emplace"); arg_same(a, k, rp, "emplace"); } break; }
	case 5: { // range
		int n = (int) r(6); trace("insert range["); std::vector<std::conditional_t<M, CP, typename C::key_type>> vec; vec.reserve(8); std::vector<El> els;
		for (int j = 0; j < n; j++) { int kk = (int) r((uint64_t) U), rr = ++g_rep, vv = (int) r(1000); trace("%d ", kk); if constexpr (M) vec.emplace_back(std::piecewise_construct, std::forward_as_tuple(kk, rr), std::forward_as_tuple(vv, rr)); else vec.emplace_back(kk, rr); els.push_back({kk, rr, M ? vv : 0, M ? rr : 0, nullptr}); }
		trace("];"); c.insert(vec.begin(), vec.end()); m.res_n = 0;
		for (auto &e: els) if (m.idx(e.cls) < 0) m.e.push_back(e);
		break; }
	case 6: { trace("insert(end() known absent %d);", k); if (had) break; if constexpr (M) { auto x = c.insert(mkp(k, rp, v)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert"); } else { auto x = c.insert(Obj(k, rp)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "insert"); } break; }
	default: if constexpr (M) switch (r(9)) {
		case 0: { trace("try_emplace(%d);", k); const Obj a(k, rp); Obj b(v, rp); auto x = c.try_emplace(a, b); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "try_emplace"); arg_same(a, k, rp, "try_emplace"); arg_same(b, v, rp, "try_emplace"); break; }
		case 1: { trace("try_emplace(lvalue %d, move);", k); Obj a(k, rp), b(v, rp); auto x = c.try_emplace(a, std::move(b)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "try_emplace"); arg_same(a, k, rp, "try_emplace"); if (had) arg_same(b, v, rp, "try_emplace"); break; }
		case 2: { trace("try_emplace(move %d);", k); Obj a(k, rp), b(v, rp); auto x = c.try_emplace(std::move(a), std::move(b)); inserted(c, m, x.first, x.second, 1, k, rp, v, 0, -2, "try_emplace"); if (had) { arg_same(a, k, rp, "try_emplace"); arg_same(b, v, rp, "try_emplace"); } break; }
		case 3: { trace("insert_or_assign(%d);", k); const Obj a(k, rp); Obj b(v, rp); auto x = c.insert_or_assign(a, b); inserted(c, m, x.first, x.second, 1, k, rp, v, 1, -2, "insert_or_assign"); arg_same(a, k, rp, "insert_or_assign"); arg_same(b, v, rp, "insert_or_assign"); break; }
		case 4: { trace("insert_or_assign(move %d);", k); Obj a(k, rp), b(v, rp); auto x = c.insert_or_assign(std::move(a), std::move(b)); inserted(c, m, x.first, x.second, 1, k, rp, v, 1, -2, "insert_or_assign"); break; }
		case 5: { trace("emplace_or_replace(%d);", k); Obj a(k, rp); auto x = c.emplace_or_replace(a, v, rp); inserted(c, m, x.first, x.second, 1, k, rp, v, 1, -2, "emplace_or_replace"); arg_same(a, k, rp, "emplace_or_replace"); break; }
		case 6: { trace("operator[](%d);", k); const Obj a(k, rp); Obj &b = c[a]; arg_same(a, k, rp, "operator[]"); if (!had) m.e.push_back({k, rp, 0, 0, nullptr}); El &e = m.e[(size_t) m.idx(k)]; CHK(RET, b.cls == e.v && b.rep == e.vr, "operator[](%d) yields %d#%d, expected %d#%d", k, b.cls, b.rep, e.v, e.vr); b = Obj(v, rp); e.v = v; e.vr = rp; break; }
		case 7: { trace("operator[](lvalue %d);", k); Obj a(k, rp); Obj &b = c[a]; arg_same(a, k, rp, "operator[]"); if (!had) m.e.push_back({k, rp, 0, 0, nullptr}); El &e = m.e[(size_t) m.idx(k)]; CHK(RET, b.cls == e.v && b.rep == e.vr, "operator[](%d) yields %d#%d, expected %d#%d", k, b.cls, b.rep, e.v, e.vr); break; }
		default: { trace("operator[](move %d);", k); Obj a(k, rp); Obj &b = c[std::move(a)]; if (had) arg_same(a, k, rp, "operator[]"); if (!had) m.e.push_back({k, rp, 0, 0, nullptr}); El &e = m.e[(size_t) m.idx(k)]; CHK(RET, b.cls == e.v && b.rep == e.vr, "operator[](%d) yields %d#%d, expected %d#%d", k, b.cls, b.rep, e.v, e.vr); break; }
		}
	}
}
static void op_hint(C &c, Model &m, Rng &r) {
	int k = (int) r((uint64_t) U), rp = ++g_rep, v = (int) r(1000); bool had = m.idx(k) >= 0;
	int h = r.chance(25) ? -1 : m.e.empty() ? -1 : (int) r(m.e.size());
	CIt hint = iter_of(c, m, h); trace("hint %d:", h < 0 ? -1 : m.e[(size_t) h].cls);
	It x = c.end(); const char *op = "";
	// where an element inserted with this hint stands is read back below; unordered containers have no position
	switch (r(M ? 9 : 4)) {
	case 0: op = "insert(hint)"; trace("insert(%d);", k); if constexpr (M) { const PP p = mkp(k, rp, v); x = c.insert(hint, p); arg_same(p.first, k, rp, op); } else { const Obj o(k, rp); x = c.insert(hint, o); arg_same(o, k, rp, op); } break;
	case 1: op = "insert(hint, &&)"; trace("insert(move %d);", k); if constexpr (M) x = c.insert(hint, mkp(k, rp, v)); else x = c.insert(hint, Obj(k, rp)); break;
	case 2: op = "emplace_hint"; trace("emplace_hint(%d);", k); if constexpr (M) { Obj a(k, rp), b(v, rp); x = c.emplace_hint(hint, a, b); arg_same(a, k, rp, op); } else x = c.emplace_hint(hint, k, rp); break;
	case 3: op = "insert(hint, lvalue)"; trace("insert(lvalue %d);", k); if constexpr (M) { PP p = mkp(k, rp, v); x = c.insert(hint, p); arg_same(p.first, k, rp, op); } else { Obj o(k, rp); x = c.insert(hint, o); arg_same(o, k, rp, op); } break;
	default: if constexpr (M) switch (r(5)) {
		case 0: op = "try_emplace(hint)"; trace("try_emplace(%d);", k); { Obj a(k, rp), b(v, rp); x = c.try_emplace(hint, a, b); arg_same(a, k, rp, op); arg_same(b, v, rp, op); } break;
		case 1: op = "try_emplace(hint, &&)"; trace("try_emplace(move %d);", k); { Obj a(k, rp), b(v, rp); x = c.try_emplace(hint, std::move(a), std::move(b)); if (had) { arg_same(a, k, rp, op); arg_same(b, v, rp, op); } } break;
		case 2: op = "insert_or_assign(hint)"; trace("insert_or_assign(%d);", k); { Obj a(k, rp), b(v, rp); const Obj &ca = a; x = c.insert_or_assign(hint, ca, b); arg_same(a, k, rp, op); inserted(c, m, x, 0, 0, k, rp, v, 1, -2, op); } goto placed;
		case 3: op = "insert_or_assign(hint, &&)"; trace("insert_or_assign(move %d);", k); { Obj a(k, rp), b(v, rp); x = c.insert_or_assign(hint, std::move(a), std::move(b)); inserted(c, m, x, 0, 0, k, rp, v, 1, -2, op); } goto placed;
		default: op = "emplace_or_replace(hint)"; trace("emplace_or_replace(%d);", k); { Obj a(k, rp); x = c.emplace_or_replace(hint, a, v, rp); arg_same(a, k, rp, op); inserted(c, m, x, 0, 0, k, rp, v, 1, -2, op); } goto placed;
		}
	}
	inserted(c, m, x, 0, 0, k, rp, v, 0, -2, op);
placed:
	if (O && !had) { // the model takes over the position of the new element; the others must keep their order (checked by the audit)
		El e = m.e.back(); m.e.pop_back(); size_t pos = 0; bool found = false;
		for (auto i = c.begin(); i != c.end() && pos <= m.e.size(); ++i, ++pos) if (key_at(i).cls == k) { found = true; break; }
		CHK(ORDER | ITER, found, "%s(%d): the new element is not visited", op, k);
		if (!found) pos = m.e.size();
		m.e.insert(m.e.begin() + (long) pos, e);
	}
}
static void check_succ(C &c, Model &m, It it, int want, const char *op) { // want: key expected next, -1 end
	if constexpr (O || D) {
		(void) m;
		if (want < 0) CHK(RET, it == c.end(), "%s does not return end()", op);
		else { CHK(RET, it != c.end(), "%s returns end(), expected %d", op, want); if (it != c.end() && (g_active & RET)) { int g = key_at(it).cls; CHK(RET, g == want, "%s returns %d, expected the successor %d", op, g, want); } }
	} else { (void) c; (void) m; (void) it; (void) want; (void) op; }
}
static void op_erase(C &c, Model &m, Rng &r) {
	m.res_n = 0;
	auto order = [&] { std::vector<int> o; for (auto i = c.begin(); i != c.end() && o.size() <= m.e.size(); ++i) o.push_back(key_at(i).cls); return o; };
	auto drop = [&](int k) { int i = m.idx(k); if (i >= 0) m.e.erase(m.e.begin() + i); };
	switch (r(7)) {
	case 0: case 1: { // key
		int k = (int) r((uint64_t) U); if (r.chance(70) && !m.e.empty()) k = m.e[r(m.e.size())].cls;
		trace("erase(%d);", k); auto o = order(); Obj key(k, -1); bool had = m.idx(k) >= 0; size_t before = c.size(); auto it = c.erase(key); drop(k);
		arg_same(key, k, -1, "erase");
		CHK(RET | SIZE, c.size() == before - (had ? 1 : 0), "erase(%d) leaves size %zu of %zu", k, (size_t) c.size(), before);
		auto p = std::find(o.begin(), o.end(), k);
		if (!had) CHK(RET, it == c.end(), "erase of the absent key %d does not return end()", k);
		else if (p != o.end()) {
			size_t at = (size_t) (p - o.begin());
			if (O || !D) { int want = at + 1 < o.size() ? o[at + 1] : -1; CHK(RET, (it == c.end()) == (want < 0), "erase(%d) %s end()", k, want < 0 ? "does not return" : "returns"); if (want >= 0 && it != c.end() && (g_active & RET)) CHK(RET, key_at(it).cls == want, "erase(%d) returns %d, expected the successor %d", k, key_at(it).cls, want); }
		}
		break; }
	case 2: case 3: { // iterator
		if (m.e.empty()) break; int k = m.e[r(m.e.size())].cls; if (r.chance(30)) { auto o = order(); if (o.empty()) break; k = r.chance(50) ? o.back() : o.front(); }
		trace("erase(it %d);", k); auto o = order(); Obj key(k, -1); auto f = c.find(key); if (f == c.end()) { CHK(LOOKUP, 0, "find(%d) fails", k); break; }
		auto it = r.chance(50) ? c.erase(f) : c.erase(CIt{f}); drop(k);
		auto p = std::find(o.begin(), o.end(), k); size_t at = (size_t) (p - o.begin());
		if (O || !D) { int want = at + 1 < o.size() ? o[at + 1] : -1; CHK(RET, (it == c.end()) == (want < 0), "erase(it %d) %s end()", k, want < 0 ? "does not return" : "returns"); if (want >= 0 && it != c.end() && (g_active & RET)) CHK(RET, key_at(it).cls == want, "erase(it %d) returns %d, expected the successor %d", k, key_at(it).cls, want); }
		break; }
	case 4: { // erase loop with a predicate
		unsigned mask = (unsigned) r.next(); trace("erase loop %x;", mask); auto o = order(); std::multiset<int> visited; size_t guard = 0;
		for (auto i = c.cbegin(); i != c.cend();) { if (++guard > o.size() * 2 + 2) break; int k = key_at(i).cls; visited.insert(k); if (mask >> (k & 31) & 1) { i = c.erase(i); drop(k); } else ++i; }
		std::multiset<int> want(o.begin(), o.end()); CHK(RET, visited == want, "erase loop visits %zu elements, %zu were stored", visited.size(), want.size());
		break; }
	case 5: { // erase_if
		unsigned mask = (unsigned) r.next(); if (r.chance(20)) mask = ~0u; trace("erase_if %x;", mask); size_t n0 = 0; for (auto &e: m.e) n0 += mask >> (e.cls & 31) & 1;
		std::multiset<int> visited, want; for (auto &e: m.e) want.insert(e.cls);
		size_t n = erase_if(c, [&](const auto &v) { int k = kof(v).cls; visited.insert(k); return mask >> (k & 31) & 1; });
		m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](El &e) { return mask >> (e.cls & 31) & 1; }), m.e.end());
		CHK(RET, n == n0, "erase_if reports %zu, expected %zu", n, n0); CHK(RET, visited == want, "erase_if consults the predicate %zu times for %zu elements", visited.size(), want.size());
		break; }
	default: { // range
		auto o = order(); if (o.size() != m.e.size()) break; size_t a = r(o.size() + 1), b = a + r(o.size() - a + 1); if (r.chance(20)) { a = 0; b = o.size(); }
		trace("erase range [%zu,%zu);", a, b); auto f = c.cbegin(); for (size_t i = 0; i < a; i++) ++f; auto l = f; for (size_t i = a; i < b; i++) ++l;
		auto it = c.erase(f, l); for (size_t i = a; i < b; i++) drop(o[i]);
		if (O || !D) { int want = b < o.size() ? o[b] : -1; CHK(RET, (it == c.end()) == (want < 0), "erase range %s end()", want < 0 ? "does not return" : "returns"); if (want >= 0 && it != c.end() && (g_active & RET)) CHK(RET, key_at(it).cls == want, "erase range returns %d, expected %d", key_at(it).cls, want); }
		break; }
	}
}
static void op_cap(C &c, Model &m, Rng &r) {
	size_t n; switch (r(5)) { case 0: n = 0; break; case 1: n = r(m.e.size() + 1); break; case 2: n = m.e.size(); break; case 3: n = 1 + r(20); break; default: n = r(200); }
	size_t bc = c.bucket_count();
	if (r.chance(55)) { trace("reserve(%zu);", n); c.reserve(n); if (n >= m.e.size() && n > 0 && (!D || m.mlf == .875f)) { m.res_n = n; m.res_bc = c.bucket_count(); } }
	else { trace("rehash(%zu);", n); c.rehash(n); m.res_n = 0; if (!D && n > bc) CHK(CAP, c.bucket_count() >= n, "rehash(%zu) leaves %zu buckets", n, (size_t) c.bucket_count()); }
	if constexpr (D) if (r.chance(10)) { static const float f[] = {.875f, .5f, 1.f, 2.f, .25f}; m.mlf = f[r(5)]; trace("max_load_factor(%g);", (double) m.mlf); c.max_load_factor(m.mlf); m.res_n = 0; }
}
// ---------------------------------------------------------------- two containers
struct Slot { C c; Model m; };
static C *fresh(Model &m, Rng &r) {
	m = Model{}; m.salt = (int) r(4); m.eq = (int) r(3); m.al = (int) r(2);
	if (r.chance(40)) { m.salt = m.eq = 0; if (r.chance(50)) { m.al = 0; return new C(); } return new C(Al<Obj>(m.al)); }
	size_t n = r.chance(30) ? 0 : r(40); trace("new(%zu, hash%d, eq%d, alloc%d);", n, m.salt, m.eq, m.al);
	return new C(n, Hash(m.salt), Eq(m.eq), Al<Obj>(m.al));
}
static void strip(Model &m) { for (auto &e: m.e) e.addr = nullptr; m.res_n = 0; }
static void op_copy(C *&c, Model &m, C *&d, Model &dm, Rng &r) {
	dm.res_n = 0; bool same_al = m.al == dm.al;
	switch (r(8)) {
	case 0: { trace("d = copy(c);"); delete d; d = new C(*c); dm = m; strip(dm); break; }
	case 1: { int a = (int) r(2); trace("d = copy(c, alloc%d);", a); delete d; d = new C(*c, Al<Obj>(a)); dm = m; dm.al = a; strip(dm); break; }
	case 2: { trace("d assigned from c;"); *d = *c; int al = PROP ? m.al : dm.al; dm = m; dm.al = al; strip(dm); break; }
	case 3: { trace("d = move(c);"); delete d; d = new C(std::move(*c)); dm = m; dm.res_n = 0; delete c; c = fresh(m, r); break; }
	case 4: { int a = (int) r(2); trace("d = move(c, alloc%d);", a); delete d; d = new C(std::move(*c), Al<Obj>(a)); bool eq = a == m.al; dm = m; dm.al = a; dm.res_n = 0; if (!eq) strip(dm); delete c; c = fresh(m, r); break; }
	case 5: { trace("d move-assigned from c;"); *d = std::move(*c); int al = PROP ? m.al : dm.al; bool eq = al == m.al; dm = m; dm.al = al; dm.res_n = 0; (void) eq;
		if (S && !eq) strip(dm);
		// whatever c holds now, it must be a valid container
		if (r.chance(50)) { trace("c.clear();"); c->clear(); Model x; x.salt = c->hash_function().salt; x.eq = c->key_eq().id; x.al = c->get_allocator().id; x.mlf = m.mlf; if constexpr (D) x.mlf = c->max_load_factor(); m = x; } else { delete c; c = fresh(m, r); }
		break; }
	case 6: { if (!same_al && !PROP) break; trace("swap(c, d);"); if (r.chance(50)) c->swap(*d); else { using std::swap; swap(*c, *d); } std::swap(m, dm); break; }
	default: { // self assignment, initializer list, range construction
		if (r.chance(40)) { trace("self assign;"); C &x = *c; if (r.chance(50)) *c = x; else *c = std::move(x); m.res_n = 0; break; }
		if (r.chance(50)) { trace("c = {0,1,2};"); if constexpr (M) *c = {{Obj(0, 1), Obj(7, 1)}, {Obj(1, 1), Obj(8, 1)}, {Obj(0, 2), Obj(9, 1)}}; else *c = {Obj(0, 1), Obj(1, 1), Obj(0, 2)}; m.res_n = 0; m.e = {{0, 1, M ? 7 : 0, M ? 1 : 0, nullptr}, {1, 1, M ? 8 : 0, M ? 1 : 0, nullptr}}; }
		else { trace("range construct from c;"); std::vector<std::conditional_t<M, CP, typename C::key_type>> v; for (auto &e: m.e) { if constexpr (M) v.emplace_back(std::piecewise_construct, std::forward_as_tuple(e.cls, e.rep), std::forward_as_tuple(e.v, e.vr)); else v.emplace_back(e.cls, e.rep); } int al = (int) r(2); delete d; d = new C(v.begin(), v.end(), r(20), Hash(m.salt), Eq(m.eq), Al<Obj>(al)); dm = m; dm.mlf = .875f; dm.al = al; strip(dm); }
	} }
	m.res_n = 0;
}
static void op_eq(C *c, Model &m, C *d, Model &dm) {
	auto eq = [&](const Model &a, const Model &b) { if (a.e.size() != b.e.size()) return false; for (auto &x: a.e) { int i = b.idx(x.cls); if (i < 0 || (M && b.e[(size_t) i].v != x.v)) return false; } return true; };
	trace("==;"); const C &a = *c, &b = *d; bool w = eq(m, dm);
	CHK(EQ, (a == b) == w && (b == a) == w, "operator== is %d, expected %d", (int) (a == b), (int) w); CHK(EQ, (a != b) == !w, "operator!= is %d, expected %d", (int) (a != b), (int) !w);
	CHK(EQ, a == a && !(a != a), "a container differs from itself");
}
static void op_node(C *&c, Model &m, C *&d, Model &dm, Rng &r) {
	if constexpr (S) {
		m.res_n = dm.res_n = 0; bool same_al = m.al == dm.al;
		if (r.chance(30)) { // merge
			if (!same_al) return;
			trace("d.merge(c);"); if (r.chance(60)) d->merge(*c); else d->merge(std::move(*c));
			if (dm.e.empty() && false) {}
			std::vector<El> rest; bool whole = false; (void) whole;
			if (c->size() == 0 && !m.e.empty()) {} 
			for (auto &e: m.e) if (dm.idx(e.cls) < 0) dm.e.push_back(e); else rest.push_back(e);
			m.e = rest;
			// merge(&&) into an empty table is a move assignment and takes the functors as well
			dm.salt = d->hash_function().salt; dm.eq = d->key_eq().id; m.salt = c->hash_function().salt; m.eq = c->key_eq().id; dm.al = d->get_allocator().id;
			return;
		}
		// extract
		int k = (int) r((uint64_t) U); if (r.chance(75) && !m.e.empty()) k = m.e[r(m.e.size())].cls;
		int i = m.idx(k); Obj key(k, -1);
		bool by_it = i >= 0 && r.chance(50); trace("extract(%s%d);", by_it ? "it " : "", k);
		auto node = by_it ? c->extract(CIt{c->find(key)}) : c->extract(key);
		CHK(RET, node.empty() == (i < 0), "extract(%d) yields %s node", k, node.empty() ? "an empty" : "a"); CHK(RET, (bool) node == (i >= 0), "node handle converts to %d", (int) (bool) node);
		if (i < 0 || node.empty()) return;
		El e = m.e[(size_t) i]; m.e.erase(m.e.begin() + i);
		auto node_read = [&](auto &n) { El x{n.key().cls, n.key().rep, 0, 0, &n.key()}; if constexpr (M) { x.v = n.mapped().cls; x.vr = n.mapped().rep; } return x; };
		same(node_read(node), e, "extracted node");
		audit(*c, m, "after extract");
		if (r.chance(10)) { trace("drop node;"); return; }
		if (r.chance(10) && (PROP || node.get_allocator() == decltype(node){}.get_allocator())) { // the element a handle owns is released when another handle is assigned to it
			if (r.chance(50)) { trace("node = {};"); node = decltype(node){}; CHK(RET, node.empty(), "a handle assigned from an empty one is not empty"); }
			else if (!m.e.empty()) { El e3 = m.e[r(m.e.size())]; trace("node = extract(%d);", e3.cls); Obj k3(e3.cls, -1); node = c->extract(k3); m.e.erase(m.e.begin() + m.idx(e3.cls)); CHK(RET, !node.empty(), "a handle assigned from an owning one is empty"); if (!node.empty()) same(node_read(node), e3, "reassigned node"); }
			audit(*c, m, "after node assignment"); return;
		}
		if (r.chance(20)) { auto n2 = std::move(node); CHK(RET, node.empty(), "moved-from node is not empty"); node = std::move(n2); }
		if (r.chance(10)) { decltype(node) n2; using std::swap; if (PROP || node.get_allocator() == n2.get_allocator()) { swap(node, n2); swap(node, n2); } }
		bool back = r.chance(30); C *t = back ? c : d; Model &tm = back ? m : dm; int j = tm.idx(k); bool eqal = tm.al == m.al; El e2 = e; if (!eqal) e2.addr = nullptr;
		switch (r(4)) {
		case 0: case 1: { trace("%s.insert(node %d);", back ? "c" : "d", k); auto x = t->insert(std::move(node)); CHK(RET, x.inserted == (j < 0), "insert(node %d): inserted is %d", k, (int) x.inserted);
			CHK(RET, x.position != t->end() && key_at(x.position).cls == k, "insert(node %d): wrong position", k);
			if (j < 0) { tm.e.push_back(e2); CHK(RET, x.node.empty(), "insert(node %d): the node is returned although it was inserted", k); }
			else { CHK(RET, !x.node.empty(), "insert(node %d): the node is lost", k); if (!x.node.empty()) same(node_read(x.node), e, "rejected node"); }
			break; }
		case 2: { int h = tm.e.empty() || r.chance(30) ? -1 : (int) r(tm.e.size()); auto hint = iter_of(*t, tm, h); trace("%s.insert(hint, node %d);", back ? "c" : "d", k); auto x = t->insert(hint, std::move(node));
			CHK(RET, x != t->end() && key_at(x).cls == k, "insert(hint, node %d): wrong position", k);
			if (j >= 0) { CHK(RET, !node.empty(), "insert(hint, node %d): the rejected node is lost", k); if (!node.empty()) same(node_read(node), e, "rejected node"); }
			else { size_t pos = tm.e.size(); if (O) { pos = 0; for (auto q = t->begin(); q != t->end() && pos < tm.e.size(); ++q, ++pos) if (key_at(q).cls == k) break; } tm.e.insert(tm.e.begin() + (long) pos, e2); }
			break; }
		default: { trace("%s.insert_or_assign(node %d);", back ? "c" : "d", k); if constexpr (M) { auto x = t->insert_or_assign(std::move(node)); CHK(RET, x.second == (j < 0), "insert_or_assign(node %d): inserted is %d", k, (int) x.second); CHK(RET, key_at(x.first).cls == k, "insert_or_assign(node %d): wrong position", k);
			if (j < 0) tm.e.push_back(e2); else { tm.e[(size_t) j] = e2; } } else { auto x = t->insert(std::move(node)); if (x.inserted) tm.e.push_back(e2); }
			break; }
		}
		audit(*t, tm, "after node insertion");
	} else { (void) c; (void) m; (void) d; (void) dm; (void) r; }
}
// ---------------------------------------------------------------- saw-tooth filling: uses up the empty slots of a fixed capacity, so that deleted ones must be reclaimed in place
static void put(C &c, Model &m, int k) { ++g_rep; if constexpr (M) c.insert(mkp(k, g_rep, 3)); else c.insert(Obj(k, g_rep)); m.e.push_back({k, g_rep, M ? 3 : 0, M ? g_rep : 0, nullptr}); }
static void sawtooth(C &c, Model &m, Rng &r) {
	static const int caps[] = {15, 31, 31, 63, 63, 127}; int cap = caps[r(6)], hi = std::min(cap * 25 / 32 - (int) r(6), U - 1), turns = 1 + (int) r(4), mode = (int) r(3);
	unsigned every = 1 + (unsigned) r(12); trace("saw %d/%d m%d x%d:", hi, cap, mode, turns); if (r.chance(50)) c.reserve((size_t) hi); m.res_n = 0;
	for (int t = 0; t < turns; t++) {
		int lo = (int) r((uint64_t) hi);
		while ((int) m.e.size() > lo) { size_t i = mode == 0 ? 0 : mode == 1 ? m.e.size() - 1 : (size_t) r(m.e.size()); int k = m.e[i].cls; trace("-%d", k); Obj o(k, -1); c.erase(o); m.e.erase(m.e.begin() + (long) i); ++g_ops; if (r(every * 4) == 0) audit(c, m, "saw-tooth"); }
		size_t fixed = 0; if (r.chance(40)) { trace("reserve(%d);", hi); c.reserve((size_t) hi); fixed = c.bucket_count(); m.res_n = 0; }
		while ((int) m.e.size() < hi) { int k = (int) r((uint64_t) U); while (m.idx(k) >= 0) k = (k + 1) % U; trace("+%d", k); put(c, m, k); ++g_ops; if (fixed && (!D || m.mlf == .875f)) CHK(CAP, c.bucket_count() == fixed, "reserve(%d) gave %zu buckets, with %zu elements there are %zu", hi, fixed, m.e.size(), (size_t) c.bucket_count()); if (r(every) == 0) audit(c, m, "saw-tooth"); }
	}
	trace(";");
}
// ---------------------------------------------------------------- histories
static void history(uint64_t seed, size_t maxlen) {
	Rng r(seed); g_trace.n = 0; g_trace.buf[0] = 0; g_live = 0; g_blocks.clear(); g_rep = 0;
	static const int us[] = {4, 8, 16, 24, 40, 64, 120, 250}; U = us[r(r.chance(70) ? 5 : 8)];
	fill_tables(r, U);
	size_t len = 1 + r(r.chance(50) ? 30 : 160); if (len > maxlen) len = maxlen;
	bool saw = r.chance(25); if (saw) { static const int su[] = {20, 40, 64, 120, 250}; U = su[r(5)]; fill_tables(r, U); }
	unsigned w_ins = 20 + (unsigned) r(60), w_er = 5 + (unsigned) r(w_ins + 10), churn = r.chance(30);
	{
		Model m, dm; C *c = fresh(m, r), *d = fresh(dm, r);
		if (r.chance(30)) { size_t k = r((uint64_t) U + 1); trace("fill %zu;", k); for (size_t i = 0; i < k; i++) { g_rep++; if constexpr (M) c->insert(mkp((int) i, g_rep, 3)); else c->insert(Obj((int) i, g_rep)); m.e.push_back({(int) i, g_rep, M ? 3 : 0, M ? g_rep : 0, nullptr}); } }
		for (size_t i = 0; i < len; i++) {
			++g_ops; unsigned p = (unsigned) r(w_ins + w_er + 40);
			if (p < w_ins) op_insert(*c, m, r);
			else if (p < w_ins + w_er) op_erase(*c, m, r);
			else switch (r(10)) {
				case 0: case 1: if (G & G_CAP) op_cap(*c, m, r); break;
				case 2: case 3: if (G & G_COPY) op_copy(c, m, d, dm, r); break;
				case 4: case 5: if (G & G_NODE) op_node(c, m, d, dm, r); break;
				case 6: case 7: if (G & G_HINT) op_hint(*c, m, r); break;
				case 8: if (G & G_EQ) op_eq(c, m, d, dm); break;
				default: if (r.chance(30)) { trace("clear;"); c->clear(); m.e.clear(); m.res_n = 0; } else if (r.chance(50) && (G & (G_COPY | G_NODE | G_EQ))) { trace("switch;"); std::swap(c, d); std::swap(m, dm); }
			}
			if (saw && r.chance(4)) sawtooth(*c, m, r);
			if (churn && r.chance(60) && !m.e.empty()) { int k = m.e[r(m.e.size())].cls, n = (int) r((uint64_t) U); Obj ko(k, -1); trace("~%d,", k); m.res_n = 0; c->erase(ko); m.e.erase(m.e.begin() + m.idx(k)); if (m.idx(n) < 0) { trace("+%d;", n); g_rep++; if constexpr (M) c->insert(mkp(n, g_rep, 3)); else c->insert(Obj(n, g_rep)); m.e.push_back({n, g_rep, M ? 3 : 0, M ? g_rep : 0, nullptr}); } }
			audit(*c, m, "first container");
			if (i % 4 == 0 || i + 1 == len) audit(*d, dm, "second container");
		}
		delete c; delete d;
	}
	CHK(LIFE, g_live == 0, "%lld elements are never destroyed (or destroyed twice)", (long long) g_live);
	CHK(ALLOC, g_blocks.empty(), "%zu blocks are never deallocated", g_blocks.size());
	++g_histories;
}
};
static void history(uint64_t seed, size_t maxlen) { Run<Cont>::history(seed, maxlen); }
#include "main.hpp"
