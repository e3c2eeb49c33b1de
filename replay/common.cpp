#include "common.hpp"
unsigned g_active = ~0u; bool g_verbose = false; Trace g_trace; uint64_t g_seed = 0, g_histories = 0, g_ops = 0, g_checks = 0;
int64_t g_live = 0; size_t g_tab[4][MAXU]; std::unordered_map<void *, Block> g_blocks;
unsigned g_pause = 0;
void *blk_alloc(size_t n, size_t sz, int id) {
	CHK(ALLOC, n < (1ull << 40), "allocation of %zu objects", n);
	size_t bytes = n * sz; void *p = ::operator new(bytes ? bytes : 1); std::memset(p, 0xAA, bytes);
	g_blocks[p] = {n, sz, id}; return p;
}
void blk_free(void *p, size_t n, size_t sz, int id) {
	auto it = g_blocks.find(p);
	if (it == g_blocks.end()) { CHK(ALLOC, false, "deallocation of a block that is not allocated (%zu x %zu)", n, sz); return; }
	CHK(ALLOC, it->second.n == n && it->second.sz == sz, "block of %zu x %zu deallocated as %zu x %zu", it->second.n, it->second.sz, n, sz);
	CHK(ALLOC, it->second.id == id, "block of allocator %d deallocated by allocator %d", it->second.id, id);
	if (g_active & LIFE) // no live element may remain inside
		for (size_t off = 0; off + sizeof(Obj) <= it->second.n * it->second.sz; off += 8) {
			Obj *o = (Obj *) ((char *) p + off); uint32_t m; const Obj *s; std::memcpy(&m, &o->magic, 4); std::memcpy(&s, &o->self, 8);
			CHK(LIFE, !(m == LIVE && s == o), "block released with a live element inside");
		}
	g_blocks.erase(it); ::operator delete(p);
}
void fill_tables(Rng &r, int universe) {
	for (int t = 0; t < 4; t++) {
		unsigned mode = (unsigned) r(9);
		size_t a = r.next(), few = 1 + r(4);
		for (int i = 0; i < universe; i++)
			switch (mode) {
			case 0: g_tab[t][i] = a; break;                                          // everything collides
			case 1: g_tab[t][i] = (size_t) i; break;                                 // identity
			case 2: g_tab[t][i] = r.next(); break;                                   // random
			case 3: g_tab[t][i] = ((a + r(few)) << 7) | r(128); break;               // few positions, any fragment
			case 4: g_tab[t][i] = (r.next() << 7) | (a & 0x7f); break;               // one fragment
			case 5: g_tab[t][i] = (~size_t(0) - (r(40) << 7)) ; break;               // probes that wrap around
			case 6: g_tab[t][i] = ((size_t) i << 7) | (i & 1); break;
			case 7: g_tab[t][i] = r(few * 3); break;                                 // few hash values
			case 8: g_tab[t][i] = ((a + r(2)) << 7) | (a & 0x7f); break;
			}
		if (r.chance(50)) for (int u = t + 1; u < 4; u++, t++) std::memcpy(g_tab[u], g_tab[t], sizeof(g_tab[0]));
	}
}
