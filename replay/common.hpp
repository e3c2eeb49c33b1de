// Instrumented element, hash, comparison and allocator types for the replay harness, and its failure reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <tuple>
#include <unistd.h>
#include <signal.h>
#include <time.h>

// ---- kinds of observation; every property accepts the kinds listed for it in main()
enum Kind : unsigned {
	LOOKUP = 1,    // contains/find of every key of the universe
	ITER = 2,      // begin..end visits exactly the elements once
	SIZE = 4,      // size()/empty()
	ORDER = 8,     // ordered iteration, front/back
	RET = 16,      // what the operation returned
	LIFE = 32,     // object lifetimes
	ALLOC = 64,    // allocations
	ADDR = 128,    // element addresses of stable containers
	CAP = 256,     // bucket_count promises
	ARGS = 512,    // the caller's arguments afterwards
	FUNC = 1024,   // hasher/comparator/allocator of the container
	EQ = 2048,     // operator==
	VALUE = 4096,  // mapped values and stored keys
	OTHER = 8192,  // the second container of a binary operation
};
extern unsigned g_active; // kinds reported by this run
extern bool g_verbose;
struct Trace { char buf[1 << 16]; size_t n = 0; };
extern Trace g_trace;
extern const char *g_container;
extern uint64_t g_seed;
extern uint64_t g_histories, g_ops, g_checks;

inline void trace(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (g_trace.n + 200 < sizeof(g_trace.buf)) g_trace.n += (size_t) vsnprintf(g_trace.buf + g_trace.n, 190, fmt, ap);
	va_end(ap);
}
[[noreturn]] inline void die(const char *what, const char *fmt, ...) {
	printf("FAIL kind=%s container=%s seed=%llu\n", what, g_container, (unsigned long long) g_seed);
	va_list ap; va_start(ap, fmt); printf("MSG "); vprintf(fmt, ap); printf("\n"); va_end(ap);
	printf("TRACE %s\n", g_trace.buf);
	fflush(stdout); _exit(10);
}
inline const char *kind_name(unsigned k) {
	switch (k) { case LOOKUP: return "lookup"; case ITER: return "iteration"; case SIZE: return "size"; case ORDER: return "order"; case RET: return "result";
	case LIFE: return "lifetime"; case ALLOC: return "allocation"; case ADDR: return "address"; case CAP: return "capacity"; case ARGS: return "arguments";
	case FUNC: return "functors"; case EQ: return "equality"; case VALUE: return "value"; case OTHER: return "other"; default: return "?"; }
}
#define CHK(kinds, cond, ...) do { ++g_checks; if ((g_active & (kinds)) && !(cond)) die(kind_name((kinds) & ~((kinds) - 1)), __VA_ARGS__); } while (0)

// ---- random numbers
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	uint64_t operator()(uint64_t n) { return n ? (next() >> 11) % n : 0; }
	bool chance(unsigned pct) { return (*this)(100) < pct; }
};

// ---- element type
constexpr uint32_t LIVE = 0x11FE11FE, DEAD = 0xDEADDEAD;
extern int64_t g_live;
extern unsigned g_pause;
struct Obj {
	int cls, rep; uint32_t magic; bool moved; const Obj *self;
	__attribute__((noinline)) void begin() noexcept {
		volatile uint32_t *m = &magic; const Obj *volatile *s = &self; // what the memory held before
		CHK(LIFE, !(*m == LIVE && *s == this), "object constructed over a live object");
		magic = LIVE; moved = false; self = this; ++g_live;
	}
	Obj() noexcept { begin(); cls = 0; rep = 0; }
	Obj(int c, int r) noexcept { begin(); cls = c; rep = r; }
	Obj(const Obj &o) noexcept { o.usev("copied from"); begin(); cls = o.cls; rep = o.rep; }
	Obj(Obj &&o) noexcept { o.usev("moved from"); begin(); cls = o.cls; rep = o.rep; o.moved = true; o.cls = -999; o.rep = -999; }
	Obj &operator=(const Obj &o) noexcept { use("assigned to"); o.usev("copied from"); cls = o.cls; rep = o.rep; moved = false; return *this; }
	Obj &operator=(Obj &&o) noexcept { use("assigned to"); o.usev("moved from"); cls = o.cls; rep = o.rep; moved = false; if (&o != this) { o.moved = true; o.cls = -999; o.rep = -999; } return *this; }
	~Obj() { use("destroyed"); magic = DEAD; self = nullptr; cls = -777; --g_live; }
	void use(const char *what) const { CHK(LIFE, magic == LIVE && self == this, "dead or never constructed object %s", what); }
	void usev(const char *what) const { use(what); CHK(LIFE, !moved, "moved-from object %s", what); }
	friend bool operator==(const Obj &a, const Obj &b) { a.usev("compared"); b.usev("compared"); return a.cls == b.cls; }
	friend bool operator!=(const Obj &a, const Obj &b) { return !(a == b); }
};

// ---- hash and comparison
constexpr int MAXU = 4096;
extern size_t g_tab[4][MAXU];
struct Hash {
	int salt = 0;
	Hash(int s = 0) noexcept : salt(s) {}
	size_t operator()(const Obj &o) const { o.usev("hashed"); return o.cls >= 0 && o.cls < MAXU ? g_tab[salt][o.cls] : 0; }
};
struct Eq {
	int id = 0;
	Eq(int i = 0) noexcept : id(i) {}
	bool operator()(const Obj &a, const Obj &b) const { a.usev("compared"); b.usev("compared"); return a.cls == b.cls; }
};

// ---- allocator
struct Block { size_t n, sz; int id; };
extern std::unordered_map<void *, Block> g_blocks;
void *blk_alloc(size_t n, size_t sz, int id);
void blk_free(void *p, size_t n, size_t sz, int id);
#ifndef PROP
#define PROP 0
#endif
template<typename T>
struct Al {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<PROP != 0>;
	using propagate_on_container_move_assignment = std::bool_constant<PROP != 0>;
	using propagate_on_container_swap = std::bool_constant<PROP != 0>;
	using is_always_equal = std::false_type;
	int id = 0;
	Al() noexcept = default;
	template<typename I, typename = std::enable_if_t<std::is_same_v<I, int>>> Al(I i) noexcept : id(i) {} // not from anything that converts to int
	template<typename U> Al(const Al<U> &o) noexcept : id(o.id) {}
	T *allocate(size_t n) { return (T *) blk_alloc(n, sizeof(T), id); }
	void deallocate(T *p, size_t n) { blk_free(p, n, sizeof(T), id); }
	Al select_on_container_copy_construction() const { return *this; }
	friend bool operator==(const Al &a, const Al &b) { return a.id == b.id; }
	friend bool operator!=(const Al &a, const Al &b) { return a.id != b.id; }
};

void fill_tables(Rng &r, int universe);
