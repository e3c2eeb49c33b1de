// Concrete check of the metadata group operations against their byte-by-byte meaning, on the real tpp::_detail::meta_block.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <tpp/sparse_set.hpp>
using namespace tpp::_detail;
static uint64_t seed, groups, checks;
static void fail(const char *what, const int8_t *b, int arg, const std::string &got, const std::string &want) {
	printf("FAIL kind=group container=meta_block seed=%llu\nMSG %s", (unsigned long long) seed, what);
	if (arg >= 0) printf("(%d)", arg);
	printf(" on bytes"); for (size_t i = 0; i < sizeof(meta_block); i++) printf(" %02x", (unsigned) (uint8_t) b[i]);
	printf(": got %s, byte-by-byte meaning is %s\n", got.c_str(), want.c_str()); fflush(stdout); _Exit(10);
}
template<class Mk> static std::string idx(Mk m, std::vector<int> &v) { std::string s = "{"; for (int n = 0; !m.empty() && n < 70; ++m, ++n) { v.push_back((int) m.lsb_index()); s += std::to_string(v.back()) + " "; } return s + "}"; }
static std::string str(const std::vector<int> &v) { std::string s = "{"; for (int i: v) s += std::to_string(i) + " "; return s + "}"; }
static void check(const int8_t *b) {
	constexpr int N = (int) sizeof(meta_block); ++groups;
	alignas(16) meta_byte m[N]; std::memcpy(m, b, N); meta_block g{m};
	std::vector<int> e, a, want; int lead = -1;
	for (int i = 0; i < N; i++) { if (b[i] == -128) e.push_back(i); if (b[i] == -128 || b[i] == -2) a.push_back(i); else if (lead < 0) lead = i; }
	if (lead < 0) lead = N;
	for (int i = 0; i < N; i++) { checks += 2; if (is_occupied(m[i]) != (b[i] >= 0)) fail("is_occupied", b, b[i], "other", "occupied iff not negative"); if (is_available(m[i]) != (b[i] == -128 || b[i] == -2)) fail("is_available", b, b[i] & 255, "other", "empty or deleted"); }
	{ std::vector<int> v; auto s = idx(g.match_empty(), v); ++checks; if (v != e) fail("match_empty", b, -1, s, str(e)); }
	{ std::vector<int> v; auto s = idx(g.match_available(), v); ++checks; if (v != a) fail("match_available", b, -1, s, str(a)); }
	for (int f = 0; f < 128; f++) {
		std::vector<int> v, w; auto s = idx(g.match_eq(meta_byte(f)), v); ++checks;
		for (int i = 0; i < N; i++) if (b[i] == f) w.push_back(i);
		if (N == 16) { if (v != w) fail("match_eq", b, f, s, str(w)); continue; }
		size_t k = 0; int last = -1; // ascending, contains w, extra candidates are occupied bytes
		for (int i: v) { if (i <= last || i >= N) fail("match_eq", b, f, s, "ascending indices"); last = i; if (b[i] == f) ++k; else if (b[i] < 0) fail("match_eq", b, f, s, "no unoccupied candidates"); }
		if (k != w.size()) fail("match_eq", b, f, s, "all of " + str(w));
	}
	{ auto n = g.count_available(); ++checks; if (n != (size_t) lead) fail("count_available", b, -1, std::to_string(n), std::to_string(lead)); }
	{ auto r = g.reset_occupied(); ++checks; int8_t o[N], w[N]; std::memcpy(o, &r, N); for (int i = 0; i < N; i++) w[i] = b[i] >= 0 ? -2 : -128;
		if (std::memcmp(o, w, N)) { std::vector<int> x(o, o + N), y(w, w + N); fail("reset_occupied", b, -1, str(x), str(y)); } }
}
int main(int argc, char **argv) {
	uint64_t s0 = argc > 2 ? strtoull(argv[2], 0, 10) : 1, n = argc > 3 ? strtoull(argv[3], 0, 10) : 2000;
	constexpr int N = (int) sizeof(meta_block);
	auto byte = [](unsigned k) { return (int8_t) (k < 128 ? k : k == 128 ? -128 : k == 129 ? -2 : -1); };
	int8_t b[N];
	// every legal byte at every position, on uniform backgrounds, and every pair of neighbouring bytes
	for (unsigned bg: {128u, 129u, 130u, 0u, 127u}) for (unsigned k = 0; k < 131; k++) for (int i = 0; i < N; i++) { std::memset(b, byte(bg), N); b[i] = byte(k); check(b); }
	for (unsigned k = 0; k < 131; k++) for (unsigned l = 0; l < 131; l++) { std::memset(b, -128, N); b[3] = byte(k); b[4] = byte(l); check(b); }
	if (N == 8) for (unsigned c = 0; c < 1u << 16; c++) { for (int i = 0; i < 8; i++) { static const int8_t q[4] = {-128, -2, -1, 5}; b[i] = q[(c >> (2 * i)) & 3]; } check(b); }
	else for (unsigned c = 0; c < 1u << 16; c++) { for (int i = 0; i < N; i++) b[i] = (c >> i) & 1 ? 77 : -128; check(b); for (int i = 0; i < N; i++) b[i] = (c >> i) & 1 ? -2 : -1; check(b); }
	uint64_t x = s0 * 0x9E3779B97F4A7C15ull + 1;
	auto r = [&](unsigned m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned) ((x * 0x2545F4914F6CDD1Dull >> 33) % m); };
	for (seed = s0; seed < s0 + n; seed++) { unsigned few = 1 + r(4), base = r(128); for (int i = 0; i < N; i++) { unsigned k = r(8); b[i] = k == 0 ? -1 : k < 3 ? -128 : k < 5 ? -2 : (int8_t) ((base + r(few)) & 127); } check(b); }
	printf("DONE histories=%llu ops=%llu checks=%llu\n", (unsigned long long) groups, (unsigned long long) groups, (unsigned long long) checks);
}
