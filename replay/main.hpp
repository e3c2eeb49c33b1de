#include <sys/time.h>
// Command line: PROP_ID seed0 max_histories [max_seconds [max_ops_per_history]];  prints DONE or FAIL.
static void on_signal(int s) {
	char b[200]; int n = snprintf(b, sizeof b, "FAIL kind=%s container=%s seed=%llu\nMSG the operation %s\nTRACE ", s == SIGVTALRM ? "hang" : "crash", g_container, (unsigned long long) g_seed, s == SIGVTALRM ? "does not terminate" : s == SIGTRAP ? "trips an assertion" : "crashes");
	(void) !write(1, b, (size_t) n); (void) !write(1, g_trace.buf, g_trace.n); (void) !write(1, "\n", 1); _exit(11);
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() { char b[160]; int n = snprintf(b, sizeof b, "FAIL kind=crash container=%s seed=%llu\nMSG invalid memory access (sanitizer)\nTRACE ", g_container, (unsigned long long) g_seed); (void) !write(1, b, (size_t) n); (void) !write(1, g_trace.buf, g_trace.n); (void) !write(1, "\n", 1); }
int main(int argc, char **argv) {
	std::string p = argc > 1 ? argv[1] : "ALL"; uint64_t s0 = argc > 2 ? strtoull(argv[2], 0, 10) : 1; uint64_t count = argc > 3 ? strtoull(argv[3], 0, 10) : 100; double secs = argc > 4 ? atof(argv[4]) : 1e9; size_t maxlen = argc > 5 ? strtoull(argv[5], 0, 10) : 100000;
	struct { const char *id; unsigned kinds, groups; } tab[] = {
		{"C01", LOOKUP | VALUE, 4}, {"C02", LOOKUP | VALUE, 4}, {"C03", ITER | SIZE | RET, 4}, {"C04", ORDER, 4 | 8 | 16}, {"C05", LOOKUP | VALUE | ITER | SIZE | RET | ORDER | ARGS, 4 | 8 | 32},
		{"C06", LOOKUP | VALUE | ITER | SIZE | ORDER | FUNC | OTHER, 4 | 8}, {"C07", LIFE | ALLOC, 4 | 8 | 16 | 32}, {"C08", ADDR | LOOKUP | VALUE, 4 | 8 | 16 | 32}, {"C09", LOOKUP | VALUE | ITER | SIZE | ORDER | RET | ADDR, 16},
		{"C10", LOOKUP | VALUE | ITER | SIZE | CAP, 4}, {"C12", 0, 4 | 8 | 16 | 32 | 128}, {"C13", LOOKUP | VALUE | ITER | SIZE | RET | ARGS, 0}, {"C14", LOOKUP | VALUE | ITER | SIZE | ORDER | RET, 0},
		{"C15", LOOKUP | VALUE | ITER | SIZE | ORDER | RET, 32}, {"C16", EQ, 4 | 8 | 128}, {"ALL", ~0u, ~0u}};
	for (auto &t: tab) if (p == t.id) { g_active = t.kinds; G = t.groups; }
	if (__asan_set_death_callback) __asan_set_death_callback(on_death);
	for (int s: {SIGSEGV, SIGABRT, SIGTRAP, SIGBUS, SIGILL, SIGFPE}) if (s == SIGTRAP || s == SIGABRT || s == SIGILL || s == SIGFPE) signal(s, on_signal);
	signal(SIGVTALRM, on_signal);
	timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (uint64_t s = s0;; s++) {
		g_seed = s; itimerval tv{{0, 0}, {10, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr); history(s, maxlen);
		timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double el = double(t.tv_sec - t0.tv_sec) + double(t.tv_nsec - t0.tv_nsec) * 1e-9;
		if (el >= secs || s - s0 + 1 >= count) break;
	}
	printf("DONE histories=%llu ops=%llu checks=%llu\n", (unsigned long long) g_histories, (unsigned long long) g_ops, (unsigned long long) g_checks);
}
