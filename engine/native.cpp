// Native run-time of the harness interface: replays one counterexample against the real code
// (ordinary clang build with AddressSanitizer).  usage: BINARY REPLAYFILE
//   exit 0: nothing failed; 77: a checked property failed; 78: the inputs were not used as recorded
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <exception>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <atomic>
#include <thread>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static std::atomic<long> live;
static void onMalloc(const volatile void* p, size_t) { if (p) live++; }
static bool wiped;
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static void onFree(const volatile void* p)
{
	if (!p) return;
	live--;
	if (!wiped) return;
	wiped = false;
	for (size_t i = 0, n = __sanitizer_get_allocated_size(p); i < n; i++) if (((const volatile unsigned char*)p)[i]) { fprintf(stderr, "SX-FAIL memory is given back without having been overwritten\n"); fflush(stderr); _exit(77); }
	wiped = true;
}
static std::vector<std::string>& in() { static std::vector<std::string> v; return v; }
static size_t at; static int tier; static bool verbose;
static void quit(int code) { fflush(stdout); fflush(stderr); _exit(code); }
static std::string next()
{
	long keep = live;
	if (at >= in().size()) { fprintf(stderr, "SX-INPUTS exhausted\n"); quit(78); }
	std::string r; const std::string& h = in()[at++];
	for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
	(void)keep;
	return r;
}
static uint64_t num() { std::string b = next(); uint64_t v = 0; for (size_t k = 0; k < b.size() && k < 8; k++) v |= (uint64_t)(uint8_t)b[k] << (8 * k); return v; }
extern "C" {
void sx_symbolic(void* p, size_t n, const char*) { std::string b = next(); b.resize(n); memcpy(p, b.data(), n); }
uint8_t sx_u8(const char*) { return (uint8_t)num(); }
uint16_t sx_u16(const char*) { return (uint16_t)num(); }
uint32_t sx_u32(const char*) { return (uint32_t)num(); }
uint64_t sx_u64(const char*) { return num(); }
uint64_t sx_range(uint64_t lo, uint64_t hi, const char*) { uint64_t v = num(); if (v < lo || v > hi) quit(78); return v; }
uint32_t sx_choose(uint32_t n, const char*) { uint64_t v = num(); if (v >= n) quit(78); return (uint32_t)v; }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_assume(bool c) { if (!c) { fprintf(stderr, "SX-ASSUME does not hold\n"); quit(78); } }
void sx_fail(const char* m) { fprintf(stderr, "SX-FAIL %s\n", m); quit(77); }
void sx_check(bool c, const char* m) { if (!c) sx_fail(m); }
void sx_cover(const char*) {}
bool sx_same(const void* p, const void* q, size_t n) { (void)p; (void)q; (void)n; return false; }
bool sx_memeq(const void* p, const void* q, size_t n) { return memcmp(p, q, n) == 0; }
uint64_t sx_live_blocks(void) { return (uint64_t)(long)live; }
void sx_wiped_on_free(bool on) { wiped = on; }
bool sx_readable(const void*, size_t) { return true; }
void sx_init_check(const void*, size_t) {}
int sx_tier(void) { return tier; }
int sx_native(void) { return 1; }
void sx_print(const char* s) { fprintf(stderr, "[print] %s\n", s); }
void sx_printv(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", s, (unsigned long long)v); }
void sx_max_steps(uint64_t) {}
void sx_sched_point(void) { std::this_thread::yield(); }
void sx_preempt_bound(int) {}
void sx_spurious(int) {}
uint64_t sx_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000u + t.tv_nsec; }
void sx_advance(uint64_t) {}
uint64_t sx_thread_create(void (*)(void*), void*) { abort(); }
int sx_thread_join(uint64_t) { abort(); }
uint64_t sx_thread_self(void) { return 0; }
}
int main(int argc, char** argv)
{
	if (argc < 2) return 2;
	std::string name;
	{
		std::ifstream is(argv[1]); std::string line;
		while (std::getline(is, line)) {
			std::istringstream ls(line); std::string k; ls >> k;
			if (k == "case") ls >> name; else if (k == "tier") ls >> tier;
			else if (k == "input") { std::string n, h; ls >> n >> h; in().push_back(h == "-" ? "" : h); }
		}
	}
	void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, ("case_" + name).c_str());
	if (!fn) { fprintf(stderr, "no case %s\n", name.c_str()); return 2; }
	__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
	try { fn(); }
	catch (const std::exception& e) { fprintf(stderr, "SX-TERMINATE uncaught exception: %s\n", e.what()); quit(79); }
	catch (...) { fprintf(stderr, "SX-TERMINATE uncaught exception\n"); quit(79); }
	fprintf(stderr, "SX-OK\n");
	quit(0);
}
