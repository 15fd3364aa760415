// Native counterpart of the harness API: replays one valuation against the real compiled code.
#include <stdint.h>
#include <dlfcn.h>
#include <setjmp.h>
#include <ucontext.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <exception>
static std::vector<std::pair<char, std::string>> IN; static size_t POS;
static std::vector<std::string> OBSV; static bool QUIET;
struct Co { ucontext_t c; void (*fn)(void*); void* arg; bool done = false; char* st = nullptr; };
static std::vector<Co*> CO; static int CUR;
static void finish(int code) { for (auto& o : OBSV) printf("OBS %s\n", o.c_str()); fflush(stdout); _Exit(code); }
static void next() { int n = CO.size(), me = CUR; for (int i = 1; i <= n; ++i) { int t = (me + i) % n; if (!CO[t]->done) { if (t == me) return; CUR = t; swapcontext(&CO[me]->c, &CO[t]->c); return; } } }
static void tramp(int id) {
  try { CO[id]->fn(CO[id]->arg); } catch (std::exception& e) { printf("VX-EXCEPTION %s\n", e.what()); finish(44); }
  CO[id]->done = true; next(); }
extern "C" {
uint64_t vx_int_(const char* n, int bits) { uint64_t v = 0; if (POS < IN.size()) v = strtoull(IN[POS].second.c_str(), nullptr, 10); ++POS; if (bits < 64) v &= (1ull << bits) - 1; (void)n; return v; }
double vx_real(const char*) { double v = 0; if (POS < IN.size()) v = strtod(IN[POS].second.c_str(), nullptr); ++POS; return v; }
void vx_assume_(int c) { if (!c) { printf("VX-ASSUME\n"); finish(43); } }
void vx_assert_(int c, const char* l) { if (!c) { printf("VX-ASSERT %s\n", l); finish(42); } }
void vx_assert_eq(double a, double b, const char* l) { if (!(std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a) + std::fabs(b)))) { if (a == b) return; printf("VX-ASSERT %s: %.17g != %.17g\n", l, a, b); finish(42); } }
void vx_assert_same(double a, double b, const char* l) { if (!(a == b)) { printf("VX-ASSERT %s: %.17g != %.17g\n", l, a, b); finish(42); } }
void vx_cover(const char*) {}
uint64_t vx_concretize(uint64_t v) { return v; }
void vx_fail(const char* l) { printf("VX-ASSERT %s\n", l); finish(42); }
void vx_observe_int(uint64_t v) { OBSV.push_back(std::to_string(v)); }
void vx_observe_real(double v) { char b[64]; snprintf(b, 64, "%.17g", v); OBSV.push_back(b); }
int vx_self(void) { return CUR; }
void vx_generic(int) {}
int vx_is_symbolic_real(double) { return 0; }
int vx_alive(void) { int n = 0; for (auto c : CO) n += !c->done; return n; }
void vx_yield(void) { next(); }
size_t vx_object_size(const void*) { return (size_t)-1; }
int vx_spawn(void (*fn)(void*), void* arg) {
  auto* c = new Co; int id = CO.size(); CO.push_back(c); c->fn = fn; c->arg = arg; size_t sz = 1 << 20; c->st = (char*)malloc(sz);
  getcontext(&c->c); c->c.uc_stack.ss_sp = c->st; c->c.uc_stack.ss_size = sz; c->c.uc_link = nullptr; makecontext(&c->c, (void (*)())tramp, 1, id); return id; }
}
#ifndef VX_NOALLOC
// fresh memory gets a visible pattern, so that reads of uninitialised storage do not silently see zeros
static int FILL = -1;
static void* vxalloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (FILL >= 0) { if (FILL == 257) { double* d = (double*)p; for (size_t i = 0; i < n / 8; ++i) d[i] = 1.5 + i % 7; } else memset(p, FILL, n); } return p; }
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
void* operator new(size_t n) { return vxalloc(n); }
void* operator new[](size_t n) { return vxalloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vxalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vxalloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#endif
typedef void (*entry_t)();
struct VxEntry { const char* n; entry_t f; };
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=171:detect_stack_use_after_return=0:detect_container_overflow=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=98:print_stacktrace=0"; }
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: replay ENTRY VALUES [fill]\n"); return 2; }
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char k[8], v[128]; while (fscanf(f, "%7s %127s", k, v) == 2) IN.emplace_back(k[0], v); fclose(f);
  if (argc > 3) FILL = atoi(argv[3]);
  entry_t e = (entry_t)dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  CO.push_back(new Co); CUR = 0;
  try { e(); } catch (std::exception& ex) { printf("VX-EXCEPTION %s\n", ex.what()); finish(44); } catch (...) { printf("VX-EXCEPTION ?\n"); finish(44); }
  printf("VX-OK used=%zu of %zu\n", POS, IN.size()); finish(0);
}
