// Bitcode runtime: the parts of libc / libstdc++ that live in shared objects, as plain code the engine can execute.
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
extern "C" {
int memcmp(const void* a, const void* b, size_t n) { auto p = (const unsigned char*)a, q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { auto p = (const unsigned char*)a, q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return 1; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* memchr(const void* s, int c, size_t n) { auto p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int eno; int* __errno_location(void) { return &eno; }
long long strtoll(const char* s, char** e, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  unsigned long long v = 0; const char* st = p; bool ov = false;
  for (;; ++p) { int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower(*p) - 'a' + 10 : 99; if (d >= base) break; if (v > (9223372036854775807ull - d) / base) ov = true; else v = v * base + d; }
  if (p == st) p = s; if (e) *e = (char*)p; if (ov) { eno = 34; return neg ? INT64_MIN : INT64_MAX; } return neg ? -(long long)v : (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long long)strtoll(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtoll(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, nullptr, 10); }
double vxio_token_value(long id) __attribute__((weak));
double strtod(const char* s, char** e) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p;
  if (*p == 1) { long id = 0; ++p; while (*p && *p != 2) { if (isdigit((unsigned char)*p)) id = id * 10 + (*p - '0'); ++p; } if (*p) ++p; if (e) *e = (char*)p; return vxio_token_value(id); } bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  double v = 0; bool any = false; int ex = 0; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); any = true; }
  if (*p == '.') { ++p; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); --ex; any = true; } }
  if (!any) { if (e) *e = (char*)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char* q = p + 1; bool n2 = false; if (*q == '+' || *q == '-') n2 = *q++ == '-'; if (isdigit((unsigned char)*q)) { int x = 0; while (isdigit((unsigned char)*q)) x = x * 10 + (*q++ - '0'); ex += n2 ? -x : x; p = q; } }
  double sc = 1; for (int i = 0; i < (ex < 0 ? -ex : ex); ++i) sc *= 10; v = ex < 0 ? v / sc : v * sc;
  if (e) *e = (char*)p; return neg ? -v : v;
}
double atof(const char* s) { return strtod(s, nullptr); }
int rand(void) { static uint32_t x = 12345; x = x * 1103515245u + 12345u; return (x >> 1) & 0x7fffffff; }
void srand(unsigned) {}
char* getenv(const char*) { return nullptr; }
int omp_get_num_threads(void) { return 1; }
int omp_get_max_threads(void) { return 1; }
int omp_get_thread_num(void) { return 0; }
double omp_get_wtime(void) { return 0; }
int gettimeofday(void*, void*) { return 0; }
}
namespace std {
// red-black tree (as an unbalanced search tree: ordering and iteration semantics are the same)
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color c; _Rb_tree_node_base *p, *l, *r; };
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) { if (x->r) { x = x->r; while (x->l) x = x->l; } else { auto y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) { return _Rb_tree_increment((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) {
  if (x->c == _S_red) return x->r;   // the header
  if (x->l) { auto y = x->l; while (y->r) y = y->r; return y; }
  auto y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) { return _Rb_tree_decrement((_Rb_tree_node_base*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->p = p; x->l = x->r = nullptr; x->c = _S_black;   // only the header is red
  if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; }
  else { p->r = x; if (p == h.r) h.r = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (h.p == u) h.p = v; else if (u->p->l == u) u->p->l = v; else u->p->r = v; if (v) v->p = u->p; };
  if (h.l == z) h.l = (z->r || z->p != &h || true) ? _Rb_tree_increment(z) : &h;
  if (h.r == z) { if (z->l) { auto y = z->l; while (y->r) y = y->r; h.r = y; } else h.r = z->p; }
  if (!z->l) repl(z, z->r); else if (!z->r) repl(z, z->l);
  else { auto y = z->r; while (y->l) y = y->l; if (y->p != z) { repl(y, y->r); y->r = z->r; y->r->p = y; } repl(z, y); y->l = z->l; y->l->p = y; }
  if (!h.p) { h.l = h.r = &h; }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
namespace __detail {
struct _List_node_base { _List_node_base *n, *p; void _M_hook(_List_node_base* const pos) noexcept; void _M_unhook() noexcept; void _M_reverse() noexcept; static void swap(_List_node_base&, _List_node_base&) noexcept; void _M_transfer(_List_node_base* const, _List_node_base* const) noexcept; };
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept { n = pos; p = pos->p; pos->p->n = this; pos->p = this; }
void _List_node_base::_M_unhook() noexcept { n->p = p; p->n = n; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->p->n = this; f->p->n = l; p->n = f; auto t = p; p = l->p; l->p = f->p; f->p = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->n, t->p); t = t->p; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool ex = x.n == &x, ey = y.n == &y; _List_node_base a = x, b = y; if (ey) x.n = x.p = &x; else { x = b; x.n->p = x.p->n = &x; } if (ex) y.n = y.p = &y; else { y = a; y.n->p = y.p->n = &y; } }
struct _Prime_rehash_policy { float mlf; size_t nr; size_t _M_next_bkt(size_t) const; size_t _M_bkt_for_elements(size_t) const; std::pair<bool, size_t> _M_need_rehash(size_t, size_t, size_t) const; };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753}; for (auto p : pr) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->nr = p; return p; } return n | 1; }
size_t _Prime_rehash_policy::_M_bkt_for_elements(size_t n) const { return n; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb < 2) { size_t w = (ne + ni) + 1; if (w < nb * 2) w = nb * 2; return {true, _M_next_bkt(w)}; } return {false, 0}; }
}
template class basic_string<char>;
}
// complex arithmetic helpers of the compiler runtime, over the reals
// table of the standard exceptions: destructors and what()
extern "C" { extern char vx_exc_msg[]; char vx_exc_msg[] = "exception"; static void vx_exc_d(void*) {} static const char* vx_exc_what(void*) { return vx_exc_msg; } extern void* vx_exc_vtbl[3]; void* vx_exc_vtbl[3] = {(void*)vx_exc_d, (void*)vx_exc_d, (void*)vx_exc_what}; }
extern "C" double sqrt(double); extern "C" double hypot(double a, double b) { return sqrt(a * a + b * b); }
extern "C" int vx_is_symbolic_real(double);
extern "C" double _Complex __divdc3(double a, double b, double c, double d) { double _Complex y; if (!vx_is_symbolic_real(d) && d == 0) { __real__ y = a / c; __imag__ y = b / c; return y; } double n = c * c + d * d; double _Complex z; __real__ z = (a * c + b * d) / n; __imag__ z = (b * c - a * d) / n; return z; }
extern "C" double _Complex __muldc3(double a, double b, double c, double d) { double _Complex z; __real__ z = a * c - b * d; __imag__ z = a * d + b * c; return z; }
