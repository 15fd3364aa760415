// vxe: a bounded symbolic executor for LLVM bitcode.  Integers and pointers are bit-vectors, doubles are exact
// reals (polynomials over symbolic inputs), branch feasibility and assertions are decided by Z3.  Paths fork with
// fork(2), so every path is an ordinary process with a private copy of the interpreter state.
#include <sys/prctl.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3++.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include "poly.hpp"

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<long> paths, pruned, insts, queries, forks, sat, unsat, unknown, viol, tent, unsup, timeouts, tokens, asserts, branches, witnesses, divzero, conc;
  std::atomic<long> ns, procs;
  std::atomic<int> stop;
  struct Cov { char name[96]; std::atomic<long> n; } cov[128];
  std::atomic<int> ncov;
  std::atomic_flag lock;
  struct AL { char name[96]; std::atomic<long> n; } al[256];
  std::atomic<int> nal;
  uint8_t fn[65536];
};
static Shared* SH;
struct Opt {
  std::string bc, entry, out; double timeout = 600, qtimeout = 60; int jobs = 8; long maxsteps = 200000000; int maxviol = 1; int witnesses = 12;
  long rlimit = 20000000; unsigned seed = 1; bool trace = false;
} OPT;
static int RESFD = -1;
static double T0;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct PathEnd { std::string why; };          // silent end of this path
struct Unsup { std::string why; };            // outside the encoding
struct MemErr { std::string why; };
[[noreturn]] static void unsup(const std::string& s) { throw Unsup{s}; }

// ---------------------------------------------------------------- values
struct Node { int rc = 0; virtual ~Node() {} };
template <class T> struct Ref {
  T* p = nullptr; Ref() {} Ref(T* q) : p(q) { if (p) ++p->rc; } Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(const Ref& o) { T* q = o.p; if (q) ++q->rc; rel(); p = q; return *this; }
  Ref& operator=(Ref&& o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; }
};
enum Kind : uint8_t { UNDEF, INT, BV, FP, RP, AGG };
struct Val { Kind k = UNDEF; uint16_t w = 0; uint64_t lo = 0, hi = 0; Ref<Node> n; };
struct BVN : Node { z3::expr e; BVN(const z3::expr& x) : e(x) {} };
struct PolyN : Node { Poly p; };
struct AggN : Node { std::vector<Val> v; };
static z3::context* ZC;
#define C (*ZC)
static uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val mkI(uint64_t v, unsigned w) { Val r; r.k = INT; r.w = w; r.lo = v & mask64(w); return r; }
static Val mkI128(u128 v, unsigned w) { Val r; r.k = INT; r.w = w; if (w < 128) v &= (((u128)1) << w) - 1; r.lo = (uint64_t)v; r.hi = (uint64_t)(v >> 64); return r; }
static u128 g128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }
static i128 s128(const Val& v) { u128 x = g128(v); if (v.w < 128) { x <<= (128 - v.w); return ((i128)x) >> (128 - v.w); } return (i128)x; }
static int64_t s64(const Val& v) { return v.w >= 64 ? (int64_t)v.lo : (int64_t)(v.lo << (64 - v.w)) >> (64 - v.w); }
static Val mkF(double d, unsigned w = 64) { Val r; r.k = FP; r.w = w; if (w == 32) d = (float)d; memcpy(&r.lo, &d, 8); return r; }
static double gF(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static Val mkAgg(std::vector<Val> v) { auto* a = new AggN; a->v = std::move(v); Val r; r.k = AGG; r.n = Ref<Node>(a); return r; }
static std::vector<Val>& agg(const Val& v) { if (v.k != AGG) unsup("aggregate expected"); return static_cast<AggN*>(v.n.p)->v; }
static const Poly& gP(const Val& v) { return static_cast<PolyN*>(v.n.p)->p; }
static Val mkP(Poly p, unsigned w = 64) {
  if (p.isConst()) { Rat c = p.constVal(); double d = c.dbl(); if (Rat::from(d) == c) return mkF(d, w); }
  auto* a = new PolyN; a->p = std::move(p); Val r; r.k = RP; r.w = w; r.n = Ref<Node>(a); return r;
}
static z3::expr bvnum(u128 v, unsigned w) {
  if (w == 1) return C.bool_val(v & 1);
  if (w <= 64) return C.bv_val((uint64_t)v, w);
  return z3::concat(C.bv_val((uint64_t)(v >> 64), w - 64), C.bv_val((uint64_t)v, 64)).simplify();
}
static z3::expr E(const Val& v) {
  if (v.k == BV) return static_cast<BVN*>(v.n.p)->e;
  if (v.k == INT) return bvnum(g128(v), v.w);
  if (v.k == UNDEF) return bvnum(0, v.w ? v.w : 64);
  unsup("integer expected, got a real");
}
static bool numeral(const z3::expr& e, u128& out) {
  if (e.is_bool()) { auto k = Z3_get_bool_value(C, e); if (k == Z3_L_UNDEF) return false; out = k == Z3_L_TRUE; return true; }
  if (!e.is_numeral()) return false;
  uint64_t u; if (e.is_numeral_u64(u)) { out = u; return true; }
  mpz_class z(Z3_get_numeral_string(C, e)); mpz_class lo = z & mpz_class("18446744073709551615"), hi = z >> 64;
  out = ((u128)hi.get_ui() << 64) | lo.get_ui(); return true;
}
static Val mkBV(z3::expr e, unsigned w) {
  e = e.simplify();
  if (w <= 128) { u128 v; if (numeral(e, v)) return mkI128(v, w); }
  Val r; r.k = BV; r.w = w; r.n = Ref<Node>(new BVN(e)); return r;
}
static Poly toP(const Val& v) {
  if (v.k == RP) return gP(v);
  if (v.k == FP) { double d = gF(v); if (!std::isfinite(d)) unsup("inf/nan mixed with symbolic real"); return Poly::cst(Rat::from(d)); }
  if (v.k == UNDEF) return Poly();
  unsup("real expected");
}

// ---------------------------------------------------------------- symbolic inputs and path condition
struct Input { std::string name; bool real; unsigned w; z3::expr e; };
static std::vector<Input> INPUTS;
struct RVar { z3::expr e; };
static std::vector<RVar> RV;                       // real variables by id
static std::vector<z3::expr> PC;                   // path condition
static z3::solver* SOLV; static z3::model* MODEL;  // MODEL always satisfies PC
static bool PCREAL = false, NONLIN = false;
// generic mode (vx_generic): definitions of sqrt/division atoms do not restrict branch feasibility (more paths are explored than exist);
// assertions that do not follow without them, and every unconditional violation, are decided with them
static bool GENERIC = false, EXACTC = false; static std::vector<z3::expr> DEFS;
static std::vector<pid_t> KIDS; static bool HAVETOK = false;
static long STEPS = 0, FLUSHED = 0;
static std::vector<std::pair<bool, Val>> OBS;

static z3::expr ratE(const Rat& r) { return C.real_val(r.str().c_str()); }
static std::vector<z3::expr*> MONOE;
// definitions of opaque atoms (a conservative extension) are added to the path condition only once the atom enters a constraint
static std::map<uint32_t, std::function<void()>> LAZYDEF;
static void activate(uint32_t v) { auto it = LAZYDEF.find(v); if (it == LAZYDEF.end()) return; auto f = std::move(it->second); LAZYDEF.erase(it); f(); }
static z3::expr monoE(uint32_t m) {
  if (MONOE.size() <= m) MONOE.resize(m + 64, nullptr);
  if (!MONOE[m]) {
    { auto vs0 = MT.m[m]; if (!LAZYDEF.empty()) for (auto v : vs0) activate(v); if (MONOE.size() <= m) MONOE.resize(m + 64, nullptr); if (MONOE[m]) return *MONOE[m]; }
    auto vs = MT.m[m]; z3::expr_vector es(C); for (auto v : vs) es.push_back(RV[v].e);
    if (es.size() > 1) NONLIN = true;
    MONOE[m] = new z3::expr(es.size() == 1 ? es[0] : z3::expr(C, Z3_mk_mul(C, es.size(), (Z3_ast*)std::vector<Z3_ast>(es.begin() == es.end() ? std::vector<Z3_ast>() : [&] { std::vector<Z3_ast> a; for (unsigned i = 0; i < es.size(); ++i) a.push_back(es[i]); return a; }()).data())));
  }
  return *MONOE[m];
}
static z3::expr polyE(const Poly& p) {
  if (p.t.empty()) return C.real_val(0);
  z3::expr_vector es(C);
  for (auto& x : p.t) {
    if (x.first == 0) es.push_back(ratE(x.second));
    else if (x.second.one()) es.push_back(monoE(x.first));
    else es.push_back(ratE(x.second) * monoE(x.first));
  }
  return es.size() == 1 ? es[0] : z3::sum(es);
}
static void flushStats() { SH->insts += STEPS - FLUSHED; FLUSHED = STEPS; }
static void emit(const std::string& s) { std::string t = s + "\n"; if (write(RESFD, t.data(), t.size()) < 0) {} }
static std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
enum Res { SAT, UNSAT, UNKNOWN };
static void checkTime() {
  if (SH->stop) throw PathEnd{"stopped"};
  if (now() - T0 > OPT.timeout) { SH->timeouts++; SH->stop = 1; throw PathEnd{"timeout"}; }
}
static void z3setrl(z3::solver& s, long rl, double maxms = 1e18) { z3::params p(C); p.set("rlimit", (unsigned)std::min<long>(rl, 4000000000L)); p.set("random_seed", OPT.seed); double left = OPT.timeout - (now() - T0); p.set("timeout", (unsigned)std::min(maxms, 1000 * std::max(1.0, std::min(left + 1, OPT.qtimeout)))); s.set(p); }
static std::string STACK(); static const bool SLOW = getenv("VXSLOW") != nullptr;
static Res query(const z3::expr& extra, std::unique_ptr<z3::model>& m, bool hard = false) {
  checkTime(); double t = now(); SH->queries++;
  Res r = UNKNOWN;
  try {
    if (!hard || PCREAL) {
      SOLV->push(); SOLV->add(extra);
      z3setrl(*SOLV, hard ? OPT.rlimit : OPT.rlimit / 10);
      auto c = SOLV->check();
      if (c == z3::sat) { r = SAT; m.reset(new z3::model(SOLV->get_model())); } else if (c == z3::unsat) r = UNSAT;
      SOLV->pop();
    }
    if (r == UNKNOWN) {
      if (!PCREAL) {
        z3::tactic tac = z3::tactic(C, "simplify") & z3::tactic(C, "propagate-values") & z3::tactic(C, "solve-eqs") & z3::tactic(C, "elim-uncnstr") & z3::tactic(C, "simplify") & z3::tactic(C, "bit-blast") & z3::tactic(C, "sat");
        z3::solver s = tac.mk_solver(); for (auto& e : PC) s.add(e); s.add(extra); z3setrl(s, OPT.rlimit * 10);
        auto c = s.check(); if (c == z3::sat) { r = SAT; m.reset(new z3::model(s.get_model())); } else if (c == z3::unsat) r = UNSAT;
      } else {
        z3::tactic tac = z3::tactic(C, "qfnra-nlsat");
        z3::solver s(C); for (auto& e : PC) s.add(e); s.add(extra); z3setrl(s, OPT.rlimit * 10);
        auto c = s.check(); if (c == z3::sat) { r = SAT; m.reset(new z3::model(s.get_model())); } else if (c == z3::unsat) r = UNSAT;
      }
    }
  } catch (z3::exception& e) { r = UNKNOWN; if (OPT.trace) fprintf(stderr, "z3: %s\n", e.msg()); }
  SH->ns += (long)((now() - t) * 1e9); if (SLOW && now() - t > 1) fprintf(stderr, "slow %.1fs res=%d hard=%d %s :: %s\n", now() - t, (int)r, (int)hard, STACK().substr(0, 120).c_str(), extra.to_string().substr(0, 300).c_str());
  if (r == SAT) SH->sat++; else if (r == UNSAT) SH->unsat++; else SH->unknown++;
  return r;
}
static void addPC(const z3::expr& e) { PC.push_back(e); SOLV->add(e); }
static Res meval(const z3::expr& c) {
  try { z3::expr r = MODEL->eval(c, true); u128 v; if (numeral(r.simplify(), v)) return v ? SAT : UNSAT; } catch (z3::exception&) {}
  return UNKNOWN;
}
static void setModel(std::unique_ptr<z3::model>& m) { if (m) { delete MODEL; MODEL = m.release(); } }
static void reap() { for (pid_t p : KIDS) { int st = 0; setpgid(p, p); bool killed = false;
  for (useconds_t us = 200;; us = std::min<useconds_t>(us * 2, 10000)) { if (waitpid(p, &st, WNOHANG) == p) break; if (now() - T0 > OPT.timeout + 15) { kill(-p, SIGKILL); waitpid(p, &st, 0); killed = true; SH->timeouts++; break; } usleep(us); }
  if (!killed) if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"worker process died\"}"); } } KIDS.clear(); }

// fork: returns true in the child.
static bool doFork() {
  SH->forks++; flushStats();
  bool par = false; long tk = SH->tokens.load();
  while (tk > 0) if (SH->tokens.compare_exchange_weak(tk, tk - 1)) { par = true; break; }
  if (SH->procs > 6000) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"too many processes\"}"); SH->stop = 1; throw PathEnd{"procs"}; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"fork failed\"}"); SH->stop = 1; throw PathEnd{"fork"}; }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm((unsigned)std::max(5.0, OPT.timeout - (now() - T0) + 25)); SH->procs++; KIDS.clear(); HAVETOK = par; FLUSHED = STEPS; return true; }
  if (par) KIDS.push_back(p);
  else { int st = 0; setpgid(p, p); bool killed = false;
  for (useconds_t us = 200;; us = std::min<useconds_t>(us * 2, 10000)) { if (waitpid(p, &st, WNOHANG) == p) break; if (now() - T0 > OPT.timeout + 15) { kill(-p, SIGKILL); waitpid(p, &st, 0); killed = true; SH->timeouts++; break; } usleep(us); }
  if (!killed) if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"worker process died\"}"); } checkTime(); }
  return false;
}
[[noreturn]] static void endProcess() {
  flushStats(); if (HAVETOK) { SH->tokens++; HAVETOK = false; } reap(); SH->procs--; _exit(0);
}

// Decide a symbolic condition, forking when both sides are feasible.
static bool decide(const z3::expr& c0) {
  z3::expr c = c0.simplify(); u128 v; if (numeral(c, v)) return v;
  SH->branches++;
  z3::expr nc = (!c).simplify();
  Res cur = meval(c); std::unique_ptr<z3::model> mt, mf; bool canT = cur == SAT, canF = cur == UNSAT;
  if (cur == UNKNOWN) { auto r = query(c, mt); canT = r != UNSAT; auto r2 = query(nc, mf); canF = r2 != UNSAT; }
  else if (canT) { auto r = query(nc, mf); canF = r != UNSAT; if (r == UNKNOWN) { } }
  else { auto r = query(c, mt); canT = r != UNSAT; }
  if (!canT && !canF) throw PathEnd{"infeasible"};
  if (canT && canF) {
    bool side = doFork();  // child takes true
    if (side) { addPC(c); setModel(mt); return true; }
    addPC(nc); setModel(mf); return false;
  }
  return canT;   // implied by PC
}
static bool decideV(const Val& v) { if (v.k == INT) return v.lo & 1; if (v.k == UNDEF) return false; return decide(v.w == 1 ? E(v) : E(v) != bvnum(0, v.w)); }
static Val concretize(const Val& v) {
  if (v.k != BV) { if (v.k == UNDEF) return mkI(0, v.w); return v; }
  SH->conc++;
  z3::expr e = E(v);
  for (int i = 0; i < 5000; ++i) {
    z3::expr m = MODEL->eval(e, true).simplify(); u128 x; if (!numeral(m, x)) unsup("cannot concretise");
    if (decide(e == bvnum(x, v.w))) return mkI128(x, v.w);
  }
  unsup("too many values to concretise");
}
static std::string STACK();
static std::string ratOf(const z3::expr& ev) {
  z3::expr e = ev;
  if (e.is_algebraic() && !e.is_numeral()) e = e.get_decimal_string(0).empty() ? e : C.real_val(std::string([&] { std::string s = e.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return s; }()).c_str());
  return Z3_get_numeral_string(C, e);
}
static std::string modelJson(z3::model& m) {
  std::string s = "["; bool first = true;
  for (auto& in : INPUTS) {
    if (!first) s += ","; first = false; z3::expr v = m.eval(in.e, true).simplify();
    if (in.real) {
      mpq_class q; try { std::string r = ratOf(v); q = mpq_class(r); q.canonicalize(); } catch (...) { q = 0; }
      char b[64]; snprintf(b, 64, "%.17g", q.get_d()); s += "[\"" + jesc(in.name) + "\",\"r\",\"" + b + "\"]";
    } else { u128 x = 0; numeral(v, x); char b[64]; snprintf(b, 64, "%llu", (unsigned long long)(uint64_t)x); s += "[\"" + jesc(in.name) + "\",\"i\",\"" + b + "\"]"; }
  }
  return s + "]";
}
// Try to get a model whose reals are exactly representable small dyadics (so that the native replay follows the same path).
static void niceModel(const z3::expr& extra, std::unique_ptr<z3::model>& m, const z3::expr* strong) {
  bool anyReal = false; for (auto& i : INPUTS) anyReal |= i.real;
  if (!anyReal) return;
  for (int pass = 0; pass < 5; ++pass) {
    SOLV->push(); SOLV->add(extra); if (strong && pass != 2 && pass != 4) SOLV->add(*strong);
    int k = 0;
    if (pass < 3) for (auto& i : INPUTS) if (i.real) {
      ++k; z3::expr iv = C.int_const(("dy!" + std::to_string(k)).c_str()); int B = pass == 0 ? 16 : 1 << 16;
      SOLV->add(i.e * 4 == z3::to_real(iv)); SOLV->add(iv >= -B && iv <= B);
    }
    if (pass >= 3) for (auto& i : INPUTS) if (i.real) SOLV->add(i.e <= 1000 && i.e >= -1000);
    z3setrl(*SOLV, OPT.rlimit / 4, 2500); z3::check_result c = z3::unknown; try { c = SOLV->check(); } catch (z3::exception&) {}
    z3setrl(*SOLV, OPT.rlimit);
    if (c == z3::sat) { m.reset(new z3::model(SOLV->get_model())); SOLV->pop(); return; }
    SOLV->pop();
  }
}
static void violation(const std::string& label, z3::model& m) {
  long n = SH->viol++;
  if (n < OPT.maxviol * 4) emit("{\"t\":\"viol\",\"label\":\"" + jesc(label) + "\",\"stack\":\"" + jesc(STACK()) + "\",\"model\":" + modelJson(m) + "}");
  if (n + 1 >= OPT.maxviol) SH->stop = 1;
}
static void countLabel(const std::string& l) {
  int n = SH->nal; for (int i = 0; i < n; ++i) if (!strncmp(SH->al[i].name, l.c_str(), 95)) { SH->al[i].n++; return; }
  while (SH->lock.test_and_set()) {}
  n = SH->nal; bool f = false; for (int i = 0; i < n; ++i) if (!strncmp(SH->al[i].name, l.c_str(), 95)) { SH->al[i].n++; f = true; break; }
  if (!f && n < 256) { strncpy(SH->al[n].name, l.c_str(), 95); SH->al[n].n = 1; SH->nal = n + 1; }
  SH->lock.clear();
}
static void countCover(const std::string& l) {
  int n = SH->ncov; for (int i = 0; i < n; ++i) if (!strncmp(SH->cov[i].name, l.c_str(), 95)) { SH->cov[i].n++; return; }
  while (SH->lock.test_and_set()) {}
  n = SH->ncov; bool f = false; for (int i = 0; i < n; ++i) if (!strncmp(SH->cov[i].name, l.c_str(), 95)) { SH->cov[i].n++; f = true; break; }
  if (!f && n < 128) { strncpy(SH->cov[n].name, l.c_str(), 95); SH->cov[n].n = 1; SH->ncov = n + 1; }
  SH->lock.clear();
}
struct WithDefs { size_t n; bool on; WithDefs() : n(PC.size()), on(GENERIC && !DEFS.empty()) { if (!on) return; SOLV->push(); for (auto& e : DEFS) { PC.push_back(e); SOLV->add(e); } } ~WithDefs() { if (!on) return; SOLV->pop(); while (PC.size() > n) PC.pop_back(); } };
static void tentative(const std::string& label, const z3::expr& nc, const z3::expr* strong) {   // undecided with the definitions: the native run of a candidate decides
  std::unique_ptr<z3::model> m; if (SH->tent++ > 8 || query(nc, m) != SAT) return; niceModel(nc, m, strong); emit("{\"t\":\"viol\",\"tentative\":true,\"label\":\"" + jesc(label) + "\",\"stack\":\"" + jesc(STACK()) + "\",\"model\":" + modelJson(*m) + "}");
}
static void doAssert(const z3::expr& c0, const std::string& label, const z3::expr* strong = nullptr) {
  SH->asserts++; countLabel(label);
  z3::expr c = c0.simplify(); z3::expr nc = (!c0).simplify(); std::unique_ptr<z3::model> m;
  Res r; u128 v; bool cst = numeral(c, v);
  if (!cst && !GENERIC && meval(nc) == SAT) { r = SAT; m.reset(new z3::model(*MODEL)); }
  else r = query(nc, m, !GENERIC);   // constants go through the solver too: the verdict is the solver's
  if (GENERIC && r != UNSAT) {
    { WithDefs wd; r = query(nc, m, true); if (r == SAT) { niceModel(nc, m, strong); violation(label, *m); } }
    if (r == UNKNOWN) tentative(label, nc, strong);
    if (cst && r != UNKNOWN) throw PathEnd{r == SAT ? "violated" : "infeasible"};
    if (r == UNKNOWN) emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\"}");
    if (cst) throw PathEnd{"undecided"};
    if (r != UNSAT) { std::unique_ptr<z3::model> mm; if (query(c, mm) == UNSAT) throw PathEnd{"violated"}; setModel(mm); }
    else { std::unique_ptr<z3::model> mm; if (query(c, mm) == SAT) setModel(mm); }
    addPC(c); return;
  }
  if (r == UNKNOWN) { emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\"}"); }
  if (r == SAT) { niceModel(nc, m, strong); violation(label, *m); if (cst) throw PathEnd{"violated"}; }
  if (!cst) { if (r == SAT) { std::unique_ptr<z3::model> mm; Res q = query(c, mm); if (q == UNSAT) throw PathEnd{"violated"}; setModel(mm); } addPC(c); }
}
static void hardViolation(const std::string& label) {   // reached unconditionally on this path
  if (GENERIC && !DEFS.empty()) {
    Res r; { WithDefs wd; std::unique_ptr<z3::model> m; r = query(C.bool_val(true), m, true); if (r == SAT) { niceModel(C.bool_val(true), m, nullptr); violation(label, *m); } }
    if (r == UNKNOWN) { tentative(label, C.bool_val(true), nullptr); emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\"}"); }
    throw PathEnd{r == SAT ? "violated" : "infeasible"};
  }
  std::unique_ptr<z3::model> m(new z3::model(*MODEL)); niceModel(C.bool_val(true), m, nullptr); violation(label, *m); throw PathEnd{"violated"};
}

// ---------------------------------------------------------------- memory
struct Obj { uint64_t size = 0; std::vector<uint8_t> b, st; std::unordered_map<uint32_t, Val> cells; bool alive = true, heap = false, ro = false; const char* what = ""; };
static std::vector<Obj*> OBJS{nullptr};
static const uint64_t OFF0 = 0x100000;
static uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OFF0; }
static uint64_t newObj(uint64_t size, const char* what, bool heap) {
  if (size > (64ull << 20)) throw MemErr{"allocation of " + std::to_string(size) + " bytes"};
  auto* o = new Obj; o->size = size; o->b.resize(size); o->st.resize(size, 0); o->heap = heap; o->what = what; OBJS.push_back(o); return addrOf(OBJS.size() - 1);
}
static Obj* objAt(uint64_t a, uint64_t n, uint64_t& off, bool write = false) {
  uint64_t id = a >> 32;
  if (id == 0 || id >= OBJS.size()) throw MemErr{a < 4096 ? "null pointer access" : "wild pointer access"};
  Obj* o = OBJS[id]; off = (a & 0xffffffffull) - OFF0;
  if (!o || !o->alive) throw MemErr{"access to freed or out-of-scope memory"};
  if (off > o->size || n > o->size - off) throw MemErr{std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of a " + std::to_string(o->size) + "-byte " + o->what + " object"};
  return o;
}
static int UNINITN = 0;
static Val freshBV(const char* nm, unsigned w) { z3::expr e = w == 1 ? C.bool_const(nm) : C.bv_const(nm, w); Val r; r.k = BV; r.w = w; r.n = Ref<Node>(new BVN(e)); return r; }
static uint32_t freshRV(const std::string& nm) { RV.push_back({C.real_const(nm.c_str())}); return RV.size() - 1; }
// break a bit-vector cell overlapping [off,off+n) into byte cells, or drop it when fully covered
static void splitCells(Obj* o, uint64_t off, uint64_t n) {
  auto fix = [&](uint64_t at) {  // at: position that must be a cell boundary
    if (at >= o->size || o->st[at] != 3) return;
    uint64_t s = at; while (o->st[s] == 3) --s;
    Val v = o->cells[s]; unsigned nb = v.w / 8; o->cells.erase(s);
    if (v.k != BV) {   // a real cut in half
      unsup("partial access to a symbolic real");
    }
    for (unsigned i = 0; i < nb; ++i) { Val b = mkBV(E(v).extract(8 * i + 7, 8 * i), 8); if (b.k == INT) { o->st[s + i] = 1; o->b[s + i] = b.lo; } else { o->st[s + i] = 2; o->cells[s + i] = b; } }
  };
  fix(off); fix(off + n);
}
static void clearRange(Obj* o, uint64_t off, uint64_t n) {
  splitCells(o, off, n);
  if (!o->cells.empty()) for (uint64_t i = off; i < off + n; ++i) if (o->st[i] == 2) o->cells.erase(i);
}
static void storeAt(uint64_t a, const Val& v, unsigned nb) {
  uint64_t off; Obj* o = objAt(a, nb, off, true);
  if (o->ro) throw MemErr{"write to constant memory"};
  bool plain = true; for (unsigned i = 0; i < nb; ++i) if (o->st[off + i] > 1) { plain = false; break; }
  if (!plain) clearRange(o, off, nb);
  if (v.k == UNDEF) { memset(&o->st[off], 0, nb); return; }
  if (v.k == INT) { uint64_t x = v.lo; memcpy(&o->b[off], &x, std::min(nb, 8u)); if (nb > 8) { uint64_t y = v.hi; memcpy(&o->b[off + 8], &y, std::min(nb - 8, 8u)); if (nb > 16) memset(&o->b[off + 16], 0, nb - 16); } memset(&o->st[off], 1, nb); return; }
  if (v.k == FP) { if (v.w == 32) { float f = gF(v); memcpy(&o->b[off], &f, 4); } else { double d = gF(v); memcpy(&o->b[off], &d, 8); } memset(&o->st[off], 1, nb); return; }
  Val c = v;
  if (c.k == BV && c.w != nb * 8) c = mkBV(c.w == 1 ? z3::ite(E(c), bvnum(1, nb * 8), bvnum(0, nb * 8)) : z3::zext(E(c), nb * 8 - c.w), nb * 8);
  if (c.k == INT) { storeAt(a, c, nb); return; }
  if (c.k == RP && c.w / 8 != nb) unsup("real stored with odd size");
  o->cells[off] = c; o->st[off] = 2; if (nb > 1) memset(&o->st[off + 1], 3, nb - 1);
}
enum TK : uint8_t { TVOID, TINT, TPTR, TF32, TF64, TAGG, TVEC };
struct TI { TK k; uint16_t w; uint32_t bytes; };
static Val loadScalar(uint64_t a, TI t) {
  unsigned nb = (t.w + 7) / 8; uint64_t off; Obj* o = objAt(a, nb, off);
  bool conc = true, uninit = true; for (unsigned i = 0; i < nb; ++i) { conc &= o->st[off + i] == 1; uninit &= o->st[off + i] == 0; }
  if (conc) {
    if (t.k == TF64) { double d; memcpy(&d, &o->b[off], 8); return mkF(d); }
    if (t.k == TF32) { float d; memcpy(&d, &o->b[off], 4); return mkF(d, 32); }
    u128 x = 0; if (nb > 16) { bool z = true; for (unsigned i = 16; i < nb; ++i) z &= !o->b[off + i]; if (!z) unsup("integer wider than 128 bits"); }
    memcpy(&x, &o->b[off], std::min(nb, 16u)); return mkI128(x, t.w);
  }
  if (o->st[off] == 2) {
    Val v = o->cells[off]; unsigned cb = v.w / 8;
    if (cb == nb) {
      if (v.k == RP) return v;
      if (t.k == TF64 || t.k == TF32) unsup("symbolic integer bits read as a real");
      if (v.w != t.w) return mkBV(t.w == 1 ? E(v).extract(0, 0) == C.bv_val(1, 1) : E(v).extract(t.w - 1, 0), t.w);
      return v;
    }
  }
  if (uninit) {
    Val v; std::string nm = "uninit!" + std::to_string(UNINITN++);
    if (t.k == TF64 || t.k == TF32) { Poly p = Poly::var(freshRV(nm)); v = mkP(p, t.w); } else v = freshBV(nm.c_str(), nb * 8);
    storeAt(a, v, nb); if (v.k == BV && v.w != t.w) return loadScalar(a, t); return v;
  }
  if (t.k == TF64 || t.k == TF32) unsup("mixed bytes read as a real");
  z3::expr_vector parts(C);
  for (int i = nb - 1; i >= 0; --i) {
    uint64_t q = off + i;
    if (o->st[q] == 1) parts.push_back(C.bv_val(o->b[q], 8));
    else if (o->st[q] == 0) { Val v = freshBV(("uninit!" + std::to_string(UNINITN++)).c_str(), 8); storeAt(a + i, v, 1); parts.push_back(E(v)); }
    else { uint64_t s = q; while (o->st[s] == 3) --s; Val v = o->cells[s]; if (v.k != BV) unsup("real read as integer bytes"); unsigned k = q - s; parts.push_back(E(v).extract(8 * k + 7, 8 * k)); }
  }
  z3::expr e = parts.size() == 1 ? parts[0] : z3::concat(parts);
  if (t.w != nb * 8) { if (t.w == 1) return mkBV(e.extract(0, 0) == C.bv_val(1, 1), 1); e = e.extract(t.w - 1, 0); }
  return mkBV(e, t.w);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; uint64_t so, dO; Obj* S = objAt(s, n, so); Obj* D = objAt(d, n, dO, true);
  if (D->ro) throw MemErr{"write to constant memory"};
  splitCells(S, so, n);
  std::vector<uint8_t> b(S->b.begin() + so, S->b.begin() + so + n), st(S->st.begin() + so, S->st.begin() + so + n);
  std::vector<std::pair<uint32_t, Val>> cs; if (!S->cells.empty()) for (uint64_t i = 0; i < n; ++i) if (st[i] == 2) cs.emplace_back(i, S->cells[so + i]);
  clearRange(D, dO, n);
  memcpy(&D->b[dO], b.data(), n); memcpy(&D->st[dO], st.data(), n);
  for (auto& c : cs) D->cells[dO + c.first] = c.second;
}

// ---------------------------------------------------------------- decoded program
static Module* M; static const DataLayout* DL;
struct DF;
struct DI {
  unsigned op; int dst = -1; std::vector<int> ops; TI t{TVOID, 0, 0}; TI t2{TVOID, 0, 0}; Type* ty = nullptr; unsigned sub = 0; int64_t off = 0; std::vector<int64_t> sc; std::vector<int> tgt;
  std::vector<std::pair<int, int>> phi;  // pred block, operand
  const Instruction* I = nullptr; std::vector<unsigned> idx;
};
struct DB { std::vector<DI> in; int nphi = 0; };
struct DF { Function* F; int nregs = 0, nargs = 0; std::vector<DB> bb; };
static std::unordered_map<Function*, DF*> DFS;
static std::unordered_map<Function*, unsigned> FNIDX;
static std::vector<Val> KP;  // constant pool
static std::unordered_map<const GlobalValue*, uint64_t> GADDR; static std::unordered_map<uint64_t, Function*> FADDR;
static TI tiOf(Type* T) {
  TI t{TVOID, 0, 0}; if (T->isVoidTy() || !T->isSized()) return t;
  t.bytes = DL->getTypeAllocSize(T);
  if (T->isIntegerTy()) { t.k = TINT; t.w = T->getIntegerBitWidth(); t.bytes = DL->getTypeStoreSize(T); }
  else if (T->isPointerTy()) { t.k = TPTR; t.w = 64; }
  else if (T->isDoubleTy()) { t.k = TF64; t.w = 64; }
  else if (T->isFloatTy()) { t.k = TF32; t.w = 32; }
  else if (T->isX86_FP80Ty()) { t.k = TF64; t.w = 64; }
  else if (isa<FixedVectorType>(T)) t.k = TVEC; else t.k = TAGG;
  return t;
}
static Val binop(unsigned op, const Val& a, const Val& b);
static Val castop(unsigned op, const Val& a, TI from, TI to);
static Val icmp(unsigned pred, const Val& a, const Val& b);
static uint64_t gaddr(const GlobalValue* g);
static Val zeroOf(Type* T) {
  TI t = tiOf(T);
  switch (t.k) { case TINT: case TPTR: return mkI(0, t.w); case TF32: case TF64: return mkF(0, t.w);
    case TVEC: { std::vector<Val> v(cast<FixedVectorType>(T)->getNumElements(), zeroOf(cast<FixedVectorType>(T)->getElementType())); return mkAgg(v); }
    case TAGG: { std::vector<Val> v; if (auto* S = dyn_cast<StructType>(T)) for (auto* e : S->elements()) v.push_back(zeroOf(e)); else for (uint64_t i = 0; i < T->getArrayNumElements(); ++i) v.push_back(zeroOf(T->getArrayElementType())); return mkAgg(v); }
    default: return Val(); }
}
static Val undefOf(Type* T) {
  TI t = tiOf(T);
  if (t.k == TVEC) { std::vector<Val> v(cast<FixedVectorType>(T)->getNumElements(), undefOf(cast<FixedVectorType>(T)->getElementType())); return mkAgg(v); }
  if (t.k == TAGG) { std::vector<Val> v; if (auto* S = dyn_cast<StructType>(T)) for (auto* e : S->elements()) v.push_back(undefOf(e)); else for (uint64_t i = 0; i < T->getArrayNumElements(); ++i) v.push_back(undefOf(T->getArrayElementType())); return mkAgg(v); }
  Val r; r.w = t.w; return r;
}
static Val constVal(Constant* K) {
  if (auto* ci = dyn_cast<ConstantInt>(K)) { auto& ap = ci->getValue(); unsigned w = ap.getBitWidth(); if (w <= 64) return mkI(ap.getZExtValue(), w);
    if (w <= 128) return mkI128(((u128)ap.getRawData()[1] << 64) | ap.getRawData()[0], w);
    SmallString<128> ss; ap.toStringUnsigned(ss, 10); Val r; r.k = BV; r.w = w; r.n = Ref<Node>(new BVN(C.bv_val(ss.c_str(), w))); return r; }
  if (auto* cf = dyn_cast<ConstantFP>(K)) { APFloat f = cf->getValueAPF(); bool l; if (K->getType()->isFloatTy()) return mkF(f.convertToFloat(), 32); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return mkF(f.convertToDouble()); }
  if (isa<ConstantPointerNull>(K)) return mkI(0, 64);
  if (isa<UndefValue>(K)) return undefOf(K->getType());
  if (isa<ConstantAggregateZero>(K)) return zeroOf(K->getType());
  if (auto* g = dyn_cast<GlobalAlias>(K)) return constVal(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(K)) return mkI(gaddr(g), 64);
  if (auto* cd = dyn_cast<ConstantDataSequential>(K)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto* ca = dyn_cast<ConstantAggregate>(K)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o))); return mkAgg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(K)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) unsup("constant gep"); Val b = constVal(cast<Constant>(gep->getPointerOperand())); return mkI(b.lo + off.getSExtValue(), 64); }
    if (ce->isCast()) return castop(ce->getOpcode(), constVal(ce->getOperand(0)), tiOf(ce->getOperand(0)->getType()), tiOf(ce->getType()));
    if (ce->getOpcode() == Instruction::ICmp) return icmp(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    if (Instruction::isBinaryOp(ce->getOpcode())) return binop(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
  }
  if (isa<BlockAddress>(K)) unsup("blockaddress");
  std::string s; raw_string_ostream os(s); K->print(os); unsup("constant " + s);
}
static void storeTyped(uint64_t a, const Val& v, Type* T) {
  TI t = tiOf(T);
  if (t.k == TVEC) { auto* VT = cast<FixedVectorType>(T); uint64_t es = DL->getTypeStoreSize(VT->getElementType()); if (v.k == UNDEF) return; for (unsigned i = 0; i < VT->getNumElements(); ++i) storeTyped(a + i * es, agg(v)[i], VT->getElementType()); return; }
  if (t.k == TAGG) {
    if (v.k == UNDEF) return;
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) storeTyped(a + L->getElementOffset(i), agg(v)[i], S->getElementType(i)); }
    else { Type* ET = T->getArrayElementType(); uint64_t es = DL->getTypeAllocSize(ET); for (uint64_t i = 0; i < T->getArrayNumElements(); ++i) storeTyped(a + i * es, agg(v)[i], ET); }
    return;
  }
  storeAt(a, v, (t.w + 7) / 8);
}
static Val loadTyped(uint64_t a, Type* T) {
  TI t = tiOf(T);
  if (t.k == TVEC) { auto* VT = cast<FixedVectorType>(T); uint64_t es = DL->getTypeStoreSize(VT->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < VT->getNumElements(); ++i) v.push_back(loadTyped(a + i * es, VT->getElementType())); return mkAgg(v); }
  if (t.k == TAGG) {
    std::vector<Val> v;
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) v.push_back(loadTyped(a + L->getElementOffset(i), S->getElementType(i))); }
    else { Type* ET = T->getArrayElementType(); uint64_t es = DL->getTypeAllocSize(ET); for (uint64_t i = 0; i < T->getArrayNumElements(); ++i) v.push_back(loadTyped(a + i * es, ET)); }
    return mkAgg(v);
  }
  return loadScalar(a, t);
}
static void initGlobal(uint64_t a, Constant* K) {
  Type* T = K->getType();
  if (isa<UndefValue>(K)) { uint64_t off; uint64_t n = DL->getTypeAllocSize(T); Obj* o = objAt(a, n, off); memset(&o->st[off], 1, n); return; }
  if (isa<ConstantAggregateZero>(K)) { uint64_t off, n = DL->getTypeAllocSize(T); Obj* o = objAt(a, n, off); memset(&o->st[off], 1, n); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(K)) { if (cd->getElementType()->isIntegerTy(8)) { StringRef s = cd->getRawDataValues(); uint64_t off; Obj* o = objAt(a, s.size(), off); memcpy(&o->b[off], s.data(), s.size()); memset(&o->st[off], 1, s.size()); return; } }
  if (auto* ca = dyn_cast<ConstantAggregate>(K)) {
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(a + L->getElementOffset(i), ca->getOperand(i)); return; }
    if (T->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(a + i * es, ca->getOperand(i)); return; }
  }
  storeTyped(a, constVal(K), T);
}
static uint64_t gaddr(const GlobalValue* g) {
  auto it = GADDR.find(g); if (it != GADDR.end()) return it->second;
  if (auto* f = dyn_cast<Function>(g)) { uint64_t a = newObj(0, "function", false); GADDR[g] = a; FADDR[a] = const_cast<Function*>(f); return a; }
  auto* v = cast<GlobalVariable>(g); uint64_t sz = DL->getTypeAllocSize(v->getValueType()); if (!v->hasInitializer()) sz = std::max<uint64_t>(sz, 512);
  uint64_t a = newObj(sz, "global", false); GADDR[g] = a;
  if (v->hasInitializer()) { initGlobal(a, const_cast<Constant*>(v->getInitializer())); Obj* o = OBJS[a >> 32]; for (auto& s : o->st) if (!s) s = 1; if (v->isConstant()) o->ro = true; }
  else { Obj* o = OBJS[a >> 32]; memset(o->st.data(), 1, sz); }
  return a;
}
static void excTable(uint64_t p) { if (auto* g = M->getNamedGlobal("vx_exc_vtbl")) storeAt(p, mkI(gaddr(g), 64), 8); }
static int kpool(Constant* K) { static std::unordered_map<Constant*, int> c; auto it = c.find(K); if (it != c.end()) return it->second; KP.push_back(constVal(K)); return c[K] = -(int)KP.size(); }

static DF* decode(Function* F) {
  auto it = DFS.find(F); if (it != DFS.end()) return it->second;
  auto* D = new DF; D->F = F; DFS[F] = D;
  { auto q = FNIDX.find(F); if (q != FNIDX.end() && q->second < 65536) SH->fn[q->second] = 1; }
  std::unordered_map<const Value*, int> R; std::unordered_map<const BasicBlock*, int> B;
  for (auto& a : F->args()) R[&a] = D->nregs++;
  D->nargs = D->nregs; int nb = 0;
  for (auto& b : *F) { B[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) R[&i] = D->nregs++; }
  auto opn = [&](Value* v) -> int { if (auto* k = dyn_cast<Constant>(v)) return kpool(k); auto f = R.find(v); if (f == R.end()) { if (isa<MetadataAsValue>(v)) { return kpool(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)); } if (isa<InlineAsm>(v)) unsup("inline asm"); unsup("operand"); } return f->second; };
  D->bb.resize(nb);
  for (auto& b : *F) {
    auto& db = D->bb[B[&b]];
    for (auto& i : b) {
      DI d; d.I = &i; d.op = i.getOpcode(); if (!i.getType()->isVoidTy()) d.dst = R[&i]; d.ty = i.getType(); d.t = tiOf(i.getType());
      if (auto* p = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) d.phi.emplace_back(B[p->getIncomingBlock(k)], opn(p->getIncomingValue(k))); db.nphi++; }
      else if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) d.ops.push_back(opn(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); ++k) d.tgt.push_back(B[br->getSuccessor(k)]); }
      else if (auto* sw = dyn_cast<SwitchInst>(&i)) { d.ops.push_back(opn(sw->getCondition())); d.tgt.push_back(B[sw->getDefaultDest()]); for (auto& c : sw->cases()) { d.ops.push_back(kpool(c.getCaseValue())); d.tgt.push_back(B[c.getCaseSuccessor()]); } }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        d.ops.push_back(opn(g->getPointerOperand())); if (i.getType()->isVectorTy()) { d.sub = 999; }
        else for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (auto* S = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
          int64_t s = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) d.off += s * ci->getSExtValue(); else { d.ops.push_back(opn(gi.getOperand())); d.sc.push_back(s); }
        }
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) d.ops.push_back(isa<MetadataAsValue>(a.get()) ? kpool(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)) : opn(a.get()));
        if (!isa<InlineAsm>(cb->getCalledOperand()) ) d.ops.push_back(opn(cb->getCalledOperand()->stripPointerCasts())); else d.ops.push_back(kpool(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)));
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { d.tgt.push_back(B[iv->getNormalDest()]); d.tgt.push_back(B[iv->getUnwindDest()]); }
      } else if (isa<LandingPadInst>(&i)) {}
      else {
        for (auto& o : i.operands()) if (!isa<BasicBlock>(o)) d.ops.push_back(opn(o.get()));
        if (auto* c = dyn_cast<CmpInst>(&i)) d.sub = c->getPredicate();
        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) d.idx.assign(ev->idx_begin(), ev->idx_end());
        if (auto* iv = dyn_cast<InsertValueInst>(&i)) d.idx.assign(iv->idx_begin(), iv->idx_end());
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) for (int m : sv->getShuffleMask()) d.idx.push_back((unsigned)m);
        if (isa<CastInst>(&i)) d.t2 = tiOf(i.getOperand(0)->getType());
        if (auto* s = dyn_cast<StoreInst>(&i)) d.ty = s->getValueOperand()->getType(), d.t2 = tiOf(d.ty);
        if (auto* al = dyn_cast<AllocaInst>(&i)) d.off = DL->getTypeAllocSize(al->getAllocatedType());
        if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) d.sub = rm->getOperation(), d.t2 = tiOf(rm->getValOperand()->getType());
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&i)) d.t2 = tiOf(cx->getNewValOperand()->getType());
      }
      db.in.push_back(std::move(d));
    }
  }
  return D;
}

// ---------------------------------------------------------------- arithmetic
static z3::expr b2bv(const z3::expr& b, unsigned w) { return z3::ite(b, bvnum(1, w), bvnum(0, w)); }
static Val binopF(unsigned op, const Val& a, const Val& b);
static Val mapVec(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) { auto &x = agg(a), &y = agg(b); std::vector<Val> r; for (size_t i = 0; i < x.size(); ++i) r.push_back(f(x[i], y[i])); return mkAgg(r); }
static Val binop(unsigned op, const Val& a, const Val& b) {
  if (a.k == AGG || b.k == AGG) return mapVec(a, b, [&](const Val& x, const Val& y) { return binop(op, x, y); });
  if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv || op == Instruction::FRem) return binopF(op, a, b);
  unsigned w = a.w ? a.w : b.w;
  if ((a.k == INT || a.k == UNDEF) && (b.k == INT || b.k == UNDEF)) {
    if (w <= 64) {
      uint64_t x = a.lo, y = b.lo;
      switch (op) {
        case Instruction::Add: return mkI(x + y, w); case Instruction::Sub: return mkI(x - y, w); case Instruction::Mul: return mkI(x * y, w);
        case Instruction::And: return mkI(x & y, w); case Instruction::Or: return mkI(x | y, w); case Instruction::Xor: return mkI(x ^ y, w);
        case Instruction::Shl: return mkI(y >= w ? 0 : x << y, w); case Instruction::LShr: return mkI(y >= w ? 0 : x >> y, w);
        case Instruction::AShr: { Val aa = a; aa.w = w; return mkI(y >= w ? 0 : (uint64_t)(s64(aa) >> y), w); }
        case Instruction::UDiv: if (!y) throw MemErr{"integer division by zero"}; return mkI(x / y, w);
        case Instruction::URem: if (!y) throw MemErr{"integer division by zero"}; return mkI(x % y, w);
        case Instruction::SDiv: case Instruction::SRem: { if (!y) throw MemErr{"integer division by zero"}; Val aa = a, bb = b; aa.w = bb.w = w; int64_t p = s64(aa), q = s64(bb); if (q == -1) return mkI(op == Instruction::SDiv ? (uint64_t)0 - (uint64_t)p : 0, w); return mkI(op == Instruction::SDiv ? p / q : p % q, w); }
      }
    } else if (w <= 128) {
      u128 x = g128(a), y = g128(b);
      switch (op) {
        case Instruction::Add: return mkI128(x + y, w); case Instruction::Sub: return mkI128(x - y, w); case Instruction::Mul: return mkI128(x * y, w);
        case Instruction::And: return mkI128(x & y, w); case Instruction::Or: return mkI128(x | y, w); case Instruction::Xor: return mkI128(x ^ y, w);
        case Instruction::Shl: return mkI128(y >= w ? 0 : x << (unsigned)y, w); case Instruction::LShr: return mkI128(y >= w ? 0 : x >> (unsigned)y, w);
        case Instruction::AShr: { Val aa = a; aa.w = w; return mkI128(y >= w ? 0 : (u128)(s128(aa) >> (unsigned)y), w); }
        case Instruction::UDiv: if (!y) throw MemErr{"integer division by zero"}; return mkI128(x / y, w);
        case Instruction::URem: if (!y) throw MemErr{"integer division by zero"}; return mkI128(x % y, w);
        case Instruction::SDiv: if (!y) throw MemErr{"integer division by zero"}; return mkI128((u128)(s128(a) / s128(b)), w);
        case Instruction::SRem: if (!y) throw MemErr{"integer division by zero"}; return mkI128((u128)(s128(a) % s128(b)), w);
      }
    }
  }
  Val aa = a, bb = b; aa.w = bb.w = w;
  // cheap identities
  if (w <= 64) {
    auto isc = [](const Val& v, uint64_t c) { return v.k == INT && v.lo == c; };
    if ((op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Sub || op == Instruction::Shl || op == Instruction::LShr) && isc(bb, 0)) return aa;
    if ((op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor) && isc(aa, 0)) return bb;
    if ((op == Instruction::And || op == Instruction::Mul) && (isc(aa, 0) || isc(bb, 0))) return mkI(0, w);
  }
  z3::expr x = E(aa), y = E(bb);
  if (w == 1) {
    switch (op) { case Instruction::And: case Instruction::Mul: return mkBV(x && y, 1); case Instruction::Or: return mkBV(x || y, 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBV(x != y, 1); default: return mkBV(x, 1); }
  }
  switch (op) {
    case Instruction::Add: return mkBV(x + y, w); case Instruction::Sub: return mkBV(x - y, w); case Instruction::Mul: return mkBV(x * y, w);
    case Instruction::And: return mkBV(x & y, w); case Instruction::Or: return mkBV(x | y, w); case Instruction::Xor: return mkBV(x ^ y, w);
    case Instruction::Shl: return mkBV(z3::shl(x, y), w); case Instruction::LShr: return mkBV(z3::lshr(x, y), w); case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if (bb.k != INT && decide(y == bvnum(0, w))) throw MemErr{"integer division by zero"};
      if (bb.k == INT && !g128(bb)) throw MemErr{"integer division by zero"};
      if (op == Instruction::UDiv) return mkBV(z3::udiv(x, y), w); if (op == Instruction::SDiv) return mkBV(x / y, w);
      if (op == Instruction::URem) return mkBV(z3::urem(x, y), w); return mkBV(z3::srem(x, y), w);
  }
  unsup("binary operator");
}
// opaque atoms (division, sqrt, other functions), hash-consed on their normalised arguments
static std::map<std::string, uint32_t> ATOMS;
static std::string pkey(const Poly& p) { std::string s; for (auto& x : p.t) { s += x.second.str() + "*"; for (auto v : MT.m[x.first]) s += std::to_string(v) + "."; s += "+"; } return s; }
static void addDef(const z3::expr& e, const z3::expr* weak = nullptr) {   // definitional constraint on a fresh symbol: extends the model
  if (GENERIC) { DEFS.push_back(e); if (!weak) return; PCREAL = true; addPC(*weak); if (meval(*weak) == SAT) return; std::unique_ptr<z3::model> m; if (query(C.bool_val(true), m) == SAT) setModel(m); return; }
  PCREAL = true; std::unique_ptr<z3::model> m; addPC(e);
  Res r = query(C.bool_val(true), m); if (r == UNSAT) throw PathEnd{"infeasible"}; if (r == SAT) setModel(m);
}
static Val pdiv(const Poly& a, const Poly& b, unsigned w) {
  if (b.t.empty()) { SH->divzero++; throw PathEnd{"division by zero real"}; }
  if (a.t.empty()) { if (!b.isConst()) { PCREAL = true; if (decide(polyE(b) == 0)) { SH->divzero++; throw PathEnd{"0/0"}; } } return mkF(0, w); }
  if (b.isConst()) return mkP(pscale(a, inv(b.constVal())), w);
  PCREAL = true;
  if (decide(polyE(b) == 0)) { SH->divzero++; throw PathEnd{"division by zero real"}; }
  Rat lc = b.t.back().second; Poly bn = pscale(b, inv(lc)), an = pscale(a, inv(lc));
  // constant multiple?
  Rat la = an.t.back().second; if (an.t.size() == bn.t.size() && pscale(bn, la) == an) return mkP(Poly::cst(la), w);
  Poly am = pscale(an, inv(la));   // monic numerator: atom(am/bn) scaled by la
  std::string k = "div(" + pkey(am) + "/" + pkey(bn) + ")"; auto it = ATOMS.find(k); uint32_t id;
  if (it == ATOMS.end()) { id = freshRV("q!" + std::to_string(RV.size())); ATOMS[k] = id; LAZYDEF[id] = [id, am, bn] { addDef(RV[id].e * polyE(bn) == polyE(am)); }; } else id = it->second;
  return mkP(pscale(Poly::var(id), la), w);
}
static bool decidePoly(const Poly& d, int rel) {  // rel: 0 '<0', 1 '<=0', 2 '==0'
  if (d.isConst()) { int s = d.constVal().sign(); return rel == 0 ? s < 0 : rel == 1 ? s <= 0 : s == 0; }
  PCREAL = true; z3::expr e = polyE(d); return decide(rel == 0 ? e < 0 : rel == 1 ? e <= 0 : e == 0);
}
static std::set<uint32_t> ABSV;
static Val uninterp(const std::string& f, const Poly& a, unsigned w) {
  std::string k = f + "(" + pkey(a) + ")"; auto it = ATOMS.find(k); uint32_t id;
  if (it == ATOMS.end()) {
    id = freshRV(f + "!" + std::to_string(RV.size())); ATOMS[k] = id;
    if (f == "sqrt") LAZYDEF[id] = [id, a] { z3::expr w = RV[id].e >= 0; addDef(RV[id].e * RV[id].e == polyE(a) && w, &w); };
    if (f == "abs") { ABSV.insert(id); LAZYDEF[id] = [id, a] { z3::expr x = polyE(a); addDef(RV[id].e == z3::ite(x < 0, -x, x)); }; }
    if (f == "exp") LAZYDEF[id] = [id] { addDef(RV[id].e > 0); };
  } else id = it->second;
  return mkP(Poly::var(id), w);
}
static Val sqrtV(const Val& a) {
  if (a.k == FP) { double x = gF(a), r = std::sqrt(x); if (!EXACTC || !(x >= 0) || !std::isfinite(x) || mpq_class(r) * mpq_class(r) == mpq_class(x)) return mkF(r, a.w); }
  const Poly p = a.k == FP ? toP(a) : gP(a);
  if (!GENERIC && decidePoly(p, 0)) { SH->divzero++; throw PathEnd{"sqrt of negative"}; }
  if (p.t.size() == 1 && p.t[0].first) {  // c*m^2 with c a rational square
    auto& vs = MT.m[p.t[0].first]; bool sq = vs.size() % 2 == 0; std::vector<uint32_t> h; for (size_t i = 0; sq && i + 1 < vs.size(); i += 2) { if (vs[i] != vs[i + 1]) sq = false; h.push_back(vs[i]); }
    mpq_class q = p.t[0].second.q(); if (sq && q > 0 && mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) {
      mpq_class r(sqrt(q.get_num()), sqrt(q.get_den())); Poly m; m.t.emplace_back(MT.get(h), Rat::from(r)); if (decidePoly(m, 0)) m = pscale(m, Rat(-1)); return mkP(m, a.w); } }
  return uninterp("sqrt", p, a.w);
}
static Val fabsV(const Val& a) { if (a.k == FP) return mkF(std::fabs(gF(a)), a.w); if (a.k == UNDEF) return mkF(0, a.w); if (decidePoly(toP(a), 0)) return mkP(pscale(toP(a), Rat(-1)), a.w); return a; }
static Val binopF(unsigned op, const Val& a, const Val& b) {
  unsigned w = a.w ? a.w : b.w;
  if ((a.k == FP || a.k == UNDEF) && (b.k == FP || b.k == UNDEF)) {
    double x = a.k == FP ? gF(a) : 0, y = b.k == FP ? gF(b) : 0;
    switch (op) { case Instruction::FAdd: return mkF(x + y, w); case Instruction::FSub: return mkF(x - y, w); case Instruction::FMul: return mkF(x * y, w); case Instruction::FDiv: if (EXACTC && std::isfinite(x) && std::isfinite(y) && y != 0 && mpq_class(x / y) * mpq_class(y) != mpq_class(x)) return pdiv(toP(a), toP(b), w); return mkF(x / y, w); default: return mkF(fmod(x, y), w); }
  }
  if (a.k == INT || b.k == INT || a.k == BV || b.k == BV) unsup("integer used as real");
  for (auto* v : {&a, &b}) if (v->k == FP && !std::isfinite(gF(*v))) {
    double f = gF(*v); if (std::isnan(f)) return *v; const Val& o = v == &a ? b : a;
    if (op == Instruction::FAdd) return mkF(f, w); if (op == Instruction::FSub) return mkF(v == &a ? f : -f, w);
    if (op == Instruction::FDiv && v == &b) return mkF(0, w);
    if (decidePoly(toP(o), 0)) return mkF(-f, w); return mkF(f, w);
  }
  switch (op) {
    case Instruction::FAdd: return mkP(padd(toP(a), toP(b)), w); case Instruction::FSub: return mkP(padd(toP(a), toP(b), true), w);
    case Instruction::FMul: if ((a.k == FP && gF(a) == 1)) return b; if (b.k == FP && gF(b) == 1) return a; return mkP(pmul(toP(a), toP(b)), w);
    case Instruction::FDiv: return pdiv(toP(a), toP(b), w);
  }
  unsup("frem on symbolic real");
}
static Val fcmp(unsigned pred, const Val& a, const Val& b);
static Val icmp(unsigned pred, const Val& a, const Val& b) {
  if (a.k == AGG) return mapVec(a, b, [&](const Val& x, const Val& y) { return icmp(pred, x, y); });
  unsigned w = a.w ? a.w : b.w;
  if ((a.k == INT || a.k == UNDEF) && (b.k == INT || b.k == UNDEF) && w <= 128) {
    Val aa = a, bb = b; aa.w = bb.w = w; u128 x = g128(aa), y = g128(bb); i128 p = s128(aa), q = s128(bb); bool r = false;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; }
    return mkI(r, 1);
  }
  if (a.k == RP && b.k == INT && w == 64) { // sign bit of a real (negative zero does not exist here)
    if ((pred == CmpInst::ICMP_SLT && s128(b) == 0) || (pred == CmpInst::ICMP_SLE && s128(b) == -1)) return fcmp(CmpInst::FCMP_OLT, a, mkF(0));
    if ((pred == CmpInst::ICMP_SGT && s128(b) == -1) || (pred == CmpInst::ICMP_SGE && s128(b) == 0)) return fcmp(CmpInst::FCMP_OGE, a, mkF(0));
  }
  if (a.k == RP || b.k == RP || a.k == FP || b.k == FP) unsup("bitwise comparison of a symbolic real");
  Val aa = a, bb = b; aa.w = bb.w = w; z3::expr x = E(aa), y = E(bb);
  if (w == 1) { if (pred == CmpInst::ICMP_EQ) return mkBV(x == y, 1); if (pred == CmpInst::ICMP_NE) return mkBV(x != y, 1); x = b2bv(x, 2); y = b2bv(y, 2); if (CmpInst::isSigned((CmpInst::Predicate)pred)) { std::swap(x, y); } }
  switch (pred) { case CmpInst::ICMP_EQ: return mkBV(x == y, 1); case CmpInst::ICMP_NE: return mkBV(x != y, 1); case CmpInst::ICMP_UGT: return mkBV(z3::ugt(x, y), 1); case CmpInst::ICMP_UGE: return mkBV(z3::uge(x, y), 1); case CmpInst::ICMP_ULT: return mkBV(z3::ult(x, y), 1); case CmpInst::ICMP_ULE: return mkBV(z3::ule(x, y), 1);
    case CmpInst::ICMP_SGT: return mkBV(x > y, 1); case CmpInst::ICMP_SGE: return mkBV(x >= y, 1); case CmpInst::ICMP_SLT: return mkBV(x < y, 1); case CmpInst::ICMP_SLE: return mkBV(x <= y, 1); }
  unsup("icmp");
}
static Val fcmp(unsigned pred, const Val& a, const Val& b) {
  if (a.k == AGG) return mapVec(a, b, [&](const Val& x, const Val& y) { return fcmp(pred, x, y); });
  if (pred == CmpInst::FCMP_TRUE) return mkI(1, 1); if (pred == CmpInst::FCMP_FALSE) return mkI(0, 1);
  bool ca = a.k == FP || a.k == UNDEF, cb = b.k == FP || b.k == UNDEF; double x = a.k == FP ? gF(a) : 0, y = b.k == FP ? gF(b) : 0;
  if (!(ca && cb) && ((a.k == FP && !std::isfinite(x)) || (b.k == FP && !std::isfinite(y)))) { if (!ca) x = 0; if (!cb) y = 0; ca = cb = true; }
  if (ca && cb) {
    bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) { case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_ORD: r = !u; break;
      case CmpInst::FCMP_UNO: r = u; break; case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; case CmpInst::FCMP_UNE: r = u || x != y; break; }
    return mkI(r, 1);
  }
  if (a.k == BV || a.k == INT || b.k == BV || b.k == INT) unsup("fcmp on integer");
  if (pred == CmpInst::FCMP_ORD) return mkI(1, 1); if (pred == CmpInst::FCMP_UNO) return mkI(0, 1);
  Poly d = padd(toP(a), toP(b), true);
  auto mk = [&](int kind) -> Val {  // 0: <0, 1: <=0, 2: ==0, 3: >0, 4: >=0, 5: !=0
    if (d.t.size() == 1 && MT.m[d.t[0].first].size() == 1 && ABSV.count(MT.m[d.t[0].first][0])) { bool pos = d.t[0].second.sign() > 0; if (pos && kind == 0) return mkI(0, 1); if (pos && kind == 4) return mkI(1, 1); if (!pos && kind == 3) return mkI(0, 1); if (!pos && kind == 1) return mkI(1, 1); }
    if (d.isConst()) { int s = d.constVal().sign(); bool r = kind == 0 ? s < 0 : kind == 1 ? s <= 0 : kind == 2 ? s == 0 : kind == 3 ? s > 0 : kind == 4 ? s >= 0 : s != 0; return mkI(r, 1); }
    PCREAL = true; z3::expr e = polyE(d); Val r; r.k = BV; r.w = 1; r.n = Ref<Node>(new BVN(kind == 0 ? e < 0 : kind == 1 ? e <= 0 : kind == 2 ? e == 0 : kind == 3 ? e > 0 : kind == 4 ? e >= 0 : e != 0)); return r;
  };
  switch (pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mk(2); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mk(5); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mk(0); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mk(1); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mk(3); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mk(4); }
  unsup("fcmp");
}
static Val castop(unsigned op, const Val& a0, TI from, TI to) {
  if (a0.k == AGG) {
    if (op == Instruction::BitCast) unsup("vector bitcast");
    std::vector<Val> r; unsup("vector cast");
  }
  Val a = a0; if (a.k == UNDEF) { Val r; r.w = to.w; return r; }
  switch (op) {
    case Instruction::Trunc:
      if (a.k == INT) return mkI128(g128(a), to.w); if (a.k != BV) unsup("trunc of a real");
      if (to.w == 1) return mkBV(E(a).extract(0, 0) == C.bv_val(1, 1), 1); return mkBV(E(a).extract(to.w - 1, 0), to.w);
    case Instruction::ZExt: if (a.k == INT && to.w <= 128) return mkI128(g128(a), to.w); if (a.k != BV && a.k != INT) unsup("zext of a real"); if (from.w == 1) return mkBV(b2bv(E(a), to.w), to.w); return mkBV(z3::zext(E(a), to.w - from.w), to.w);
    case Instruction::SExt: if (a.k == INT && to.w <= 128) return mkI128((u128)s128(a), to.w); if (from.w == 1) return mkBV(z3::ite(E(a), bvnum(~(u128)0, to.w), bvnum(0, to.w)), to.w); return mkBV(z3::sext(E(a), to.w - from.w), to.w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.k == INT) return mkI128(g128(a), to.w); if (to.w == from.w) return a; return mkBV(to.w < from.w ? E(a).extract(to.w - 1, 0) : z3::zext(E(a), to.w - from.w), to.w);
    case Instruction::BitCast:
      if ((to.k == TF64 || to.k == TF32) && a.k == INT) { if (to.k == TF64) { double d; uint64_t x = a.lo; memcpy(&d, &x, 8); return mkF(d); } float f; uint32_t x = a.lo; memcpy(&f, &x, 4); return mkF(f, 32); }
      if ((to.k == TINT || to.k == TPTR) && a.k == FP) { if (a.w == 64) return mkI(a.lo, 64); float f = gF(a); uint32_t x; memcpy(&x, &f, 4); return mkI(x, 32); }
      return a;
    case Instruction::FPExt: case Instruction::FPTrunc: if (a.k == FP) return mkF(gF(a), to.w); a.w = to.w; return a;
    case Instruction::SIToFP: case Instruction::UIToFP: {
      Val c = a.k == BV ? concretize(a) : a; if (op == Instruction::SIToFP) return mkF((double)s128(c), to.w); return mkF((double)g128(c), to.w); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (a.k == FP) { double d = gF(a); if (op == Instruction::FPToSI) return mkI128((u128)(i128)d, to.w); return mkI128((u128)d, to.w); }
      // truncate toward zero: concretise via an integer symbol
      PCREAL = true; Poly p = toP(a); bool neg = decidePoly(p, 0); Poly q = neg ? pscale(p, Rat(-1)) : p;
      for (int i = 0; i < 64; ++i) if (decidePoly(padd(q, Poly::cst(Rat(i + 1)), true), 0)) return mkI((uint64_t)(neg ? -i : i), to.w);
      unsup("fptosi of an unbounded symbolic real"); }
    case Instruction::AddrSpaceCast: return a;
  }
  unsup("cast");
}
static Val select(const Val& c, const Val& a, const Val& b) {
  if (c.k == AGG) { std::vector<Val> r; for (size_t i = 0; i < agg(c).size(); ++i) r.push_back(select(agg(c)[i], agg(a)[i], agg(b)[i])); return mkAgg(r); }
  if (c.k == INT || c.k == UNDEF) return (c.lo & 1) ? a : b;
  bool ia = a.k == INT || a.k == BV, ib = b.k == INT || b.k == BV;
  if (ia && ib) return mkBV(z3::ite(E(c), E(a), E(b)), a.w);
  return decide(E(c)) ? a : b;
}

// ---------------------------------------------------------------- threads and frames
struct Frame { DF* f; int bb = 0, ip = 0, prev = -1; std::vector<Val> r; std::vector<uint32_t> al; DI* call = nullptr; std::vector<Val> va; };
struct Thread { std::vector<Frame> fr; bool done = false; Val exc; int exsel = 0; std::vector<Val> caught; };
static std::vector<Thread> TH; static int CUR = 0;
static std::string STACK() {
  std::string s; if (CUR >= (int)TH.size()) return s; auto& fr = TH[CUR].fr; int n = 0;
  for (int i = (int)fr.size() - 1; i >= 0 && n < 6; --i, ++n) {
    auto& f = fr[i]; std::string nm = f.f->F->getName().str(); s += nm.substr(0, 90);
    if (f.ip < (int)f.f->bb[f.bb].in.size()) if (auto dl = f.f->bb[f.bb].in[f.ip].I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
    s += " < ";
  }
  return s;
}
static Val& reg(Frame& f, int i) { return i >= 0 ? f.r[i] : KP[-i - 1]; }
static std::string readStr(uint64_t a) {
  std::string s; for (;;) { Val v = loadScalar(a, TI{TINT, 8, 1}); if (v.k != INT) unsup("symbolic string"); if (!v.lo) return s; s += (char)v.lo; ++a; if (s.size() > 4096) unsup("unterminated string"); }
}
static void pushFrame(Function* F, std::vector<Val> args, DI* call) {
  DF* d = decode(F); auto& th = TH[CUR]; if (th.fr.size() > 2000) throw MemErr{"stack overflow"};
  Frame f; f.f = d; f.r.resize(d->nregs); for (int i = 0; i < d->nargs && i < (int)args.size(); ++i) f.r[i] = args[i];
  if (F->isVarArg()) f.va.assign(args.begin() + d->nargs, args.end());
  f.call = call; th.fr.push_back(std::move(f));
  // byval arguments
  int i = 0; for (auto& a : F->args()) { if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); uint64_t na = newObj(sz, "byval", false); TH[CUR].fr.back().al.push_back(na >> 32); copyMem(na, TH[CUR].fr.back().r[i].lo, sz); TH[CUR].fr.back().r[i] = mkI(na, 64); } ++i; }
}
static void freeFrame(Frame& f) { for (auto id : f.al) { Obj* o = OBJS[id]; o->alive = false; o->b = {}; o->st = {}; o->cells = {}; } }
static void switchNext() { int n = TH.size(); for (int i = 1; i <= n; ++i) { int t = (CUR + i) % n; if (!TH[t].done) { CUR = t; return; } } }

// --- exceptions
static std::map<std::string, std::string> STDBASE = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static std::map<uint64_t, std::string> EXC_TI;   // exception object -> typeinfo symbol
static bool tiMatch(std::string t, const std::string& c) {
  for (int i = 0; i < 16; ++i) {
    if (t == c) return true; auto it = STDBASE.find(t); if (it != STDBASE.end()) { t = it->second; continue; }
    auto* g = M->getNamedGlobal(t); if (!g || !g->hasInitializer()) return false;
    auto* s = dyn_cast<ConstantStruct>(g->getInitializer()); if (!s || s->getNumOperands() < 3) return false;
    auto* b = dyn_cast<GlobalVariable>(s->getOperand(2)->stripPointerCasts()); if (!b) return false; t = b->getName().str();
  }
  return false;
}
static std::vector<std::string> TIDS;
static int tidOf(const std::string& s) { for (size_t i = 0; i < TIDS.size(); ++i) if (TIDS[i] == s) return i + 1; TIDS.push_back(s); return TIDS.size(); }
static void unwind() {   // propagate TH[CUR].exc to the nearest matching landing pad
  auto& th = TH[CUR]; std::string ty = EXC_TI[th.exc.lo];
  while (!th.fr.empty()) {
    Frame& f = th.fr.back(); DI& d = f.f->bb[f.bb].in[f.ip];
    if (d.op == Instruction::Invoke) {
      auto& lb = f.f->bb[d.tgt[1]]; DI* lp = nullptr; for (auto& x : lb.in) if (x.op == Instruction::LandingPad) { lp = &x; break; }
      auto* L = cast<LandingPadInst>(lp->I); int sel = -1;
      for (unsigned i = 0; i < L->getNumClauses(); ++i) if (L->isCatch(i)) {
        Value* c = L->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { sel = tidOf("...") ; break; }
        std::string n = cast<GlobalValue>(c)->getName().str(); if (tiMatch(ty, n)) { sel = tidOf(n); break; }
      }
      if (sel < 0 && L->isCleanup()) sel = 0;
      if (sel >= 0) { th.exsel = sel; f.prev = f.bb; f.bb = d.tgt[1]; f.ip = 0; return; }
    }
    freeFrame(f); th.fr.pop_back();
  }
  std::string msg = "uncaught exception " + ty; hardViolation(msg);
}
static void excTable(uint64_t p); // standard exceptions answer what() and are destroyed through this table
static void throwStd(const std::string& ti) { uint64_t a = newObj(16, "exception", true); excTable(a); EXC_TI[a] = ti; TH[CUR].exc = mkI(a, 64); unwind(); }

// ---------------------------------------------------------------- external functions
static void finishCall(Frame& f, DI& d, const Val& v) { if (d.dst >= 0) f.r[d.dst] = v; if (d.op == Instruction::Invoke) { f.prev = f.bb; f.bb = d.tgt[0]; f.ip = 0; } else f.ip++; }
static long INPN = 0;
static std::string inName(const std::string& s) { return s + "#" + std::to_string(INPN++); }
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static Val asI(const Val& v) { return v.k == UNDEF ? mkI(0, v.w) : v; }
static std::unordered_map<Function*, int> EXTID;
enum Ext { X_NONE = 0, X_WHAT, X_INT, X_REAL, X_ASSUME, X_ASSERT, X_ASSERTREQ, X_COVER, X_GENERIC, X_CONC, X_FAIL, X_OBSI, X_OBSR, X_SPAWN, X_YIELD, X_TID, X_ALIVE, X_NEW, X_FREE, X_CALLOC, X_REALLOC, X_MEMCPY, X_MEMSET, X_CXA_ALLOC, X_CXA_THROW, X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_THROWSTD, X_ABORT, X_NOP0, X_NOPTHIS, X_MATH1, X_GUARD, X_POW, X_ISSYM, X_ASSERTLE, X_CXA_FREE, X_FMOD, X_EXIT, X_MEMSIZE };
static std::map<std::string, int> EXT = {
  {"vx_int_", X_INT}, {"vx_real", X_REAL}, {"vx_assume_", X_ASSUME}, {"vx_assert_", X_ASSERT}, {"vx_assert_eq", X_ASSERTREQ}, {"vx_assert_same", X_ASSERTREQ}, {"vx_cover", X_COVER}, {"vx_concretize", X_CONC}, {"vx_generic", X_GENERIC}, {"vx_is_symbolic_real", X_ISSYM}, {"vx_fail", X_FAIL}, {"vx_observe_int", X_OBSI}, {"vx_observe_real", X_OBSR}, {"vx_is_symbolic", X_ISSYM},
  {"vx_spawn", X_SPAWN}, {"vx_yield", X_YIELD}, {"vx_self", X_TID}, {"vx_alive", X_ALIVE}, {"vx_object_size", X_MEMSIZE},
  {"malloc", X_NEW}, {"_Znwm", X_NEW}, {"_Znam", X_NEW}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"_ZnamRKSt9nothrow_t", X_NEW}, {"_ZnwmSt11align_val_t", X_NEW}, {"_ZnamSt11align_val_t", X_NEW}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPvm", X_FREE}, {"_ZdlPvSt11align_val_t", X_FREE}, {"_ZdlPvmSt11align_val_t", X_FREE}, {"_ZdlPvRKSt9nothrow_t", X_FREE},
  {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET},
  {"__cxa_allocate_exception", X_CXA_ALLOC}, {"__cxa_throw", X_CXA_THROW}, {"__cxa_begin_catch", X_CXA_BEGIN}, {"__cxa_end_catch", X_CXA_END}, {"__cxa_rethrow", X_CXA_RETHROW}, {"__cxa_free_exception", X_CXA_FREE},
  {"abort", X_ABORT}, {"_ZSt9terminatev", X_ABORT}, {"__assert_fail", X_ABORT}, {"__clang_call_terminate", X_ABORT}, {"__cxa_pure_virtual", X_ABORT}, {"exit", X_ABORT}, {"_exit", X_ABORT}, {"__stack_chk_fail", X_ABORT},
  {"__cxa_guard_acquire", X_GUARD}, {"__cxa_guard_release", X_NOP0}, {"__cxa_guard_abort", X_NOP0}, {"__cxa_atexit", X_NOP0}, {"atexit", X_NOP0}, {"pthread_mutex_lock", X_NOP0}, {"pthread_mutex_unlock", X_NOP0}, {"__gthread_active_p", X_NOP0}, {"_ZNSt6chrono3_V212system_clock3nowEv", X_NOP0}, {"_ZNSt6chrono3_V212steady_clock3nowEv", X_NOP0}, {"time", X_NOP0}, {"printf", X_NOP0}, {"puts", X_NOP0}, {"putchar", X_NOP0}, {"fflush", X_NOP0}, {"fprintf", X_NOP0}, {"fwrite", X_NOP0},
  {"sqrt", X_MATH1}, {"sqrtf", X_MATH1}, {"fabs", X_MATH1}, {"exp", X_MATH1}, {"log", X_MATH1}, {"sin", X_MATH1}, {"cos", X_MATH1}, {"tan", X_MATH1}, {"log10", X_MATH1}, {"log2", X_MATH1}, {"floor", X_MATH1}, {"ceil", X_MATH1}, {"round", X_MATH1}, {"pow", X_POW}, {"fmod", X_FMOD}};
static int extId(Function* F) {
  auto it = EXTID.find(F); if (it != EXTID.end()) return it->second; std::string n = F->getName().str(); int id = X_NONE; auto e = EXT.find(n);
  if (e != EXT.end()) id = e->second;
  else if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) id = X_THROWSTD;
  else if (starts(n, "_ZNKSt") && n.find("4whatEv") != std::string::npos) id = X_WHAT;
  else if (starts(n, "_ZNSt13runtime_errorC") || starts(n, "_ZNSt11logic_errorC") || starts(n, "_ZNSt12out_of_rangeC") || starts(n, "_ZNSt16invalid_argumentC") || starts(n, "_ZNSt12length_errorC") || starts(n, "_ZNSt13runtime_errorD") || starts(n, "_ZNSt11logic_errorD") || starts(n, "_ZNSt9exceptionD") || starts(n, "_ZNSt12out_of_rangeD") || starts(n, "_ZNSt16invalid_argumentD") || starts(n, "_ZNSt12domain_error") || starts(n, "_ZNSt11range_error")) id = X_NOPTHIS;
  return EXTID[F] = id;
}
static Val math1(const std::string& n, const Val& a) {
  if (n == "fabs") return fabsV(a); if (n == "sqrt" || n == "sqrtf") return sqrtV(a);
  if (a.k == FP) { double x = gF(a), r = n == "exp" ? exp(x) : n == "log" ? log(x) : n == "sin" ? sin(x) : n == "cos" ? cos(x) : n == "tan" ? tan(x) : n == "log10" ? log10(x) : n == "log2" ? log2(x) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : round(x); return mkF(r, a.w); }
  if (n == "floor" || n == "ceil" || n == "round") unsup("rounding of a symbolic real");
  return uninterp(n, toP(a), a.w);
}
static void memAccess(std::function<void(uint64_t)> f, const Val& addr);

static void doExternal(int id, Function* F, DI& d, std::vector<Val>& a) {
  auto fr = [&]() -> Frame& { return TH[CUR].fr.back(); };
  auto fin = [&](const Val& v) { finishCall(fr(), d, v); };
  auto conc = [&](int i) -> uint64_t { a[i] = concretize(asI(a[i])); return a[i].lo; };
  switch (id) {
    case X_INT: {   // vx_int_(name, bits)
      std::string nm = inName(readStr(conc(0))); unsigned w = conc(1); Val v = freshBV(nm.c_str(), w); INPUTS.push_back({nm, false, w, E(v)});
      if (w == 1) return fin(mkBV(b2bv(E(v), 64), 64)); return fin(w == 64 ? v : mkBV(z3::zext(E(v), 64 - w), 64)); }
    case X_REAL: { std::string nm = inName(readStr(conc(0))); uint32_t id2 = freshRV(nm); INPUTS.push_back({nm, true, 64, RV[id2].e}); return fin(mkP(Poly::var(id2))); }
    case X_ASSUME: {
      Val c = asI(a[0]); if (c.k == INT) { if (!c.lo) throw PathEnd{"assume"}; return fin(Val()); }
      z3::expr e = (E(c) != bvnum(0, c.w)).simplify(); if (meval(e) != SAT) { std::unique_ptr<z3::model> m; Res r = query(e, m); if (r == UNSAT) throw PathEnd{"assume"}; setModel(m); } addPC(e); return fin(Val()); }
    case X_ASSERT: { Val c = asI(a[0]); std::string l = readStr(conc(1)); doAssert(c.k == INT ? C.bool_val(c.lo != 0) : E(c) != bvnum(0, c.w), l); return fin(Val()); }
    case X_ASSERTREQ: {
      std::string l = readStr(conc(2));
      for (int i = 0; i < 2; ++i) if (a[i].k == FP && !std::isfinite(gF(a[i]))) { if (a[1 - i].k == FP && gF(a[1 - i]) == gF(a[i])) return fin(Val()); hardViolation(l + " (non-finite)"); }
      if (a[0].k == FP && a[1].k == FP) { double x = gF(a[0]), y = gF(a[1]); SH->asserts++; SH->queries++; countLabel(l); if (std::fabs(x - y) > 1e-9 * (1 + std::fabs(x) + std::fabs(y))) hardViolation(l); return fin(Val()); }
      Poly df = padd(toP(a[0]), toP(a[1]), true);
      if (!df.t.empty()) PCREAL = true; z3::expr e = polyE(df); z3::expr strong = e >= 1 || e <= -1; doAssert(e == 0, l, &strong); return fin(Val()); }
    case X_ASSERTLE: unsup("assert_le");
    case X_COVER: countCover(readStr(conc(0))); return fin(Val());
    case X_CONC: return fin(concretize(asI(a[0])));
    case X_ISSYM: return fin(mkI(a[0].k == BV || a[0].k == RP, 32));
    case X_GENERIC: GENERIC = conc(0) != 0; EXACTC = conc(0) == 2; return fin(Val());
    case X_FAIL: { std::string l = readStr(conc(0)); SH->asserts++; countLabel(l); hardViolation(l); }
    case X_OBSI: OBS.emplace_back(false, asI(a[0])); return fin(Val());
    case X_OBSR: OBS.emplace_back(true, a[0]); return fin(Val());
    case X_MEMSIZE: { uint64_t off; Obj* o = objAt(conc(0), 0, off); return fin(mkI(o->size - off, 64)); }
    case X_SPAWN: { uint64_t fp = conc(0); Val arg = a[1]; Function* T = FADDR.count(fp) ? FADDR[fp] : nullptr; if (!T) unsup("spawn"); int id2 = TH.size(); fin(mkI(id2, 32)); TH.emplace_back(); int sv = CUR; CUR = id2; pushFrame(T, {arg}, nullptr); CUR = sv; return; }
    case X_YIELD: fin(Val()); switchNext(); return;
    case X_TID: return fin(mkI(CUR, 32));
    case X_ALIVE: { int n = 0; for (auto& t : TH) n += !t.done; return fin(mkI(n, 32)); }
    case X_NEW: { uint64_t n = conc(0); return fin(mkI(newObj(n, "heap", true), 64)); }
    case X_CALLOC: { uint64_t n = conc(0) * conc(1); uint64_t p = newObj(n, "heap", true); memset(OBJS[p >> 32]->st.data(), 1, n); return fin(mkI(p, 64)); }
    case X_REALLOC: { uint64_t p = conc(0), n = conc(1), q = newObj(n, "heap", true); if (p) { Obj* o = OBJS[p >> 32]; copyMem(q, p, std::min(o->size, n)); o->alive = false; } return fin(mkI(q, 64)); }
    case X_FREE: { uint64_t p = conc(0); if (p) { uint64_t id2 = p >> 32; if (id2 >= OBJS.size() || (p & 0xffffffffull) != OFF0 || !OBJS[id2]->heap) throw MemErr{"free of an invalid pointer"}; if (!OBJS[id2]->alive) throw MemErr{"double free"}; Obj* o = OBJS[id2]; o->alive = false; o->b = {}; o->st = {}; o->cells = {}; } return fin(Val()); }
    case X_MEMCPY: { uint64_t n = conc(2); copyMem(conc(0), conc(1), n); return fin(a[0]); }
    case X_MEMSET: { uint64_t n = conc(2), p = conc(0); if (n) { uint64_t off; Obj* o = objAt(p, n, off, true); if (o->ro) throw MemErr{"write to constant memory"}; Val c = asI(a[1]); if (c.k == INT) { clearRange(o, off, n); memset(&o->b[off], (int)c.lo, n); memset(&o->st[off], 1, n); } else for (uint64_t i = 0; i < n; ++i) storeAt(p + i, mkBV(E(c).extract(7, 0), 8), 1); } return fin(a[0]); }
    case X_CXA_ALLOC: { uint64_t p = newObj(conc(0) + 16, "exception", true); excTable(p); return fin(mkI(p, 64)); }
    case X_CXA_FREE: return fin(Val());
    case X_CXA_THROW: { uint64_t p = conc(0), ti = conc(1); std::string n; for (auto& g : GADDR) if (g.second == ti) n = g.first->getName().str(); EXC_TI[p] = n; TH[CUR].exc = a[0]; unwind(); return; }
    case X_CXA_BEGIN: TH[CUR].caught.push_back(a[0]); return fin(a[0]);
    case X_CXA_END: if (!TH[CUR].caught.empty()) TH[CUR].caught.pop_back(); return fin(Val());
    case X_CXA_RETHROW: if (TH[CUR].caught.empty()) hardViolation("rethrow without exception"); TH[CUR].exc = TH[CUR].caught.back(); TH[CUR].caught.pop_back(); unwind(); return;
    case X_THROWSTD: { std::string n = F->getName().str(); std::string ti = n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : n.find("invalid_argument") != std::string::npos ? "_ZTISt16invalid_argument" : n.find("length_error") != std::string::npos ? "_ZTISt12length_error" : n.find("bad_function") != std::string::npos ? "_ZTISt17bad_function_call" : n.find("bad_alloc") != std::string::npos ? "_ZTISt9bad_alloc" : n.find("bad_array") != std::string::npos ? "_ZTISt20bad_array_new_length" : n.find("runtime") != std::string::npos ? "_ZTISt13runtime_error" : "_ZTISt11logic_error"; throwStd(ti); return; }
    case X_ABORT: hardViolation("program aborts in " + F->getName().str());
    case X_GUARD: { Val g = loadScalar(conc(0), TI{TINT, 8, 1}); if (g.k == INT && !g.lo) { storeAt(conc(0), mkI(1, 8), 1); return fin(mkI(1, 32)); } return fin(mkI(0, 32)); }
    case X_NOP0: { Type* T = F->getReturnType(); if (T->isVoidTy()) return fin(Val()); return fin(zeroOf(T)); }
    case X_WHAT: { auto* g = M->getNamedGlobal("vx_exc_msg"); if (!g) unsup("what()"); return fin(mkI(gaddr(g), 64)); }
    case X_NOPTHIS: { Type* T = F->getReturnType(); if (T->isVoidTy()) return fin(Val()); if (T->isPointerTy() && !a.empty()) return fin(a[0]); return fin(zeroOf(T)); }
    case X_MATH1: return fin(math1(F->getName().str(), a[0]));
    case X_POW: { if (a[0].k == FP && a[1].k == FP) return fin(mkF(std::pow(gF(a[0]), gF(a[1])))); if (a[1].k == FP) { double e = gF(a[1]); if (e == 2) return fin(mkP(pmul(toP(a[0]), toP(a[0])))); if (e == 1) return fin(a[0]); if (e == 0) return fin(mkF(1)); if (e == 0.5) return fin(sqrtV(a[0])); if (e == 3) return fin(mkP(pmul(toP(a[0]), pmul(toP(a[0]), toP(a[0]))))); } unsup("pow"); }
    case X_FMOD: if (a[0].k == FP && a[1].k == FP) return fin(mkF(std::fmod(gF(a[0]), gF(a[1])))); unsup("fmod");
  }
  unsup("external function " + F->getName().str());
}
static void doIntrinsic(unsigned iid, Function* F, DI& d, std::vector<Val>& a) {
  Frame& f = TH[CUR].fr.back(); auto fin = [&](const Val& v) { finishCall(TH[CUR].fr.back(), d, v); };
  auto each1 = [&](std::function<Val(const Val&)> g) -> Val { if (a[0].k == AGG) { std::vector<Val> r; for (auto& x : agg(a[0])) r.push_back(g(x)); return mkAgg(r); } return g(a[0]); };
  auto each2 = [&](std::function<Val(const Val&, const Val&)> g) -> Val { if (a[0].k == AGG) return mapVec(a[0], a[1], g); return g(a[0], a[1]); };
  switch (iid) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return fin(Val());
    case Intrinsic::invariant_start: return fin(mkI(0, 64));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { a[2] = concretize(asI(a[2])); a[0] = concretize(asI(a[0])); a[1] = concretize(asI(a[1])); copyMem(a[0].lo, a[1].lo, a[2].lo); return fin(Val()); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { a.resize(3); a[0] = concretize(asI(a[0])); a[2] = concretize(asI(a[2])); uint64_t n = a[2].lo; if (n) { uint64_t off; Obj* o = objAt(a[0].lo, n, off, true); Val c = asI(a[1]); if (c.k == INT) { clearRange(o, off, n); memset(&o->b[off], (int)c.lo, n); memset(&o->st[off], 1, n); } else for (uint64_t i = 0; i < n; ++i) storeAt(a[0].lo + i, c, 1); } return fin(Val()); }
    case Intrinsic::ctpop: return fin(each1([&](const Val& v) -> Val {
      if (v.k == UNDEF) return mkI(0, v.w); if (v.k == INT) return mkI(__builtin_popcountll(v.lo) + __builtin_popcountll(v.hi), v.w); z3::expr e = E(v); unsigned w = v.w;
      // balanced adder tree on narrow operands
      std::vector<z3::expr> xs; for (unsigned i = 0; i < w; ++i) xs.push_back(e.extract(i, i));
      unsigned cw = 1; while (xs.size() > 1) { std::vector<z3::expr> ys; for (size_t i = 0; i + 1 < xs.size(); i += 2) ys.push_back(z3::zext(xs[i], 1) + z3::zext(xs[i + 1], 1)); if (xs.size() & 1) ys.push_back(z3::zext(xs.back(), 1)); xs.swap(ys); ++cw; }
      if (cw < w) return mkBV(z3::zext(xs[0], w - cw), w); return mkBV(xs[0].extract(w - 1, 0), w); }));
    case Intrinsic::ctlz: case Intrinsic::cttz: return fin(each1([&](const Val& v) -> Val {
      unsigned w = v.w; if (v.k == UNDEF) return mkI(w, w); if (v.k == INT) { unsigned i; if (iid == Intrinsic::cttz) { for (i = 0; i < w; ++i) if ((g128(v) >> i) & 1) break; } else { for (i = 0; i < w; ++i) if ((g128(v) >> (w - 1 - i)) & 1) break; } return mkI(i, w); }
      z3::expr e = E(v), r = bvnum(w, w); for (unsigned i = 0; i < w; ++i) { unsigned bit = iid == Intrinsic::cttz ? w - 1 - i : i; unsigned val = iid == Intrinsic::cttz ? bit : w - 1 - bit; r = z3::ite(e.extract(bit, bit) == C.bv_val(1, 1), bvnum(val, w), r); } return mkBV(r, w); }));
    case Intrinsic::bswap: { if (a[0].k == INT) { uint64_t x = a[0].lo; unsigned n = a[0].w / 8; uint64_t r = 0; for (unsigned i = 0; i < n; ++i) r = (r << 8) | ((x >> (8 * i)) & 255); return fin(mkI(r, a[0].w)); } z3::expr_vector p(C); unsigned n = a[0].w / 8; for (unsigned i = 0; i < n; ++i) p.push_back(E(a[0]).extract(8 * i + 7, 8 * i)); return fin(mkBV(z3::concat(p), a[0].w)); }
    case Intrinsic::bitreverse: { Val v = asI(a[0]); z3::expr e = E(v); z3::expr_vector p(C); for (unsigned i = 0; i < v.w; ++i) p.push_back(e.extract(i, i)); return fin(mkBV(z3::concat(p), v.w)); }
    case Intrinsic::umin: return fin(each2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_ULT, x, y), x, y); }));
    case Intrinsic::umax: return fin(each2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_UGT, x, y), x, y); }));
    case Intrinsic::smin: return fin(each2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_SLT, x, y), x, y); }));
    case Intrinsic::smax: return fin(each2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_SGT, x, y), x, y); }));
    case Intrinsic::abs: return fin(each1([&](const Val& x) { return select(icmp(CmpInst::ICMP_SLT, x, mkI(0, x.w)), binop(Instruction::Sub, mkI(0, x.w), x), x); }));
    case Intrinsic::uadd_sat: return fin(each2([&](const Val& x, const Val& y) { Val s = binop(Instruction::Add, x, y); return select(icmp(CmpInst::ICMP_ULT, s, x), mkI128(~(u128)0, x.w), s); }));
    case Intrinsic::usub_sat: return fin(each2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_ULT, x, y), mkI(0, x.w), binop(Instruction::Sub, x, y)); }));
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = a[0].w; Val s = binop(Instruction::URem, a[2], mkI(w, w)); Val cs = concretize(s); unsigned k = cs.lo; if (iid == Intrinsic::fshr) { if (!k) return fin(a[1]); return fin(binop(Instruction::Or, binop(Instruction::Shl, a[0], mkI(w - k, w)), binop(Instruction::LShr, a[1], mkI(k, w)))); } if (!k) return fin(a[0]); return fin(binop(Instruction::Or, binop(Instruction::Shl, a[0], mkI(k, w)), binop(Instruction::LShr, a[1], mkI(w - k, w)))); }
    case Intrinsic::uadd_with_overflow: { Val s = binop(Instruction::Add, a[0], a[1]); return fin(mkAgg({s, icmp(CmpInst::ICMP_ULT, s, a[0])})); }
    case Intrinsic::usub_with_overflow: return fin(mkAgg({binop(Instruction::Sub, a[0], a[1]), icmp(CmpInst::ICMP_ULT, a[0], a[1])}));
    case Intrinsic::umul_with_overflow: { unsigned w = a[0].w; TI t1{TINT, (uint16_t)w, 0}, t2{TINT, (uint16_t)(2 * w), 0}; Val x = castop(Instruction::ZExt, asI(a[0]), t1, t2), y = castop(Instruction::ZExt, asI(a[1]), t1, t2); Val p = binop(Instruction::Mul, x, y); Val lo = castop(Instruction::Trunc, p, t2, t1); return fin(mkAgg({lo, icmp(CmpInst::ICMP_NE, p, castop(Instruction::ZExt, lo, t1, t2))})); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned w = a[0].w; TI t1{TINT, (uint16_t)w, 0}, t2{TINT, (uint16_t)(2 * w), 0}; Val x = castop(Instruction::SExt, asI(a[0]), t1, t2), y = castop(Instruction::SExt, asI(a[1]), t1, t2); Val p = binop(iid == Intrinsic::sadd_with_overflow ? Instruction::Add : iid == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul, x, y); Val lo = castop(Instruction::Trunc, p, t2, t1); return fin(mkAgg({lo, icmp(CmpInst::ICMP_NE, p, castop(Instruction::SExt, lo, t1, t2))})); }
    case Intrinsic::fabs: { bool cmpOnly = d.I && !d.I->use_empty(); if (cmpOnly) for (auto* u : d.I->users()) if (!isa<FCmpInst>(u)) cmpOnly = false;  // a magnitude that is only compared needs no case split on its sign
      return fin(each1([&](const Val& v) -> Val { if (!cmpOnly || v.k == FP || v.k == UNDEF || toP(v).isConst()) return fabsV(v); return uninterp("abs", toP(v), v.w); })); } case Intrinsic::sqrt: return fin(each1(sqrtV));
    case Intrinsic::fmuladd: case Intrinsic::fma: return fin(binopF(Instruction::FAdd, binopF(Instruction::FMul, a[0], a[1]), a[2]));
    case Intrinsic::maxnum: case Intrinsic::maximum: return fin(each2([&](const Val& x, const Val& y) { return decideV(fcmp(CmpInst::FCMP_OLT, x, y)) ? y : x; }));
    case Intrinsic::minnum: case Intrinsic::minimum: return fin(each2([&](const Val& x, const Val& y) { return decideV(fcmp(CmpInst::FCMP_OLT, y, x)) ? y : x; }));
    case Intrinsic::copysign: if (a[0].k == FP && a[1].k == FP) return fin(mkF(std::copysign(gF(a[0]), gF(a[1])), a[0].w)); { Val m = fabsV(a[0]); return fin(decideV(fcmp(CmpInst::FCMP_OLT, a[1], mkF(0))) ? mkP(pscale(toP(m), Rat(-1)), m.w) : m); }
    case Intrinsic::floor: return fin(math1("floor", a[0])); case Intrinsic::ceil: return fin(math1("ceil", a[0])); case Intrinsic::round: return fin(math1("round", a[0]));
    case Intrinsic::exp: return fin(math1("exp", a[0])); case Intrinsic::log: return fin(math1("log", a[0])); case Intrinsic::sin: return fin(math1("sin", a[0])); case Intrinsic::cos: return fin(math1("cos", a[0]));
    case Intrinsic::pow: case Intrinsic::powi: { Val e = a[1]; if (iid == Intrinsic::powi) e = mkF((double)s64(concretize(a[1]))); if (a[0].k == FP && e.k == FP) return fin(mkF(std::pow(gF(a[0]), gF(e)))); if (e.k == FP && gF(e) == (int)gF(e) && gF(e) >= 0 && gF(e) < 9) { Poly p = Poly::cst(Rat(1)); for (int i = 0; i < (int)gF(e); ++i) p = pmul(p, toP(a[0])); return fin(mkP(p)); } unsup("pow"); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return fin(a[0]);
    case Intrinsic::is_constant: return fin(mkI(0, 1));
    case Intrinsic::objectsize: return fin(mkI(~0ull, 64));
    case Intrinsic::trap: case Intrinsic::ubsantrap: hardViolation("trap reached");
    case Intrinsic::eh_typeid_for: { std::string n; for (auto& g : GADDR) if (g.second == a[0].lo) n = g.first->getName().str(); return fin(mkI(tidOf(n), 32)); }
    case Intrinsic::stacksave: return fin(mkI(0, 64)); case Intrinsic::stackrestore: return fin(Val());
    case Intrinsic::vector_reduce_add: { Val s = agg(a[0])[0]; for (size_t i = 1; i < agg(a[0]).size(); ++i) s = binop(Instruction::Add, s, agg(a[0])[i]); return fin(s); }
    case Intrinsic::vector_reduce_or: { Val s = agg(a[0])[0]; for (size_t i = 1; i < agg(a[0]).size(); ++i) s = binop(Instruction::Or, s, agg(a[0])[i]); return fin(s); }
    case Intrinsic::vector_reduce_and: { Val s = agg(a[0])[0]; for (size_t i = 1; i < agg(a[0]).size(); ++i) s = binop(Instruction::And, s, agg(a[0])[i]); return fin(s); }
    case Intrinsic::is_fpclass: { if (a[0].k == FP) { double x = gF(a[0]); unsigned t = a[1].lo; bool r = false; if (std::isnan(x)) r = t & 3; else if (std::isinf(x)) r = x < 0 ? t & 4 : t & 0x200; else if (x == 0) r = t & 0x60; else r = x < 0 ? t & 0x18 : t & 0x180; return fin(mkI(r, 1)); } unsigned t = a[1].lo; if (!(t & 0x1f8)) return fin(mkI(0, 1)); unsup("is_fpclass"); }
  }
  (void)f; unsup("intrinsic " + F->getName().str());
}

// memory access through a possibly symbolic address: fork over the feasible addresses
static uint64_t concAddr(const Val& v0) { Val v = concretize(asI(v0)); return v.lo; }
static Val loadSym(const Val& addr, DI& d) {   // symbolic address load: ite chain over feasible addresses for integers
  std::vector<uint64_t> as; z3::expr e = E(addr); z3::expr ex = C.bool_val(true);
  if (d.t.k == TINT || d.t.k == TPTR) {
    for (;;) {
      std::unique_ptr<z3::model> m; uint64_t x; u128 y; if (as.empty()) { if (!numeral(MODEL->eval(e, true).simplify(), y)) break; x = y; }
      else { Res r = query(ex, m); if (r == UNSAT) break; if (r == UNKNOWN) { as.clear(); break; } if (!numeral(m->eval(e, true).simplify(), y)) { as.clear(); break; } x = y; }
      as.push_back(x); ex = ex && e != bvnum(x, 64); if (as.size() > 64) { as.clear(); break; }
    }
    if (!as.empty()) {
      std::vector<Val> vs; bool ok = true;
      for (auto x : as) { try { Val v = loadScalar(x, d.t); if (v.k != INT && v.k != BV) ok = false; vs.push_back(v); } catch (MemErr&) { ok = false; } catch (Unsup&) { ok = false; } if (!ok) break; }
      if (ok) { z3::expr r = E(vs[0]); for (size_t i = 1; i < as.size(); ++i) r = z3::ite(e == bvnum(as[i], 64), E(vs[i]), r); return mkBV(r, d.t.w); }
    }
  }
  return loadTyped(concAddr(addr), d.ty);
}

// ---------------------------------------------------------------- interpreter loop
static void step() {
  Frame* f = &TH[CUR].fr.back(); DI& d = f->f->bb[f->bb].in[f->ip];
  if ((++STEPS & 0xfff) == 0) { if ((STEPS & 0xffff) == 0) checkTime(); if (SH->stop) throw PathEnd{"stopped"}; if (STEPS > OPT.maxsteps) hardViolation("no termination within the step bound"); }
  if (OPT.trace) { std::string t; raw_string_ostream os(t); d.I->print(os); fprintf(stderr, "[%d] %s\n", CUR, t.substr(0, 140).c_str()); }
  auto R = [&](int i) -> Val& { return reg(*f, d.ops[i]); };
  auto jump = [&](int b) {
    int from = f->bb; auto& B = f->f->bb[b];
    if (B.nphi) { static thread_local std::vector<Val> tmp; tmp.clear(); for (int i = 0; i < B.nphi; ++i) { DI& p = B.in[i]; bool ok = false; for (auto& x : p.phi) if (x.first == from) { tmp.push_back(reg(*f, x.second)); ok = true; break; } if (!ok) unsup("phi"); } for (int i = 0; i < B.nphi; ++i) f->r[B.in[i].dst] = tmp[i]; }
    f->prev = from; f->bb = b; f->ip = B.nphi;
  };
  switch (d.op) {
    case Instruction::Br: if (d.ops.empty()) return jump(d.tgt[0]); return jump(decideV(R(0)) ? d.tgt[0] : d.tgt[1]);
    case Instruction::Switch: {
      Val v = asI(R(0)); if (v.k == INT) { for (size_t i = 1; i < d.ops.size(); ++i) if (KP[-d.ops[i] - 1].lo == v.lo && KP[-d.ops[i] - 1].hi == v.hi) return jump(d.tgt[i]); return jump(d.tgt[0]); }
      z3::expr e = E(v); for (size_t i = 1; i < d.ops.size(); ++i) if (decide(e == E(KP[-d.ops[i] - 1]))) return jump(d.tgt[i]); return jump(d.tgt[0]); }
    case Instruction::Ret: {
      Val v; if (!d.ops.empty()) v = R(0); DI* call = f->call; freeFrame(*f); TH[CUR].fr.pop_back();
      if (TH[CUR].fr.empty()) { TH[CUR].done = true; if (CUR == 0) return; switchNext(); return; }
      Frame& p = TH[CUR].fr.back(); if (call) { finishCall(p, *call, v); if (call->op == Instruction::Invoke) { f = &p; int b = p.bb; p.bb = p.prev; jump(b); } } return; }
    case Instruction::Unreachable: hardViolation("unreachable code reached");
    case Instruction::Resume: { TH[CUR].exc = agg(R(0))[0]; freeFrame(*f); TH[CUR].fr.pop_back(); if (TH[CUR].fr.empty()) hardViolation("uncaught exception " + EXC_TI[TH[CUR].exc.lo]); unwind(); Frame& p = TH[CUR].fr.back(); f = &p; int b = p.bb; p.bb = p.prev; jump(b); return; }
    case Instruction::LandingPad: f->r[d.dst] = mkAgg({TH[CUR].exc, mkI(TH[CUR].exsel, 32)}); f->ip++; return;
    case Instruction::Alloca: { uint64_t n = concretize(asI(R(0))).lo; uint64_t a = newObj(n * d.off, "stack", false); f->al.push_back(a >> 32); f->r[d.dst] = mkI(a, 64); f->ip++; return; }
    case Instruction::Load: { Val& p = R(0); if (p.k == BV) { Val pp = p; f->r[d.dst] = loadSym(pp, d); } else f->r[d.dst] = (d.t.k == TAGG || d.t.k == TVEC) ? loadTyped(p.lo, d.ty) : loadScalar(p.lo, d.t); f->ip++; return; }
    case Instruction::Store: { Val v = R(0); uint64_t a = concAddr(R(1)); if (d.t2.k == TAGG || d.t2.k == TVEC) storeTyped(a, v, d.ty); else storeAt(a, v, (d.t2.w + 7) / 8); f->ip++; return; }
    case Instruction::GetElementPtr: {
      if (d.sub == 999) unsup("vector gep");
      Val b = asI(R(0)); bool conc = b.k == INT; for (size_t i = 0; conc && i < d.sc.size(); ++i) conc &= R(1 + i).k == INT || R(1 + i).k == UNDEF;
      if (conc) { uint64_t x = b.lo + d.off; for (size_t i = 0; i < d.sc.size(); ++i) x += s64(R(1 + i)) * d.sc[i]; f->r[d.dst] = mkI(x, 64); }
      else { z3::expr e = E(b) + bvnum((uint64_t)d.off, 64); for (size_t i = 0; i < d.sc.size(); ++i) { Val ix = asI(R(1 + i)); z3::expr x = E(ix); if (ix.w < 64) x = z3::sext(x, 64 - ix.w); e = e + x * bvnum((uint64_t)d.sc[i], 64); } f->r[d.dst] = mkBV(e, 64); }
      f->ip++; return; }
    case Instruction::ICmp: { Val r = icmp(d.sub, R(0), R(1)); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::FCmp: { Val r = fcmp(d.sub, R(0), R(1)); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Select: { Val r = select(R(0), R(1), R(2)); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Freeze: f->r[d.dst] = R(0); if (f->r[d.dst].k == UNDEF) { if (d.t.k == TF64 || d.t.k == TF32) f->r[d.dst] = mkF(0, d.t.w); else if (d.t.k != TAGG && d.t.k != TVEC) f->r[d.dst] = mkI(0, d.t.w); } f->ip++; return;
    case Instruction::FNeg: { Val a = R(0); if (a.k == AGG) { std::vector<Val> r; for (auto& x : agg(a)) r.push_back(x.k == FP ? mkF(-gF(x), x.w) : mkP(pscale(toP(x), Rat(-1)), x.w)); f->r[d.dst] = mkAgg(r); } else if (a.k == FP) f->r[d.dst] = mkF(-gF(a), a.w); else f->r[d.dst] = mkP(pscale(toP(a), Rat(-1)), a.w ? a.w : 64); f->ip++; return; }
    case Instruction::ExtractValue: { Val v = R(0); for (auto i : d.idx) { Val t = agg(v).at(i); v = t; } f->r[d.dst] = v; f->ip++; return; }
    case Instruction::InsertValue: {
      Val base = R(0), v = R(1); if (base.k != AGG) base = undefOf(d.ty);
      std::function<Val(const Val&, size_t)> ins = [&](const Val& b, size_t k) -> Val { if (k == d.idx.size()) return v; std::vector<Val> c = agg(b); c.at(d.idx[k]) = ins(c.at(d.idx[k]), k + 1); return mkAgg(c); };
      f->r[d.dst] = ins(base, 0); f->ip++; return; }
    case Instruction::ExtractElement: { Val i = concretize(asI(R(1))); Val t = agg(R(0)).at(i.lo); f->r[d.dst] = t; f->ip++; return; }
    case Instruction::InsertElement: { Val b = R(0); if (b.k != AGG) b = undefOf(d.ty); std::vector<Val> c = agg(b); c.at(concretize(asI(R(2))).lo) = R(1); f->r[d.dst] = mkAgg(c); f->ip++; return; }
    case Instruction::ShuffleVector: { std::vector<Val> c; Val a = R(0), b = R(1); size_t n = a.k == AGG ? agg(a).size() : 0; for (auto m : d.idx) { int k = (int)m; if (k < 0) c.push_back(undefOf(cast<FixedVectorType>(d.ty)->getElementType())); else if ((size_t)k < n) c.push_back(agg(a)[k]); else c.push_back(b.k == AGG ? agg(b)[k - n] : undefOf(cast<FixedVectorType>(d.ty)->getElementType())); } f->r[d.dst] = mkAgg(c); f->ip++; return; }
    case Instruction::AtomicRMW: {
      uint64_t a = concAddr(R(0)); Val old = loadScalar(a, d.t2), v = R(1), nv;
      switch (d.sub) { case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v); break; case AtomicRMWInst::And: nv = binop(Instruction::And, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; default: unsup("atomicrmw"); }
      storeAt(a, nv, d.t2.w / 8); f->r[d.dst] = old; f->ip++; return; }
    case Instruction::AtomicCmpXchg: { uint64_t a = concAddr(R(0)); Val old = loadScalar(a, d.t2); bool eq = decideV(icmp(CmpInst::ICMP_EQ, old, R(1))); if (eq) storeAt(a, R(2), d.t2.w / 8); f->r[d.dst] = mkAgg({old, mkI(eq, 1)}); f->ip++; return; }
    case Instruction::Fence: f->ip++; return;
    case Instruction::VAArg: unsup("va_arg");
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<Val> args; size_t n = d.ops.size() - 1; args.reserve(n); for (size_t i = 0; i < n; ++i) args.push_back(R(i));
      auto* cb = cast<CallBase>(d.I); if (isa<InlineAsm>(cb->getCalledOperand())) { finishCall(*f, d, d.dst >= 0 ? undefOf(d.ty) : Val()); return; }
      uint64_t fa = concAddr(R(n)); auto it = FADDR.find(fa); if (it == FADDR.end()) throw MemErr{"call through an invalid function pointer"}; Function* F = it->second;
      int bbBefore = f->bb; size_t depth = TH[CUR].fr.size(); int cur = CUR; bool inv = d.op == Instruction::Invoke; DI* dp = &d;
      auto after = [&]() { if (cur == CUR || true) { auto& fr = TH[cur].fr; if (inv && fr.size() == depth) { Frame& p = fr.back(); if (p.bb == dp->tgt[0] && p.ip == 0 && p.prev == bbBefore) { f = &p; int b = p.bb; p.bb = p.prev; jump(b); } } } };
      if (!F->isDeclaration()) { auto nm = F->getName(); int x = nm.starts_with("vx_") ? extId(F) : 0; if (!x) { pushFrame(F, std::move(args), &d); return; } doExternal(x, F, d, args); after(); return; }
      if (unsigned iid = F->getIntrinsicID()) { doIntrinsic(iid, F, d, args); after(); return; }
      int x = extId(F); if (!x) unsup("external function " + F->getName().str());
      doExternal(x, F, d, args);
      if (x == X_CXA_THROW || x == X_THROWSTD || x == X_CXA_RETHROW) { Frame& p = TH[CUR].fr.back(); f = &p; int b = p.bb; p.bb = p.prev; jump(b); return; }
      after(); return; }
    default:
      if (Instruction::isBinaryOp(d.op)) { Val r = binop(d.op, R(0), R(1)); f->r[d.dst] = r; f->ip++; return; }
      if (Instruction::isCast(d.op)) {
        Val r; Val a = R(0);
        if (a.k == AGG && d.op != Instruction::BitCast) { std::vector<Val> o; auto* VT = cast<FixedVectorType>(d.ty); TI te = tiOf(VT->getElementType()), fe = tiOf(cast<FixedVectorType>(d.I->getOperand(0)->getType())->getElementType()); for (auto& x : agg(a)) o.push_back(castop(d.op, x, fe, te)); r = mkAgg(o); }
        else if (d.op == Instruction::BitCast && (a.k == AGG || d.t.k == TVEC)) { uint64_t tmp = newObj(64, "bitcast", false); storeTyped(tmp, a, d.I->getOperand(0)->getType()); r = loadTyped(tmp, d.ty); OBJS[tmp >> 32]->alive = false; }
        else r = castop(d.op, a, d.t2, d.t);
        f->r[d.dst] = r; f->ip++; return; }
  }
  unsup(std::string("instruction ") + d.I->getOpcodeName());
}

static std::string obsJson(z3::model& m) {
  std::string s = "["; bool first = true;
  for (auto& o : OBS) {
    if (!first) s += ","; first = false;
    if (!o.first) { u128 x = 0; if (o.second.k == INT) x = o.second.lo; else if (o.second.k == BV) { z3::expr e = E(o.second); if (o.second.w == 1) e = b2bv(e, 64); numeral(m.eval(e, true).simplify(), x); } s += "\"" + std::to_string((unsigned long long)(uint64_t)x) + "\""; }
    else { double v = 0; if (o.second.k == FP) v = gF(o.second); else if (o.second.k == RP) { try { mpq_class q(ratOf(m.eval(polyE(gP(o.second)), true).simplify())); v = q.get_d(); } catch (...) {} } char b[64]; snprintf(b, 64, "\"%.17g\"", v); s += b; }
  }
  return s + "]";
}
static void runEntry(Function* F) {
  TH.clear(); TH.emplace_back(); CUR = 0; pushFrame(F, {}, nullptr);
  while (!TH[0].done) { step(); }
}
static void runPath(Function* F) {
  try {
    runEntry(F);
    // end of path
    long n = SH->paths++;
    uint64_t h = 1469598103934665603ull ^ ((uint64_t)OPT.seed * 7919) ^ (uint64_t)n * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
    if (n < OPT.witnesses / 2 || ((h % 97) == 0 && SH->witnesses < OPT.witnesses)) {
      if (GENERIC && !DEFS.empty()) return;   // the path may need values that are expensive to construct: no native witness
      SH->witnesses++; std::unique_ptr<z3::model> m(new z3::model(*MODEL));
      niceModel(C.bool_val(true), m, nullptr);
      bool uninit = false; emit("{\"t\":\"path\",\"uninit\":" + std::to_string(UNINITN) + ",\"model\":" + modelJson(*m) + ",\"obs\":" + obsJson(*m) + "}"); (void)uninit;
    }
  } catch (PathEnd& e) { SH->pruned++; if (OPT.trace) fprintf(stderr, "path end: %s\n", e.why.c_str()); }
  catch (MemErr& e) {
    try { hardViolation("memory/UB: " + e.why); } catch (PathEnd&) { SH->pruned++; }
  } catch (Unsup& e) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"" + jesc(e.why) + "\",\"stack\":\"" + jesc(STACK()) + "\"}"); }
  catch (z3::exception& e) { SH->unsup++; emit(std::string("{\"t\":\"unsup\",\"why\":\"z3: ") + jesc(e.msg()) + "\",\"stack\":\"" + jesc(STACK()) + "\"}"); }
  catch (std::exception& e) { SH->unsup++; emit(std::string("{\"t\":\"unsup\",\"why\":\"") + jesc(e.what()) + "\"}"); }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") OPT.entry = nx(); else if (a == "--out") OPT.out = nx(); else if (a == "--timeout") OPT.timeout = atof(nx().c_str()); else if (a == "--qtimeout") OPT.qtimeout = atof(nx().c_str()); else if (a == "--jobs") OPT.jobs = atoi(nx().c_str());
    else if (a == "--maxsteps") OPT.maxsteps = atol(nx().c_str()); else if (a == "--maxviol") OPT.maxviol = atoi(nx().c_str()); else if (a == "--seed") OPT.seed = atoi(nx().c_str()); else if (a == "--rlimit") OPT.rlimit = atol(nx().c_str()); else if (a == "--witnesses") OPT.witnesses = atoi(nx().c_str()); else if (a == "--trace") OPT.trace = true; else OPT.bc = a;
  }
  T0 = now();
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->tokens = OPT.jobs - 1; SH->procs = 1;
  RESFD = open(OPT.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (RESFD < 0) { perror("out"); return 3; }
  ZC = new z3::context(); z3::solver sv(C, z3::solver::simple()); SOLV = &sv;
  LLVMContext lc; SMDiagnostic err; auto mod = parseIRFile(OPT.bc, err, lc); if (!mod) { err.print("vxe", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  MODEL = nullptr; if (SOLV->check() == z3::sat) MODEL = new z3::model(SOLV->get_model());
  Function* F = M->getFunction(OPT.entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", OPT.entry.c_str()); return 3; }
  // function addresses first, so that indirect calls resolve
  { unsigned k = 0; for (auto& f : *M) { gaddr(&f); FNIDX[&f] = k++; } }
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    try {
      if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function*>> cs; for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.emplace_back(cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& c : cs) runEntry(c.second);
      }
      runPath(F);
    } catch (Unsup& e) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"ctor: " + jesc(e.why) + "\",\"stack\":\"" + jesc(STACK()) + "\"}"); }
    catch (MemErr& e) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"ctor: " + jesc(e.why) + "\"}"); }
    catch (PathEnd&) {}
    endProcess();
  }
  int st = 0; setpgid(p, p); bool killed = false;
  for (useconds_t us = 200;; us = std::min<useconds_t>(us * 2, 10000)) { if (waitpid(p, &st, WNOHANG) == p) break; if (now() - T0 > OPT.timeout + 15) { kill(-p, SIGKILL); waitpid(p, &st, 0); killed = true; SH->timeouts++; break; } usleep(us); }
  if (!killed) if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->unsup++; emit("{\"t\":\"unsup\",\"why\":\"root process died\"}"); }
  std::string cov; for (int i = 0; i < SH->ncov; ++i) cov += std::string(i ? "," : "") + "\"" + jesc(SH->cov[i].name) + "\":" + std::to_string(SH->cov[i].n.load());
  std::string al; for (int i = 0; i < SH->nal; ++i) al += std::string(i ? "," : "") + "\"" + jesc(SH->al[i].name) + "\":" + std::to_string(SH->al[i].n.load());
  { std::string fl = "{\"t\":\"fns\",\"names\":["; bool first = true; unsigned k = 0; for (auto& f : *M) { if (k < 65536 && SH->fn[k] && f.getName().size() < 400) { if (!first) fl += ","; first = false; fl += "\"" + jesc(f.getName().str()) + "\""; } ++k; } emit(fl + "]}"); }
  char buf[1024]; snprintf(buf, sizeof buf, "{\"t\":\"sum\",\"paths\":%ld,\"pruned\":%ld,\"insts\":%ld,\"queries\":%ld,\"forks\":%ld,\"branches\":%ld,\"asserts\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"viol\":%ld,\"unsup\":%ld,\"timeouts\":%ld,\"divzero\":%ld,\"conc\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f", SH->paths.load(), SH->pruned.load(), SH->insts.load(), SH->queries.load(), SH->forks.load(), SH->branches.load(), SH->asserts.load(), SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->viol.load(), SH->unsup.load(), SH->timeouts.load(), SH->divzero.load(), SH->conc.load(), SH->ns.load() * 1e-9, now() - T0);
  std::string sum = std::string(buf) + ",\"cover\":{" + cov + "},\"labels\":{" + al + "}}"; emit(sum); puts(sum.c_str()); return 0;
}
