#include <mpi.h>
#include <cstring>
#include <deque>
#include <vector>
#include "vx.h"
int vx_mpi_late = -1;   // send buffering: -1 both ways (case split), 0 eager copy, 1 read when received
namespace {
int NP = 1; bool RUNNING = false;
int rank_of[64]; void (*FN)(int); int NDONE = 0; long PROGRESS = 0;
int me() { return RUNNING ? rank_of[vx_self()] : 0; }
struct Ty { int size; bool live; };
std::vector<Ty>* TYS; 
int tsize(MPI_Datatype t) {
  switch (t) { case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4; case MPI_INT64_T: case MPI_UINT64_T: case MPI_DOUBLE: case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return 8; }
  if (t >= 100 && TYS && t - 100 < (int)TYS->size()) { if (!(*TYS)[t - 100].live) vx_fail("MPI: freed datatype used"); return (*TYS)[t - 100].size; }
  vx_fail("MPI: invalid datatype"); return 1;
}
void chkcomm(MPI_Comm c) { if (c != MPI_COMM_WORLD && c != MPI_COMM_SELF && c < 10) vx_fail("MPI: invalid communicator"); }
enum Kind { K_NONE, K_BARRIER, K_BCAST, K_ALLRED, K_RED, K_AGATHER, K_AGATHERV, K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_A2A, K_A2AV, K_EXSCAN, K_SCAN };
struct Args { const void* s; int sc; MPI_Datatype st; void* r; int rc; MPI_Datatype rt; const int *cnts, *dis, *rcnts, *rdis; int root; MPI_Op op; };
struct Slot { Kind k = K_NONE; int arrived = 0, left = 0; Args a[8]; bool done = false; };
struct CommS { std::deque<Slot> q; long base = 0; long seq[8] = {0, 0, 0, 0, 0, 0, 0, 0}; };
CommS* COLL[16];
int vx_stall[64];
void block(const char* what) {   // nothing to do for this rank until another one acts
  if (!RUNNING || NP == 1) { vx_fail(what); return; }
  long p = PROGRESS; vx_yield();
  static long lastp = -1; static int idle = 0;
  if (PROGRESS == lastp) { if (++idle > 4 * NP) vx_fail(what); } else { lastp = PROGRESS; idle = 0; }
  (void)p;
}
template <class T> T red(T a, T b, MPI_Op op) {
  switch (op) { case MPI_SUM: return a + b; case MPI_MAX: return a < b ? b : a; case MPI_MIN: return b < a ? b : a; case MPI_PROD: return a * b; case MPI_LAND: return (T)((a != 0) && (b != 0)); case MPI_LOR: return (T)((a != 0) || (b != 0)); }
  vx_fail("MPI: invalid reduction operation"); return a; }
template <class T> void redT(const void* a, void* b, int n, MPI_Op op) { auto x = (const T*)a; auto y = (T*)b; for (int i = 0; i < n; ++i) y[i] = red<T>(y[i], x[i], op); }
void reduceInto(const void* a, void* b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) { case MPI_INT: case MPI_INT32_T: return redT<int>(a, b, n, op); case MPI_UNSIGNED: case MPI_UINT32_T: return redT<unsigned>(a, b, n, op); case MPI_INT64_T: case MPI_LONG: case MPI_LONG_LONG: return redT<int64_t>(a, b, n, op); case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: return redT<uint64_t>(a, b, n, op); case MPI_DOUBLE: return redT<double>(a, b, n, op); case MPI_FLOAT: return redT<float>(a, b, n, op); case MPI_CHAR: return redT<signed char>(a, b, n, op); case MPI_C_BOOL: case MPI_CXX_BOOL: return redT<bool>(a, b, n, op); }
  vx_fail("MPI: reduction on this datatype is not defined"); }
void cp(void* d, const void* s, long n) { if (n && d != s) memmove(d, s, n); }
void execute(Slot& S) {
  auto* a = S.a; int root = a[0].root;
  for (int r = 1; r < NP; ++r) { if (a[r].root != root) vx_fail("MPI: collective called with different roots"); if (a[r].op != a[0].op) vx_fail("MPI: collective called with different operations"); }
  auto bytes = [](int c, MPI_Datatype t) { return (long)c * tsize(t); };
  switch (S.k) {
    case K_BARRIER: break;
    case K_BCAST: for (int r = 0; r < NP; ++r) { if (bytes(a[r].rc, a[r].rt) != bytes(a[root].rc, a[root].rt)) vx_fail("MPI: broadcast sizes differ between ranks"); if (r != root) cp(a[r].r, a[root].r, bytes(a[r].rc, a[r].rt)); } break;
    case K_ALLRED: case K_RED: case K_SCAN: case K_EXSCAN: {
      int n = a[0].rc; long b = bytes(n, a[0].rt);
      for (int r = 0; r < NP; ++r) if (a[r].rc != n || a[r].rt != a[0].rt) vx_fail("MPI: reduction sizes differ between ranks");
      if (!n) break;
      auto src = [&](int r) -> const void* { return a[r].s == MPI_IN_PLACE ? a[r].r : a[r].s; };
      if (S.k == K_ALLRED || S.k == K_RED) {
        double* acc = new double[b / 8 + 1]; cp(acc, src(0), b); for (int r = 1; r < NP; ++r) reduceInto(src(r), acc, n, a[0].rt, a[0].op);
        for (int r = 0; r < NP; ++r) if (S.k == K_ALLRED || r == root) cp(a[r].r, acc, b); delete[] acc; break; }
      double *acc = new double[b / 8 + 1], *tmp = new double[b / 8 + 1];
      for (int r = 0; r < NP; ++r) { cp(tmp, src(r), b); if (S.k == K_EXSCAN) { if (r) cp(a[r].r, acc, b); } if (r == 0) cp(acc, tmp, b); else reduceInto(tmp, acc, n, a[0].rt, a[0].op); if (S.k == K_SCAN) cp(a[r].r, acc, b); }
      delete[] acc; delete[] tmp; break; }
    case K_AGATHER: case K_GATHER:
      for (int d = 0; d < NP; ++d) { if (S.k == K_GATHER && d != root) continue; long rb = bytes(a[d].rc, a[d].rt);
        for (int r = 0; r < NP; ++r) { if (a[r].s == MPI_IN_PLACE) { if (r != d) cp((char*)a[d].r + r * rb, (char*)a[r].r + r * rb, rb); continue; } long sb = bytes(a[r].sc, a[r].st); if (sb != rb) vx_fail("MPI: gather sizes differ"); cp((char*)a[d].r + r * rb, a[r].s, sb); } } break;
    case K_AGATHERV: case K_GATHERV:
      for (int d = 0; d < NP; ++d) { if (S.k == K_GATHERV && d != root) continue; int ts = tsize(a[d].rt);
        for (int r = 0; r < NP; ++r) { long rb = (long)a[d].cnts[r] * ts; char* dst = (char*)a[d].r + (long)a[d].dis[r] * ts; if (a[r].s == MPI_IN_PLACE) { if (r != d) { int t2 = tsize(a[r].rt); cp(dst, (char*)a[r].r + (long)a[r].dis[r] * t2, rb); } continue; } long sb = bytes(a[r].sc, a[r].st); if (sb != rb) vx_fail("MPI: gatherv sizes differ"); cp(dst, a[r].s, sb); } } break;
    case K_SCATTER: for (int r = 0; r < NP; ++r) { long sb = bytes(a[root].sc, a[root].st); if (a[r].r == MPI_IN_PLACE) continue; if (bytes(a[r].rc, a[r].rt) != sb) vx_fail("MPI: scatter sizes differ"); cp(a[r].r, (const char*)a[root].s + r * sb, sb); } break;
    case K_SCATTERV: for (int r = 0; r < NP; ++r) { int ts = tsize(a[root].st); long sb = (long)a[root].cnts[r] * ts; if (a[r].r == MPI_IN_PLACE) continue; if (bytes(a[r].rc, a[r].rt) != sb) vx_fail("MPI: scatterv sizes differ"); cp(a[r].r, (const char*)a[root].s + (long)a[root].dis[r] * ts, sb); } break;
    case K_A2A: for (int d = 0; d < NP; ++d) for (int r = 0; r < NP; ++r) { long sb = bytes(a[r].sc, a[r].st), rb = bytes(a[d].rc, a[d].rt); if (sb != rb) vx_fail("MPI: alltoall sizes differ"); cp((char*)a[d].r + r * rb, (const char*)a[r].s + d * sb, sb); } break;
    case K_A2AV: for (int d = 0; d < NP; ++d) for (int r = 0; r < NP; ++r) { int ss = tsize(a[r].st), rs = tsize(a[d].rt); long sb = (long)a[r].cnts[d] * ss, rb = (long)a[d].rcnts[r] * rs; if (sb != rb) vx_fail("MPI: alltoallv sizes differ"); cp((char*)a[d].r + (long)a[d].rdis[r] * rs, (const char*)a[r].s + (long)a[r].dis[d] * ss, sb); } break;
    case K_NONE: break;
  }
}
int coll(MPI_Comm c, Kind k, const Args& a) {
  chkcomm(c); int r = c == MPI_COMM_SELF ? 0 : me();
  if (NP == 1 || c == MPI_COMM_SELF) { int sv = NP; NP = 1; Slot S; S.k = k; S.a[0] = a; S.a[0].root = 0; execute(S); NP = sv; return 0; }
  if (a.root < 0 || a.root >= NP) vx_fail("MPI: invalid root");
  if (!COLL[c & 15]) COLL[c & 15] = new CommS; CommS& C = *COLL[c & 15]; long s = C.seq[r]++;
  while ((long)C.q.size() <= s - C.base) C.q.emplace_back();
  { Slot& S = C.q[s - C.base]; if (S.arrived == 0) S.k = k; else if (S.k != k) vx_fail("MPI: ranks call different collectives"); S.a[r] = a; ++S.arrived; ++PROGRESS; if (S.arrived == NP) { execute(S); S.done = true; } }
  while (!C.q[s - C.base].done) block("MPI: deadlock (collective not entered by every rank)");
  { Slot& S = C.q[s - C.base]; ++S.left; ++PROGRESS; }
  while (!C.q.empty() && C.q.front().left == NP) { C.q.pop_front(); ++C.base; }
  return 0;
}
// point to point: eager copy or copy at completion, chosen nondeterministically for non-blocking sends
struct Msg { int src, dst, tag; std::vector<char>* data; const void* late; long n; bool taken = false; };
struct Req { int kind = 0; int who; void* buf; long n; int src, tag; bool done = false; Msg* m = nullptr; int got = 0, gsrc = 0, gtag = 0; };
std::deque<Msg*>* MB; std::vector<Req*>* RQ;
void init() { if (!MB) { MB = new std::deque<Msg*>; RQ = new std::vector<Req*>; RQ->push_back(nullptr); } }
bool tryRecv(Req* q) {
  for (auto it = MB->begin(); it != MB->end(); ++it) { Msg* m = *it; if (m->dst == q->who && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag)) {
      // messages from one source are matched in posting order of the receives
      for (size_t i = 1; i < RQ->size(); ++i) { Req* o = (*RQ)[i]; if (o == q) break; if (o && o->kind == 2 && !o->done && o->who == q->who && (o->src == m->src || o->src == MPI_ANY_SOURCE) && (o->tag == m->tag || o->tag == MPI_ANY_TAG)) return false; }
      if (m->n > q->n) vx_fail("MPI: message truncated"); if (m->late) cp(q->buf, m->late, m->n); else cp(q->buf, m->data->data(), m->n);
      q->got = m->n; q->gsrc = m->src; q->gtag = m->tag; q->done = true; m->taken = true; MB->erase(it); ++PROGRESS; return true; } }
  return false;
}
bool tryAll() { bool p = false; for (size_t i = 1; i < RQ->size(); ++i) { Req* q = (*RQ)[i]; if (q && q->kind == 2 && !q->done) p |= tryRecv(q); } return p; }
int addReq(Req* q) { RQ->push_back(q); return RQ->size() - 1; }
void waitOn(int id, MPI_Status* st) {
  if (id <= 0 || id >= (int)RQ->size() || !(*RQ)[id]) { vx_fail("MPI: wait on an invalid request"); return; }
  Req* q = (*RQ)[id]; if (q->who != me()) vx_fail("MPI: wait on another rank's request");
  if (q->kind == 1) { if (q->m->late) { while (!q->m->taken) { tryAll(); if (!q->m->taken) block("MPI: deadlock (send never received)"); } } }
  else while (!q->done) { tryAll(); if (!q->done) block("MPI: deadlock (receive never matched)"); }
  if (st) { st->MPI_SOURCE = q->gsrc; st->MPI_TAG = q->gtag; st->count = q->got; }
  (*RQ)[id] = nullptr;
}
void thr(void* p) { int r = (int)(intptr_t)p; FN(r); ++NDONE; ++PROGRESS; }
}
void vx_mpi_size(int n) { NP = n; }
void vx_mpi_run(int n, void (*fn)(int)) {
  init(); NP = n; RUNNING = true; FN = fn; NDONE = 0; rank_of[vx_self()] = 0;
  for (int r = 1; r < n; ++r) { int t = vx_spawn(thr, (void*)(intptr_t)r); rank_of[t] = r; }
  fn(0); ++NDONE; ++PROGRESS;
  while (NDONE < n) block("MPI: deadlock (a rank never finishes)");
  if (!MB->empty()) vx_fail("MPI: a message was never received");
  for (size_t i = 1; i < RQ->size(); ++i) if ((*RQ)[i]) vx_fail("MPI: a request was never completed");
  RUNNING = false; NP = 1;
}
extern "C" {
int MPI_Init(int*, char***) { return 0; } int MPI_Finalize(void) { return 0; } int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { chkcomm(c); *r = c == MPI_COMM_SELF ? 0 : me(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { chkcomm(c); *s = c == MPI_COMM_SELF ? 1 : NP; return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* o) { *o = 10; return 0; } int MPI_Comm_free(MPI_Comm* c) { *c = 0; return 0; }
int MPI_Barrier(MPI_Comm c) { return coll(c, K_BARRIER, Args{}); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { Args a{}; a.r = b; a.rc = n; a.rt = t; a.root = root; return coll(c, K_BCAST, a); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Args a{}; a.s = s; a.r = r; a.rc = n; a.rt = t; a.op = op; if (s == r && n) vx_fail("MPI: aliased buffers in a reduction"); return coll(c, K_ALLRED, a); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Args a{}; a.s = s; a.r = r; a.rc = n; a.rt = t; a.op = op; a.root = root; return coll(c, K_RED, a); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Args a{}; a.s = s; a.r = r; a.rc = n; a.rt = t; a.op = op; return coll(c, K_SCAN, a); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Args a{}; a.s = s; a.r = r; a.rc = n; a.rt = t; a.op = op; return coll(c, K_EXSCAN, a); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.rc = rn; a.rt = rt; return coll(c, K_AGATHER, a); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.rc = rn; a.rt = rt; a.root = root; return coll(c, K_GATHER, a); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cn, const int* di, MPI_Datatype rt, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.cnts = cn; a.dis = di; a.rt = rt; return coll(c, K_AGATHERV, a); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cn, const int* di, MPI_Datatype rt, int root, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.cnts = cn; a.dis = di; a.rt = rt; a.root = root; return coll(c, K_GATHERV, a); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.rc = rn; a.rt = rt; a.root = root; return coll(c, K_SCATTER, a); }
int MPI_Scatterv(const void* s, const int* cn, const int* di, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { Args a{}; a.s = s; a.cnts = cn; a.dis = di; a.st = st; a.r = r; a.rc = rn; a.rt = rt; a.root = root; return coll(c, K_SCATTERV, a); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { Args a{}; a.s = s; a.sc = sn; a.st = st; a.r = r; a.rc = rn; a.rt = rt; return coll(c, K_A2A, a); }
int MPI_Alltoallv(const void* s, const int* cn, const int* di, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { Args a{}; a.s = s; a.cnts = cn; a.dis = di; a.st = st; a.r = r; a.rcnts = rc; a.rdis = rd; a.rt = rt; return coll(c, K_A2AV, a); }
static void chkp2p(int r, int n) { if (r < 0 || r >= NP) vx_fail("MPI: invalid rank in point-to-point"); if (n < 0) vx_fail("MPI: negative count"); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* rq) {
  chkcomm(c); chkp2p(dst, n); init(); Msg* m = new Msg; m->src = me(); m->dst = dst; m->tag = tag; m->n = (long)n * tsize(t); m->data = nullptr; m->late = nullptr;
  bool late = vx_mpi_late < 0 ? vx_concretize(vx_int_("mpi_send_buffered_late", 1)) : vx_mpi_late; if (late) m->late = b; else { m->data = new std::vector<char>(m->n); cp(m->data->data(), b, m->n); }
  MB->push_back(m); Req* q = new Req; q->kind = 1; q->who = me(); q->m = m; *rq = addReq(q); ++PROGRESS; return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* rq) { chkcomm(c); if (src != MPI_ANY_SOURCE) chkp2p(src, n); init(); Req* q = new Req; q->kind = 2; q->who = me(); q->buf = b; q->n = (long)n * tsize(t); q->src = src; q->tag = tag; *rq = addReq(q); ++PROGRESS; return 0; }
int MPI_Wait(MPI_Request* rq, MPI_Status* st) { if (*rq == MPI_REQUEST_NULL) return 0; waitOn(*rq, st); *rq = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) { for (int i = 0; i < n; ++i) MPI_Wait(rq + i, st ? st + i : nullptr); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, dst, tag, c, &r); return MPI_Wait(&r, nullptr); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int dst, int tag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) { MPI_Request r[2]; MPI_Irecv(rb, rn, rt, src, rtag, c, r); MPI_Isend(b, n, t, dst, tag, c, r + 1); MPI_Wait(r, st); return MPI_Wait(r + 1, nullptr); }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) { if (!TYS) TYS = new std::vector<Ty>; TYS->push_back({n * tsize(t), true}); *o = 100 + TYS->size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { if (*t < 100) vx_fail("MPI: predefined datatype freed"); tsize(*t); (*TYS)[*t - 100].live = false; *t = 0; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = tsize(t); return 0; }
int MPI_Abort(MPI_Comm, int) { vx_fail("MPI_Abort called"); return 0; }
double MPI_Wtime(void) { return 0; }
}
