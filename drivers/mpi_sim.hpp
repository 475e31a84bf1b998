// A stand-in for the MPI library: N processes as N threads of one process, buffered sends, matching in posting
// order, collectives that insist that the processes agree on operation, root, element type and amount.
#ifndef VC_MPI_SIM_HPP
#define VC_MPI_SIM_HPP
#include <mpi.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#define SYM(n) ".globl " #n "\n" #n ": .zero 16\n"
asm(".data\n.balign 16\n"
SYM(ompi_mpi_comm_world) SYM(ompi_mpi_comm_self) SYM(ompi_mpi_comm_null) SYM(ompi_mpi_datatype_null) SYM(ompi_request_null)
SYM(ompi_mpi_byte) SYM(ompi_mpi_packed) SYM(ompi_mpi_char) SYM(ompi_mpi_signed_char) SYM(ompi_mpi_unsigned_char) SYM(ompi_mpi_short) SYM(ompi_mpi_unsigned_short) SYM(ompi_mpi_int) SYM(ompi_mpi_unsigned) SYM(ompi_mpi_long) SYM(ompi_mpi_unsigned_long) SYM(ompi_mpi_long_long_int) SYM(ompi_mpi_unsigned_long_long) SYM(ompi_mpi_float) SYM(ompi_mpi_double) SYM(ompi_mpi_long_double)
SYM(ompi_mpi_int8_t) SYM(ompi_mpi_int16_t) SYM(ompi_mpi_int32_t) SYM(ompi_mpi_int64_t) SYM(ompi_mpi_uint8_t) SYM(ompi_mpi_uint16_t) SYM(ompi_mpi_uint32_t) SYM(ompi_mpi_uint64_t) SYM(ompi_mpi_c_bool) SYM(ompi_mpi_cxx_bool)
SYM(ompi_mpi_op_max) SYM(ompi_mpi_op_min) SYM(ompi_mpi_op_sum) SYM(ompi_mpi_op_prod) SYM(ompi_mpi_op_land) SYM(ompi_mpi_op_lor) SYM(ompi_mpi_op_band) SYM(ompi_mpi_op_bor) SYM(ompi_mpi_op_maxloc) SYM(ompi_mpi_op_minloc) SYM(ompi_mpi_op_null)
SYM(ompi_mpi_errors_are_fatal) SYM(ompi_mpi_errors_return) SYM(ompi_mpi_errors_throw_exceptions) SYM(ompi_mpi_errhandler_null)
".text\n");
namespace sim {
typedef std::unique_lock<std::mutex> UL;
struct Msg { int src, dst, tag; std::vector<char> d; };
struct Req { bool recv, done; void *buf; int cap, src, tag; MPI_Status st; };
struct Part { const char *op; const void *s; void *r; int sc, rc; MPI_Datatype st, rt; const int *rcs, *dis; int root; MPI_Op o; };
static int N = 1; static thread_local int me = 0;
static std::mutex mu; static std::condition_variable cv; static std::vector<Msg> box; static std::vector<std::vector<Req *> > posted; static std::vector<Part> parts; static int arrived = 0; static long round_ = 0;
static std::string trouble; static bool dead = false;
struct Stop {};
inline void bad(const std::string &m) { if (trouble.empty()) trouble = m; dead = true; cv.notify_all(); }
inline void wait(UL &l, const char *what) { if (dead) throw Stop(); if (cv.wait_for(l, std::chrono::seconds(60)) == std::cv_status::timeout) bad(std::string("the processes wait for one another for ever in ") + what); if (dead) throw Stop(); }
inline int tsize(MPI_Datatype t) {
    if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT || t == MPI_INT16_T || t == MPI_UINT16_T) return 2;
    if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_INT32_T || t == MPI_UINT32_T || t == MPI_FLOAT) return 4;
    if (t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_DOUBLE) return 8;
    return 1; }
inline void setst(MPI_Status *s, const Msg &m) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = 0; s->_ucount = m.d.size(); } }
inline bool match(const Msg &m, int src, int tag) { return m.dst == me && (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag); }
inline void progress() {
    for (Req *q : posted[me]) if (!q->done) for (size_t i = 0; i < box.size(); i++) if (match(box[i], q->src, q->tag)) {
        if ((int)box[i].d.size() > q->cap) { bad("a message is longer than the memory given to receive it"); return; }
        if (box[i].d.size()) memcpy(q->buf, box[i].d.data(), box[i].d.size());
        setst(&q->st, box[i]); q->done = true; box.erase(box.begin() + i); break; }
}
template <class T> void red1(const std::vector<const void *> &in, void *out, int n, MPI_Op o) {
    std::vector<T> acc(n); for (int i = 0; i < n; i++) { for (size_t k = 0; k < in.size(); k++) { T v; memcpy(&v, (const char *)in[k] + i * sizeof(T), sizeof v); acc[i] = k == 0 ? v : o == MPI_SUM ? (T)(acc[i] + v) : o == MPI_PROD ? (T)(acc[i] * v) : o == MPI_MIN ? std::min(acc[i], v) : std::max(acc[i], v); } }
    if (n) memcpy(out, acc.data(), n * sizeof(T)); }
inline void red(MPI_Datatype t, const std::vector<const void *> &in, void *out, int n, MPI_Op o) {
    if (t == MPI_FLOAT) red1<float>(in, out, n, o); else if (t == MPI_DOUBLE) red1<double>(in, out, n, o);
    else if (t == MPI_INT8_T || t == MPI_CHAR || t == MPI_SIGNED_CHAR) red1<int8_t>(in, out, n, o); else if (t == MPI_INT16_T || t == MPI_SHORT) red1<int16_t>(in, out, n, o); else if (t == MPI_INT32_T || t == MPI_INT) red1<int32_t>(in, out, n, o);
    else if (t == MPI_UINT8_T || t == MPI_UNSIGNED_CHAR) red1<uint8_t>(in, out, n, o); else if (t == MPI_UINT16_T || t == MPI_UNSIGNED_SHORT) red1<uint16_t>(in, out, n, o); else if (t == MPI_UINT32_T || t == MPI_UNSIGNED) red1<uint32_t>(in, out, n, o);
    else if (t == MPI_UINT64_T || t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG) red1<uint64_t>(in, out, n, o); else if (t == MPI_INT64_T || t == MPI_LONG || t == MPI_LONG_LONG) red1<int64_t>(in, out, n, o);
    else bad("a reduction of an unsupported element type"); }
inline void cp(void *d, const void *s, size_t n) { if (n) memmove(d, s, n); }
inline void meet(const Part &p) {
    UL l(mu); if (dead) throw Stop();
    parts[me] = p; arrived++;
    if (arrived < N) { long r = round_; while (round_ == r) wait(l, p.op); if (dead) throw Stop(); return; }
    arrived = 0; round_++;
    std::string op = p.op; const Part &q = parts[p.root >= 0 ? p.root : 0];
    for (auto &x : parts) if (op != x.op || x.root != p.root) { bad("the processes call different operations or roots: " + op + ", " + x.op); break; }
    if (!dead && op == "Bcast") for (int i = 0; i < N && !dead; i++) { if ((long)parts[i].sc * tsize(parts[i].st) != (long)q.sc * tsize(q.st)) { char m[200]; snprintf(m, sizeof m, "broadcast: process %d expects %d bytes, the root sends %d", i, parts[i].sc * tsize(parts[i].st), q.sc * tsize(q.st)); bad(m); } else if (i != p.root) cp(parts[i].r, q.r, (size_t)q.sc * tsize(q.st)); }
    if (!dead && (op == "Reduce" || op == "Allreduce")) { std::vector<const void *> in; for (auto &x : parts) { in.push_back(x.s); if (x.sc != p.sc || x.st != p.st || x.o != p.o) bad("reduction: the processes disagree on amount, type or operation"); }
        if (!dead) { std::vector<char> out((size_t)p.sc * tsize(p.st) + 1); red(p.st, in, out.data(), p.sc, p.o); for (int i = 0; i < N; i++) if (op == "Allreduce" || i == p.root) cp(parts[i].r, out.data(), (size_t)p.sc * tsize(p.st)); } }
    if (!dead && (op == "Gather" || op == "Allgather")) for (int i = 0; i < N && !dead; i++) if (op == "Allgather" || i == p.root) for (int k = 0; k < N && !dead; k++) { long a = (long)parts[k].sc * tsize(parts[k].st), b = (long)parts[i].rc * tsize(parts[i].rt); if (a != b) bad("gather: amount sent and amount expected differ"); else cp((char *)parts[i].r + k * b, parts[k].s, a); }
    if (!dead && (op == "Gatherv" || op == "Allgatherv")) for (int i = 0; i < N && !dead; i++) if (op == "Allgatherv" || i == p.root) for (int k = 0; k < N && !dead; k++) { long a = (long)parts[k].sc * tsize(parts[k].st), e = tsize(parts[i].rt); if (a != parts[i].rcs[k] * e) bad("gatherv: amount sent and amount expected differ"); else cp((char *)parts[i].r + parts[i].dis[k] * e, parts[k].s, a); }
    cv.notify_all(); if (dead) throw Stop();
}
// run f(rank) on n processes; empty result: all went well
template <class F> std::string run(int n, F f) {
    N = n; box.clear(); posted.assign(n, std::vector<Req *>()); parts.assign(n, Part()); arrived = 0; trouble.clear(); dead = false;
    std::vector<std::thread> t; for (int i = 0; i < n; i++) t.push_back(std::thread([&, i] { me = i; try { f(i); } catch (Stop &) {} catch (conduit::Error &e) { UL l(mu); bad("error: " + e.message()); } }));
    for (auto &x : t) x.join();
    me = 0; for (auto &v : posted) for (auto q : v) delete q;
    posted.clear(); if (trouble.empty() && !box.empty()) return "a message was sent and never received";
    return trouble;
}
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int *r) { *r = sim::me; return 0; }
int MPI_Comm_size(MPI_Comm, int *r) { *r = sim::N; return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "simulated"); *n = 9; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *) { return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *) { return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler *) { return 0; }
int MPI_Comm_get_attr(MPI_Comm, int, void *v, int *f) { static int ub = 0x7fffffff; *(void **)v = &ub; *f = 1; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Barrier(MPI_Comm) { sim::Part p = sim::Part(); p.op = "Barrier"; p.root = -1; sim::meet(p); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { if (tag < 0) return MPI_ERR_TAG; sim::UL l(sim::mu); if (sim::dead) throw sim::Stop(); sim::Msg m; m.src = sim::me; m.dst = d; m.tag = tag; m.d.assign((const char *)b, (const char *)b + (size_t)n * sim::tsize(t)); sim::box.push_back(m); sim::cv.notify_all(); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { int e = MPI_Send(b, n, t, d, tag, c); if (e) return e; sim::UL l(sim::mu); sim::Req *r = new sim::Req(); r->recv = false; r->done = true; *q = (MPI_Request)r; sim::posted[sim::me].push_back(r); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request *q) { sim::UL l(sim::mu); sim::Req *r = new sim::Req(); r->recv = true; r->done = false; r->buf = b; r->cap = n * sim::tsize(t); r->src = s; r->tag = tag; *q = (MPI_Request)r; sim::posted[sim::me].push_back(r); sim::progress(); return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { sim::UL l(sim::mu); sim::Req *r = *q == MPI_REQUEST_NULL ? 0 : (sim::Req *)*q; for (;;) { sim::progress(); if (sim::dead) throw sim::Stop(); if (!r || r->done) break; sim::wait(l, "Wait"); } if (r && st != MPI_STATUS_IGNORE) *st = r->st; *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request q; MPI_Irecv(b, n, t, s, tag, c, &q); return MPI_Wait(&q, st); }
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status *st) { sim::UL l(sim::mu); for (;;) { sim::progress(); for (auto &m : sim::box) if (sim::match(m, s, tag)) { sim::setst(st, m); return 0; } sim::wait(l, "Probe"); } }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = (int)(st->_ucount / sim::tsize(t)); return 0; }
#define PART(nm) sim::Part p = sim::Part(); p.op = nm; p.root = -1
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm) { PART("Bcast"); p.r = b; p.sc = n; p.st = t; p.root = r; sim::meet(p); return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm) { PART("Reduce"); p.s = s; p.r = r; p.sc = n; p.st = t; p.o = o; p.root = root; sim::meet(p); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm) { PART("Allreduce"); p.s = s; p.r = r; p.sc = n; p.st = t; p.o = o; sim::meet(p); return 0; }
int MPI_Gather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm) { PART("Gather"); p.s = s; p.sc = sc; p.st = st; p.r = r; p.rc = rc; p.rt = rt; p.root = root; sim::meet(p); return 0; }
int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm) { PART("Allgather"); p.s = s; p.sc = sc; p.st = st; p.r = r; p.rc = rc; p.rt = rt; sim::meet(p); return 0; }
int MPI_Gatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rcs, const int *dis, MPI_Datatype rt, int root, MPI_Comm) { PART("Gatherv"); p.s = s; p.sc = sc; p.st = st; p.r = r; p.rcs = rcs; p.dis = dis; p.rt = rt; p.root = root; sim::meet(p); return 0; }
int MPI_Allgatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rcs, const int *dis, MPI_Datatype rt, MPI_Comm) { PART("Allgatherv"); p.s = s; p.sc = sc; p.st = st; p.r = r; p.rcs = rcs; p.dis = dis; p.rt = rt; sim::meet(p); return 0; }
}
#endif
