// C20 stand-in: every message operation between 1 to 4 simulated processes, nodes in every layout
#include "drv.hpp"
#include "mpi_sim.hpp"
#include "conduit_relay_mpi.hpp"
using namespace conduit; using namespace drv; namespace M = conduit::relay::mpi;
#define W MPI_COMM_WORLD
static const char *TN[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
static void leaf(Node &n, int t, int k) { n.set(DataType((index_t)(3 + t), k, 0, DataType::default_bytes(3 + t), DataType::default_bytes(3 + t), Endianness::DEFAULT_ID)); if (k == 0) return; unsigned char *p = (unsigned char *)n.data_ptr(); for (int i = 0; i < k; i++) { long v = ri(0, 5) == 0 ? ri(0, 120) : ri(1, 3); if (t == 8) ((float *)p)[i] = (float)v; else if (t == 9) ((double *)p)[i] = (double)v; else { int b = DataType::default_bytes(3 + t); memset(p + i * b, 0, b); p[i * b] = (unsigned char)v; if (ri(0, 3) == 0) for (int k = 0; k < b; k++) p[i * b + k] = (unsigned char)ri(0, 255); } } }
// a tree decided by a shape number (so that several processes can have the same shape with other values)
static uint64_t sh; static long rs(long lo, long hi) { sh = sh * 6364136223846793005ull + 1442695040888963407ull; return lo + (long)((sh >> 33) % (uint64_t)(hi - lo + 1)); }
static void tree(Node &n, int depth, bool strs) {
    long w = rs(0, 9);
    if (depth > 0 && w < 3) { int k = (int)rs(1, 4); for (int i = 0; i < k; i++) { char b[16]; snprintf(b, 16, rs(0, 6) == 0 ? "n \"%d" : "n%d", i); tree(n[b], depth - 1, strs); } }
    else if (depth > 0 && w < 5) { int k = (int)rs(1, 3); for (int i = 0; i < k; i++) tree(n.append(), depth - 1, strs); }
    else if (w == 5) { long z = rs(0, 2); if (z == 0) n.set(DataType::object()); else if (z == 1) n.set(DataType::list()); }
    else if (w == 6 && strs) { int k = (int)rs(0, 5); std::string s; for (int i = 0; i < k; i++) s += (char)('a' + ri(0, 25)); n.set(s); }
    else leaf(n, (int)rs(0, 9), (int)rs(0, 5) == 0 ? 0 : (int)rs(1, 6));
}
struct Held { std::vector<Node *> own; std::vector<std::vector<char> *> raw; ~Held() { for (auto p : own) delete p; for (auto p : raw) delete p; } };
// the same content in one of several layouts
static Node *lay(Held &h, const Node &src, int how, std::string &d) {
    Node *o = new Node(); h.own.push_back(o);
    if (how == 0) { o->set(src); d += "separate "; return o; }
    if (how == 1) { src.compact_to(*o); d += "compact "; return o; }
    if (how == 2 || how == 3) { Node t; int16 pre = 7; t["pre"].set(pre); t["x/it"].set(src); t["post"].set((int32)9); t.compact_to(*o); d += "part-of-compact "; return &(*o)["x/it"]; }
    // the schema of a packed tree, every leaf in memory of its own
    if (how == 5) { Node c; src.compact_to(c); std::function<void(const Node &, Node &)> put = [&](const Node &a, Node &b) {
        if (a.dtype().is_object()) { b.set(DataType::object()); for (index_t i = 0; i < a.number_of_children(); i++) put(a.child(i), b.add_child(a.schema().child_name(i))); return; }
        if (a.dtype().is_list()) { b.set(DataType::list()); for (index_t i = 0; i < a.number_of_children(); i++) put(a.child(i), b.append()); return; }
        if (a.dtype().is_empty()) return;
        index_t nb = a.dtype().bytes_compact(); std::vector<char> *raw = new std::vector<char>(nb + 64, 0x55); h.raw.push_back(raw); char *p = raw->data() + 8; if (nb) memcpy(p, a.element_ptr(0), nb); b.set_external(a.dtype(), p - a.dtype().offset()); };
        put(c, *o); d += "packed-schema "; return o; }
    // leaves spread out over one block, with gaps and an offset
    Schema s; src.schema().compact_to(s); Node flat; src.compact_to(flat);
    std::function<index_t(const Schema &, Schema &, index_t)> spread = [&](const Schema &a, Schema &b, index_t off) -> index_t {
        if (a.dtype().is_object()) { b.set(DataType::object()); for (index_t i = 0; i < a.number_of_children(); i++) off = spread(a.child(i), b.add_child(a.child_name(i)), off); return off; }
        if (a.dtype().is_list()) { b.set(DataType::list()); for (index_t i = 0; i < a.number_of_children(); i++) off = spread(a.child(i), b.append(), off); return off; }
        if (a.dtype().is_empty()) return off;
        if (a.dtype().is_char8_str()) { b.set(DataType(a.dtype().id(), a.dtype().number_of_elements(), off, 1, 1, Endianness::DEFAULT_ID)); return off + a.dtype().number_of_elements() + 3; }
        index_t st = a.dtype().element_bytes() * 2; b.set(DataType(a.dtype().id(), a.dtype().number_of_elements(), off, st, a.dtype().element_bytes(), Endianness::DEFAULT_ID)); return off + st * a.dtype().number_of_elements() + 8; };
    Schema b; index_t n = spread(s, b, 16); std::vector<char> *raw = new std::vector<char>(n + 64, 0x55); h.raw.push_back(raw);
    o->set_external(b, raw->data()); o->update(flat); d += "spread "; return o;
}
static bool eq(const Node &a, const Node &b) { Node i; return !a.diff(b, i, 0.0) ; }
static int HOW() { static const int v[] = {0, 1, 2, 4, 5}; return v[ri(0, 4)]; }
static void fresh(Node &n, const Node &like) { Node t; like.compact_to(t); if (t.data_ptr() && t.total_bytes_compact()) memset(t.data_ptr(), 0, t.total_bytes_compact()); std::function<void(Node &)> z = [&](Node &x) { if (x.dtype().is_char8_str() && x.dtype().number_of_elements() > 0) { char *p = (char *)x.element_ptr(0); for (index_t i = 0; i + 1 < x.dtype().number_of_elements(); i++) p[i] = 'z'; } for (index_t i = 0; i < x.number_of_children(); i++) z(x.child(i)); }; z(t); n.set(t); }
static bool stuck = false;
static void one() {
    int n = (int)ri(1, 4), root = (int)ri(0, n - 1), op = (int)ri(0, 13); uint64_t shape = rnd(); Held h; std::string d; char nm[40];
    static const char *ON[] = {"send", "isend", "send_using_schema", "broadcast", "broadcast_using_schema", "reduce", "all_reduce", "gather", "all_gather", "gather_using_schema", "all_gather_using_schema", "communicate", "wait_all", "tags"};
    snprintf(nm, 40, "mpi.%s", ON[op]);
    bool leafonly = op == 5 || op == 6, same = op == 0 || op == 1 || op == 3 || op == 7 || op == 8 || op == 12 || op == 13;
    std::vector<Node> val(n), rbase(n); std::vector<Node *> snd(n), rcv(n); int lt = (int)ri(0, 9), lk = (int)ri(1, 5), bigger = (int)ri(0, 2);
    for (int i = 0; i < n; i++) { sh = same ? shape : shape + i * 977; if (leafonly) leaf(val[i], lt, lk); else { tree(val[i], 2, true); } snd[i] = lay(h, val[i], HOW(), d); }
    d += "| "; for (int i = 0; i < n; i++) {
        if (op == 4 || op == 2 || op == 11 || op == 9 || op == 10 || op == 7 || op == 8) { long k = ri(0, op >= 7 && op <= 10 ? 3 : 2); if (k == 3) { Node t; for (int q = 0; q < n; q++) fresh(t.append(), val[q]); rcv[i] = lay(h, t, HOW(), d); } else if (k == 0) { Node *o = new Node(); h.own.push_back(o); rcv[i] = o; d += "new "; } else if (k == 1) { Node t; tree(t, 1, true); rcv[i] = lay(h, t, HOW(), d); } else { Node t; if (val[(i + 1) % n].dtype().is_number() && bigger) leaf(t, val[(i + 1) % n].dtype().id() - 3, (int)val[(i + 1) % n].dtype().number_of_elements() + bigger); else t.set(val[(i + 1) % n]); rcv[i] = lay(h, t, HOW(), d); } }
        else if (leafonly) { Node t; leaf(t, ri(0, 3) == 0 ? (int)ri(0, 9) : lt, lk + (int)ri(0, 2)); rcv[i] = ri(0, 3) == 0 ? lay(h, Node(), 0, d) : lay(h, t, HOW(), d); }
        else { fresh(rbase[i], val[(i + n - 1) % n]); rcv[i] = lay(h, rbase[i], HOW(), d); } }
    std::vector<Node> keep(n); for (int i = 0; i < n; i++) keep[i].set(*snd[i]);
    int tag = ri(0, 2) ? (int)ri(0, 1000) : (int)ri(1900000000, 2000000000); bool any = ri(0, 1); MPI_Op mo[] = {MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD}; int oi = (int)ri(0, 3); bool helper = ri(0, 1);
    where(nm, "%s, %d processes, root %d, tag %d, layouts %s, content %s", ON[op], n, root, tag, d.c_str(), val[root].to_json().substr(0, 300).c_str());
    std::vector<Node> bc(n); for (int i = 0; i < n; i++) bc[i].set(*rcv[i]);
    std::string e; std::vector<std::vector<Node> > more(n, std::vector<Node>(4));
    e = sim::run(n, [&](int r) {
        int to = (r + 1) % n, from = (r + n - 1) % n; MPI_Status st;
        if (op == 0) { M::send(*snd[r], to, tag, W); if (any) M::recv(*rcv[r], W); else M::recv(*rcv[r], from, tag, W); }
        if (op == 1) { M::Request a, b; M::isend(*snd[r], to, tag, W, &a); if (any) M::irecv(*rcv[r], W, &b); else M::irecv(*rcv[r], from, tag, W, &b); M::wait_recv(&b, &st); M::wait_send(&a, &st); }
        if (op == 2) { M::send_using_schema(*snd[r], to, tag, W); if (any) M::recv_using_schema(*rcv[r], W); else M::recv_using_schema(*rcv[r], from, tag, W); }
        if (op == 3) M::broadcast(r == root ? *snd[r] : *rcv[r], root, W);
        if (op == 4) M::broadcast_using_schema(r == root ? *snd[r] : *rcv[r], root, W);
        if (op == 5) { if (!helper) M::reduce(*snd[r], *rcv[r], mo[oi], root, W); else if (oi == 0) M::sum_reduce(*snd[r], *rcv[r], root, W); else if (oi == 1) M::min_reduce(*snd[r], *rcv[r], root, W); else if (oi == 2) M::max_reduce(*snd[r], *rcv[r], root, W); else M::prod_reduce(*snd[r], *rcv[r], root, W); }
        if (op == 6) { if (!helper) M::all_reduce(*snd[r], *rcv[r], mo[oi], W); else if (oi == 0) M::sum_all_reduce(*snd[r], *rcv[r], W); else if (oi == 1) M::min_all_reduce(*snd[r], *rcv[r], W); else if (oi == 2) M::max_all_reduce(*snd[r], *rcv[r], W); else M::prod_all_reduce(*snd[r], *rcv[r], W); }
        if (op == 7) M::gather(*snd[r], *rcv[r], root, W);
        if (op == 8) M::all_gather(*snd[r], *rcv[r], W);
        if (op == 9) M::gather_using_schema(*snd[r], *rcv[r], root, W);
        if (op == 10) M::all_gather_using_schema(*snd[r], *rcv[r], W);
        if (op == 11) { M::communicate_using_schema c(W); c.add_isend(*snd[r], to, tag); c.add_irecv(*rcv[r], from, tag); for (int k = 0; k < 2; k++) { c.add_isend(*snd[r], k % n, tag + 5 + k); } if (r < 2) for (int k = 0; k < n; k++) if (true) c.add_irecv(more[r][k], k, tag + 5 + r); if (n == 1) c.add_irecv(more[0][1], 0, tag + 6); c.execute(); }
        if (op == 12) { M::Request q[3]; MPI_Status s[3]; M::Request *p = q; M::irecv(*rcv[r], from, tag, W, &p[0]); M::isend(*snd[r], to, tag, W, &p[1]); M::wait_all(2, p, s); if (p[0].m_request != MPI_REQUEST_NULL || p[1].m_request != MPI_REQUEST_NULL) { sim::UL l(sim::mu); sim::bad("a finished request is still pending"); } }
        if (op == 13) { M::Request q[4]; MPI_Status s[4]; int32 a = r * 2 + 1, b = r * 2 + 2; Node x, y, u, v; x.set(a); y.set(b); u.set((int32)0); v.set((int32)0); M::isend(x, to, tag, W, &q[0]); M::isend(y, to, tag + 1, W, &q[1]); M::irecv(u, from, tag + 1, W, &q[2]); M::irecv(v, from, tag, W, &q[3]); if (any) { M::wait_all(4, q, s); } else { M::wait_all_recv(2, q + 2, s); M::wait_all_send(2, q, s); }
            more[r][0].set(u); more[r][1].set(v); }
    });
    if (!e.empty()) { fail("%s", e.c_str()); if (e.find("for ever") != e.npos) stuck = true; return; }
    for (int i = 0; i < n; i++) if (!(op == 3 || op == 4) || i == root) CHECK(eq(*snd[i], keep[i]), "the node sent by process %d changed: %s", i, snd[i]->to_json().c_str());
    for (int i = 0; i < n; i++) {
        int from = (i + n - 1) % n;
        if (op == 0 || op == 1 || op == 12) CHECK(eq(*rcv[i], keep[from]), "process %d received %s", i, rcv[i]->to_json().c_str());
        // these fill in what was sent: the rest of the receiving tree stays
        if (op == 2 || op == 11) { bc[i].update(keep[from]); CHECK(eq(bc[i], *rcv[i]), "process %d received %s, not %s", i, rcv[i]->to_json().c_str(), bc[i].to_json().c_str()); }
        if (op == 11 && i < 2) for (int k = 0; k < n; k++) { if (n == 1 && k != 0) continue; Node x; x.update(keep[k]); CHECK(eq(more[i][k], x), "process %d received %s from %d", i, more[i][k].to_json().c_str(), k); }
        if (op == 3 && i != root) CHECK(eq(*rcv[i], keep[root]), "process %d received %s", i, rcv[i]->to_json().c_str());
        if (op == 4 && i != root) { Node i2; CHECK(!keep[root].diff_compatible(*rcv[i], i2, 0.0), "process %d received %s", i, rcv[i]->to_json().c_str());
            if (!(bc[i].dtype().is_number() || bc[i].dtype().is_char8_str())) CHECK(eq(*rcv[i], keep[root]), "process %d received %s", i, rcv[i]->to_json().c_str()); }
        if ((op == 5 && i == root) || op == 6) { std::vector<Node> c(n); std::vector<const void *> in; for (int k = 0; k < n; k++) { keep[k].compact_to(c[k]); in.push_back(c[k].data_ptr()); } Node x; x.set(c[0]); sim::red(M::conduit_dtype_to_mpi_dtype(x.dtype()), in, x.data_ptr(), lk, mo[oi]); CHECK(rcv[i]->dtype().id() == x.dtype().id() && rcv[i]->dtype().number_of_elements() >= lk, "process %d: %s", i, rcv[i]->dtype().to_json().c_str()); Node i2; CHECK(!x.diff_compatible(*rcv[i], i2, 0.0), "process %d has %s, not %s", i, rcv[i]->to_json().c_str(), x.to_json().c_str()); }
        if (((op == 7 || op == 9) && i == root) || op == 8 || op == 10) { CHECK(rcv[i]->dtype().is_list() && rcv[i]->number_of_children() == n, "process %d has %d entries", i, (int)rcv[i]->number_of_children()); if (rcv[i]->number_of_children() == n) for (int k = 0; k < n; k++) CHECK(eq(rcv[i]->child(k), keep[k]), "process %d, entry %d: %s", i, k, rcv[i]->child(k).to_json().c_str()); }
        if (op == 13) CHECK(more[i][0].as_int32() == from * 2 + 2 && more[i][1].as_int32() == from * 2 + 1, "messages with tags %d and %d: %d and %d", tag, tag + 1, more[i][1].as_int32(), more[i][0].as_int32());
    }
}
int main(int c, char **v) {
    init(c, v); for (int i = 0; i < 10; i++) { CHECK(M::mpi_dtype_to_conduit_dtype_id(M::conduit_dtype_to_mpi_dtype(DataType(3 + i, 1, 0, 1, 1, 0))) == 3 + i, "type %s", TN[i]); }
    int n = 5000 * effort; for (int i = 0; i < n && keys.size() < 6 && !stuck; i++) one();
    return done();
}
