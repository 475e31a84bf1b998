#include "tree.hpp"
#include <fstream>
typedef std::vector<uint8> V;
static std::vector<std::unique_ptr<V>> pool;
static V *mem(size_t n) { pool.emplace_back(new V(n)); for (auto &x : *pool.back()) x = (uint8)rnd(); return pool.back().get(); }
static const index_t IDS[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};
static void leaf(Node &n, std::string &d) {
    index_t id = IDS[ri(0, 10)], eb = DataType::default_bytes(id), cnt = ri(0, 5) == 0 ? 0 : ri(1, 6), st = ri(0, 2) ? eb : (ri(0, 1) ? eb * ri(1, 4) : eb + ri(0, 9)), off = ri(0, 2) ? 0 : ri(0, 3) * 8 + (ri(0, 3) == 0);
    if (ri(0, 9) == 0) cnt = 1;
    DataType dt(id, cnt, off, st, eb, Endianness::DEFAULT_ID); size_t sz = (size_t)(off + (cnt ? st * (cnt - 1) + eb : 0));
    char b[90]; snprintf(b, sizeof b, "%s n=%ld off=%ld st=%ld;", dt.name().c_str(), (long)cnt, (long)off, (long)st); d += b;
    V *m = mem(sz + 8);
    if (ri(0, 1)) n.set_external(dt, &(*m)[0]); else n.set(dt, &(*m)[0]);
}
static void grow(Node &n, int depth, std::string &d) {
    int k = (int)ri(depth > 3 ? 3 : 0, 8);
    if (k <= 1) { d += "{"; n.set(DataType::object()); for (int i = (int)ri(0, 4); i > 0; i--) { std::string s = nm(); if (n.has_child(s)) continue; d += s + ":"; grow(n.add_child(s), depth + 1, d); } d += "}"; }
    else if (k == 2) { d += "["; n.set(DataType::list()); for (int i = (int)ri(0, 4); i > 0; i--) grow(n.append(), depth + 1, d); d += "]"; }
    else if (k == 3) d += "empty;";
    else leaf(n, d);
}
// what the tree holds, by definition
static void bytes(const Node &n, V &o) {
    const DataType &t = n.dtype();
    if (t.is_object() || t.is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) bytes(n.child(i), o); return; }
    if (t.is_empty()) return;
    for (index_t i = 0; i < t.number_of_elements(); i++) { const uint8 *p = (const uint8 *)n.data_ptr() + t.offset() + t.stride() * i; o.insert(o.end(), p, p + DataType::default_bytes(t.id())); }
}
static index_t strided(const Node &n) { const DataType &t = n.dtype(); if (t.is_object() || t.is_list()) { index_t r = 0; for (index_t i = 0; i < n.number_of_children(); i++) r += strided(n.child(i)); return r; } return t.is_empty() || t.number_of_elements() == 0 ? 0 : t.stride() * (t.number_of_elements() - 1) + t.element_bytes(); }
static index_t span(const Node &n) { const DataType &t = n.dtype(); if (t.is_object() || t.is_list()) { index_t r = 0; for (index_t i = 0; i < n.number_of_children(); i++) r = std::max(r, span(n.child(i))); return r; } return t.is_empty() ? 0 : t.offset() + strided(n); }
// the schema describes the compact form starting at off
static bool csch(const Schema &s, const Node &n, index_t &off) {
    const DataType &t = n.dtype();
    if (s.dtype().id() != t.id() || s.number_of_children() != n.number_of_children()) { fail("compact schema kind %s, expected %s", s.dtype().name().c_str(), t.name().c_str()); return false; }
    for (index_t i = 0; i < n.number_of_children(); i++) { if (t.is_object() && s.child_name(i) != n.schema().child_name(i)) { fail("compact schema: name %ld is '%s'", (long)i, s.child_name(i).c_str()); return false; } if (!csch(s.child(i), n.child(i), off)) return false; }
    if (t.is_object() || t.is_list() || t.is_empty()) return true;
    index_t eb = DataType::default_bytes(t.id());
    if (s.dtype().number_of_elements() != t.number_of_elements() || s.dtype().offset() != off || s.dtype().stride() != eb || s.dtype().element_bytes() != eb) { fail("compact leaf: n=%ld offset=%ld (expected %ld) stride=%ld", (long)s.dtype().number_of_elements(), (long)s.dtype().offset(), (long)off, (long)s.dtype().stride()); return false; }
    off += eb * t.number_of_elements(); return true;
}
static std::string tmpd;
static void one() {
    pool.clear(); std::string d; Node n; grow(n, 0, d); V want; bytes(n, want);
    where("totals", "%s", d.c_str());
    CHECK(n.total_bytes_compact() == (index_t)want.size() && n.schema().total_bytes_compact() == (index_t)want.size(), "total_bytes_compact %ld, expected %zu", (long)n.total_bytes_compact(), want.size());
    CHECK(n.total_strided_bytes() == strided(n), "total_strided_bytes %ld, expected %ld", (long)n.total_strided_bytes(), (long)strided(n));
{ Node x; x.set_schema(n.schema()); CHECK(x.allocated_bytes() == span(n), "%ld bytes allocated for a schema spanning %ld", (long)x.allocated_bytes(), (long)span(n)); }
    where("serialize.vector", "%s", d.c_str()); V got((size_t)ri(0, 30), 7); n.serialize(got); CHECK(got == want, "serialize: %zu bytes, expected %zu, or different bytes", got.size(), want.size());
    where("compact.schema", "%s", d.c_str()); Schema s; if (ri(0, 1)) s["old/x"].set(DataType::int8(3)); n.schema().compact_to(s); index_t off = 0; if (!csch(s, n, off)) return;
    CHECK(s.is_compact(), "the compact schema is not compact"); CHECK(s.total_bytes_compact() == (index_t)want.size(), "compact schema total");
    where("roundtrip", "%s", d.c_str()); { V data(want); data.push_back(0); Node r; if (ri(0, 1)) r.set_external(s, &data[0]); else r.set(s, &data[0]); V b; bytes(r, b); CHECK(b == want, "a node built from the compact schema and the serialized bytes differs"); Node info; }
    where("compact.node", "%s", d.c_str()); { Node c; if (ri(0, 1)) c["old"].set((int64)3); n.compact_to(c); index_t o = 0; if (!csch(c.schema(), n, o)) return; V b; bytes(c, b); CHECK(b == want, "compact_to: different bytes"); V was; bytes(n, was); CHECK(was == want, "the source changed");
        CHECK(c.is_compact(), "not compact");
        if (!want.empty()) { CHECK(c.is_contiguous(), "the compact node is not contiguous"); const uint8 *p = (const uint8 *)c.contiguous_data_ptr(); CHECK(p && !memcmp(p, &want[0], want.size()), "contiguous_data_ptr does not lead to the bytes"); CHECK(c.allocated_bytes() == (index_t)want.size(), "allocated bytes"); }
        Node again; c.compact_to(again); V b2; bytes(again, b2); CHECK(b2 == want, "compacting twice"); V s2; c.serialize(s2); CHECK(s2 == want, "serializing the compact node"); }
    where("serialize.file", "%s", d.c_str()); { std::string f = tmpd + "/x.bin"; n.serialize(f); std::ifstream in(f.c_str(), std::ios::binary); V b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(b == want, "stream: %zu bytes, expected %zu, or different bytes", b.size(), want.size()); }
}
// trees laid over one buffer, to test the contiguity questions
struct Span { long lo; long hi; };
static void place(Node &n, uint8 *base, long &cur, int depth, std::vector<Span> &sp, std::string &d, int gap) {
    int k = (int)ri(depth > 2 ? 3 : 0, 9);
    if (k <= 1) { d += "{"; n.set(DataType::object()); for (int i = (int)ri(0, 4); i > 0; i--) { std::string s = nm(); if (n.has_child(s)) continue; place(n.add_child(s), base, cur, depth + 1, sp, d, gap); } d += "}"; }
    else if (k == 2) { d += "["; n.set(DataType::list()); for (int i = (int)ri(0, 4); i > 0; i--) place(n.append(), base, cur, depth + 1, sp, d, gap); d += "]"; }
    else if (k <= 4) d += "empty;";
    else { index_t id = IDS[ri(0, 10)], eb = DataType::default_bytes(id), cnt = ri(1, 4), st = eb * ri(1, 2); if (ri(0, 19) < gap) cur += ri(1, 9); index_t len = st * (cnt - 1) + eb; long o = ri(0, 1) ? cur : 0;
        n.set_external(DataType(id, cnt, o, st, eb, Endianness::DEFAULT_ID), base + cur - o); sp.push_back({cur, cur + (long)len}); char b[60]; snprintf(b, sizeof b, "[%ld,%ld);", cur, cur + (long)len); d += b; cur += len; }
}
static bool contig(const std::vector<Span> &s) { for (size_t i = 1; i < s.size(); i++) if (s[i].lo != s[i - 1].hi) return false; return true; }
static void placed() {
    std::vector<Span> a, b; std::string d; V buf(4000); Node na, nb; long cur = ri(0, 20); int gap = ri(0, 3) ? 0 : 4; place(na, &buf[0], cur, 0, a, d, gap); d += " | "; if (ri(0, 2) == 0) cur += ri(1, 5); place(nb, &buf[0], cur, 0, b, d, gap);
    where("contiguous", "%s", d.c_str());
    CHECK(na.is_contiguous() == contig(a), "is_contiguous %d, expected %d", (int)na.is_contiguous(), (int)contig(a));
    long x = ri(0, 1) && !a.empty() ? a[0].lo : ri(0, 200); bool e = contig(a) && (a.empty() || a[0].lo == x); CHECK(na.contiguous_with(&buf[0] + x) == e, "contiguous_with(%ld) %d, expected %d", x, (int)na.contiguous_with(&buf[0] + x), (int)e);
    CHECK(!na.contiguous_with((void *)NULL), "contiguous with NULL");
    bool f = !a.empty() && contig(a) && contig(b) && (b.empty() || b[0].lo == a.back().hi); CHECK(nb.contiguous_with(na) == f, "contiguous_with(node) %d, expected %d", (int)nb.contiguous_with(na), (int)f);
    const void *p = na.contiguous_data_ptr(), *w = contig(a) && !a.empty() ? &buf[0] + a[0].lo : NULL; CHECK(p == w, "contiguous_data_ptr");
}
static void strides() {
    for (size_t sz : {1, 2, 4, 8, 3}) for (int r = 0; r < 40; r++) {
        size_t n = (size_t)ri(0, 9), ds = sz * (ri(0, 1) ? 1 : (size_t)ri(1, 4)) , ss = ri(0, 3) == 0 ? (size_t)ri(0, 20) : sz * (ri(0, 1) ? 1 : (size_t)ri(1, 4)); V src(n * ss + sz + 8), dst(n * ds + sz + 8); for (auto &x : src) x = (uint8)rnd(); for (auto &x : dst) x = (uint8)rnd(); V w(dst), so(src);
        where("memcpy_strided", "size=%zu n=%zu dest_stride=%zu src_stride=%zu", sz, n, ds, ss);
        for (size_t i = 0; i < n; i++) for (size_t k = 0; k < sz; k++) w[3 + ds * i + k] = src[2 + ss * i + k];
        utils::conduit_memcpy_strided_elements(&dst[3], n, sz, ds, &src[2], ss); CHECK(dst == w, "the elements or the bytes between them differ"); CHECK(src == so, "the source changed");
    }
}
int main(int argc, char **argv) { init(argc, argv); char t[] = "/tmp/vc_c08_XXXXXX"; tmpd = mkdtemp(t); strides(); for (int r = 0; r < 2500 * effort && !fails; r++) one(); for (int r = 0; r < 6000 * effort && !fails; r++) placed(); unlink((tmpd + "/x.bin").c_str()); rmdir(tmpd.c_str()); return done(); }
