// C17: the C interface against the C++ interface, operation by operation, on equal trees
#include "drv.hpp"
#include "conduit.h"
#include "conduit_utils.h"
#include "conduit_cpp_to_c.hpp"
#include "conduit_blueprint_mcarray.hpp"
#include "conduit_blueprint_mcarray.h"
using namespace conduit; using namespace drv;
static bool eq(const Node &a, const Node &b, const Node *ra, const Node *rb)
{
    const DataType &x = a.dtype(), &y = b.dtype();
    if (x.id() != y.id() || x.number_of_elements() != y.number_of_elements() || a.number_of_children() != b.number_of_children() || a.is_data_external() != b.is_data_external()) return false;
    if (x.is_object() || x.is_list()) { if (x.is_object() && a.child_names() != b.child_names()) return false; for (index_t i = 0; i < a.number_of_children(); i++) if (!eq(a.child(i), b.child(i), ra, rb)) return false; return true; }
    if (x.is_empty()) return true;
    if (x.stride() != y.stride() || x.offset() != y.offset() || x.element_bytes() != y.element_bytes() || x.endianness() != y.endianness()) return false;
    for (index_t i = 0; i < x.number_of_elements(); i++) if (memcmp(a.element_ptr(i), b.element_ptr(i), x.element_bytes())) return false;
    return ra == nullptr || a.data_ptr() == b.data_ptr();
}
#define EQX(a, b) CHECK(eq(a, b, &(a), nullptr), "the node differs, or describes other memory: %s / %s", (a).to_json().substr(0, 200).c_str(), (b).to_json().substr(0, 200).c_str())
#define EQ(a, b) CHECK(eq(a, b, nullptr, nullptr), "the node differs: %s / %s", (a).to_json().substr(0, 200).c_str(), (b).to_json().substr(0, 200).c_str())
static conduit_node *c(Node &n) { return c_node(&n); }
template <class V> struct Buf { V b[64]; Buf() { for (auto &x : b) { V v; for (size_t i = 0; i < sizeof v; i++) ((unsigned char *)&v)[i] = (unsigned char)rnd(); memcpy(&x, &v, sizeof v); } } };
static void base(Node &a, Node &b) { int k = (int)ri(0, 4); for (Node *n : {&a, &b}) { n->reset(); if (k == 1) n->set(7); if (k == 2) n->fetch("p").set(2.5); if (k == 3) n->append().set("t"); if (k == 4) n->fetch("q/r").set(std::vector<int>{1, 2, 3}); } }
#define TYPED(W, V) { \
  V v; Buf<V> B; v = B.b[0]; index_t cnt = ri(0, 9), off = ri(0, 3) * (index_t)sizeof(V), st = ri(1, 4) * (index_t)sizeof(V); const char *pa[] = {"a", "a/b", "q/r", "z z/y"}; const char *p = pa[ri(0, 3)]; \
  { Node a, b; base(a, b); where("set." #W, "scalar"); conduit_node_set_##W(c(a), v); b.set((V)v); EQ(a, b); V r = conduit_node_as_##W(c(a)); CHECK(!memcmp(&r, &v, sizeof v), "as"); CHECK(conduit_node_as_##W##_ptr(c(a)) == (V *)a.data_ptr(), "as ptr"); } \
  { Node a, b; base(a, b); if (throws([&]() { b.fetch(p); })) { } else { where("set_path." #W, "%s", p); conduit_node_set_path_##W(c(a), p, v); b.fetch(p).set((V)v); EQ(a, b); V r = conduit_node_fetch_path_as_##W(c(a), p); CHECK(!memcmp(&r, &v, sizeof v), "fetch as"); CHECK(conduit_node_fetch_path_as_##W##_ptr(c(a), p) == (V *)a.fetch(p).data_ptr(), "fetch as ptr"); } } \
  { Node a, b; base(a, b); where("ptr." #W, "%ld", (long)cnt); conduit_node_set_##W##_ptr(c(a), B.b, cnt); b.set((V *)B.b, cnt); EQ(a, b); } \
  { Node a, b; base(a, b); where("ptr_detailed." #W, "%ld %ld %ld", (long)cnt, (long)off, (long)st); conduit_node_set_##W##_ptr_detailed(c(a), B.b, cnt, off, st, sizeof(V), Endianness::DEFAULT_ID); b.set((V *)B.b, cnt, off, st, sizeof(V), Endianness::DEFAULT_ID); EQ(a, b); } \
  { Node a, b; base(a, b); where("path_ptr." #W, "%ld", (long)cnt); if (!throws([&]() { b.fetch(p); })) { conduit_node_set_path_##W##_ptr(c(a), p, B.b, cnt); b.fetch(p).set((V *)B.b, cnt); EQ(a, b); conduit_node_set_path_##W##_ptr_detailed(c(a), p, B.b, cnt, off, st, sizeof(V), Endianness::DEFAULT_ID); b.fetch(p).set((V *)B.b, cnt, off, st, sizeof(V), Endianness::DEFAULT_ID); EQ(a, b); } } \
  { Node a, b; base(a, b); where("path_external." #W, "%ld", (long)cnt); if (!throws([&]() { b.fetch(p); })) { conduit_node_set_path_external_##W##_ptr(c(a), p, B.b, cnt); b.fetch(p).set_external((V *)B.b, cnt); EQ(a, b); conduit_node_set_path_external_##W##_ptr_detailed(c(a), p, B.b, cnt, off, st, sizeof(V), Endianness::BIG_ID); b.fetch(p).set_external((V *)B.b, cnt, off, st, sizeof(V), Endianness::BIG_ID); EQ(a, b); CHECK(a.fetch(p).data_ptr() == b.fetch(p).data_ptr(), "other memory"); } } }
#define EXTD(W, V) { Buf<V> B; index_t cnt = ri(0, 9), off = ri(0, 3) * (index_t)sizeof(V), st = ri(1, 4) * (index_t)sizeof(V); Node a, b; base(a, b); where("external." #W, "%ld", (long)cnt); conduit_node_set_external_##W##_ptr(c(a), B.b, cnt); b.set_external((V *)B.b, cnt); EQX(a, b); conduit_node_set_external_##W##_ptr_detailed(c(a), B.b, cnt, off, st, sizeof(V), Endianness::BIG_ID); b.set_external((V *)B.b, cnt, off, st, sizeof(V), Endianness::BIG_ID); EQX(a, b); }
static std::string take(char *s) { std::string r(s ? s : "(null)"); free(s); return r; }
static std::string HM; static int HL;
static void hi(const char *m, const char *f, int l) { HM = std::string(m) + "|" + f; HL = l; }
static void tree(Node &n, int d) { static const char *nm[] = {"a", "b", "c", "x y", "a/b"}; int k = (int)ri(0, d ? 4 : 2); if (k == 0) return; if (k == 1) { n.set(std::vector<int>((size_t)ri(0, 4), (int)ri(0, 99))); return; } if (k == 2) { n.set("text " + std::to_string(ri(0, 9))); return; } int c = (int)ri(0, 3); if (k == 3) { n.set(DataType::object()); for (int i = 0; i < c; i++) tree(n.add_child(nm[ri(0, 4)]), d - 1); } else { n.set(DataType::list()); for (int i = 0; i < c; i++) tree(n.append(), d - 1); } }
int main(int argc, char **argv)
{
    init(argc, argv);
    for (int r = 0; r < 60 * effort; r++) {
        TYPED(int8, int8) TYPED(int16, int16) TYPED(int32, int32) TYPED(int64, int64) TYPED(uint8, uint8) TYPED(uint16, uint16) TYPED(uint32, uint32) TYPED(uint64, uint64) TYPED(float32, float32) TYPED(float64, float64)
        TYPED(short, short) TYPED(int, int) TYPED(long, long) TYPED(signed_char, signed char) TYPED(signed_short, short) TYPED(signed_int, int) TYPED(signed_long, long) TYPED(unsigned_char, unsigned char) TYPED(unsigned_short, unsigned short) TYPED(unsigned_int, unsigned int) TYPED(unsigned_long, unsigned long) TYPED(float, float) TYPED(double, double)
        EXTD(int8, int8) EXTD(int16, int16) EXTD(int32, int32) EXTD(int64, int64) EXTD(uint8, uint8) EXTD(uint16, uint16) EXTD(uint32, uint32) EXTD(uint64, uint64) EXTD(float32, float32) EXTD(float64, float64) EXTD(short, short) EXTD(int, int) EXTD(long, long) EXTD(signed_char, signed char) EXTD(signed_short, short) EXTD(signed_int, int) EXTD(signed_long, long) EXTD(unsigned_char, unsigned char) EXTD(unsigned_short, unsigned short) EXTD(unsigned_int, unsigned int) EXTD(unsigned_long, unsigned long) EXTD(float, float) EXTD(double, double)
    }
    for (int r = 0; r < 400 * effort; r++) {
        Node s, t, a, b, i1, i2; tree(s, 3); tree(t, 3); a.set(s); b.set(s); conduit_node *p = c(a);
        where("query", "%s", s.to_json().substr(0, 300).c_str());
        CHECK(conduit_node_number_of_children(p) == a.number_of_children() && conduit_node_number_of_elements(p) == a.dtype().number_of_elements() && conduit_node_total_strided_bytes(p) == a.total_strided_bytes() && conduit_node_total_bytes_compact(p) == a.total_bytes_compact() && conduit_node_total_bytes_allocated(p) == a.total_bytes_allocated(), "sizes");
        CHECK(!!conduit_node_is_root(p) == a.is_root() && !!conduit_node_is_compact(p) == a.is_compact() && !!conduit_node_is_contiguous(p) == a.is_contiguous() && !!conduit_node_is_data_external(p) == a.is_data_external() && conduit_node_parent(p) == c_node(a.parent()) && conduit_node_data_ptr(p) == a.data_ptr(), "flags");
        CHECK(!!conduit_node_compatible(p, c(t)) == a.compatible(t) && !!conduit_node_contiguous_with_node(p, c(t)) == a.contiguous_with(t) && !!conduit_node_contiguous_with_address(p, t.data_ptr()) == a.contiguous_with(t.data_ptr()), "relations");
        CHECK(!!conduit_node_diff(p, c(t), c(i1), 1e-12) == a.diff(t, i2, 1e-12), "diff"); EQ(i1, i2); CHECK(!!conduit_node_diff_compatible(p, c(t), c(i1), 1e-12) == a.diff_compatible(t, i2, 1e-12), "diff_compatible"); EQ(i1, i2);
        CHECK(take(conduit_node_to_json(p)) == a.to_json() && take(conduit_node_to_yaml(p)) == a.to_yaml() && take(conduit_node_to_string(p)) == a.to_string() && take(conduit_node_to_summary_string(p)) == a.to_summary_string(), "text");
        { Node o; o["protocol"] = "conduit_json"; CHECK(take(conduit_node_to_json_with_options(p, c(o))) == a.to_json(o), "to_json with options"); Node y; y["num_children_threshold"] = 1; CHECK(take(conduit_node_to_summary_string_with_options(p, c(y))) == a.to_summary_string(y), "summary with options"); }
        CHECK(conduit_node_dtype(p) == c_datatype(&a.dtype()), "dtype"); { const conduit_datatype *d = conduit_node_dtype(p); const DataType &x = a.dtype(); CHECK(conduit_datatype_id(d) == x.id() && conduit_datatype_offset(d) == x.offset() && conduit_datatype_stride(d) == x.stride() && conduit_datatype_element_bytes(d) == x.element_bytes() && conduit_datatype_endianness(d) == x.endianness() && conduit_datatype_number_of_elements(d) == x.number_of_elements() && conduit_datatype_element_index(d, 2) == x.element_index(2) && take(conduit_datatype_name(d)) == x.name() && !!conduit_datatype_is_object(d) == x.is_object() && !!conduit_datatype_is_list(d) == x.is_list() && !!conduit_datatype_is_string(d) == x.is_string() && !!conduit_datatype_is_number(d) == x.is_number(), "description"); }
        for (index_t k = 0; k < a.number_of_children(); k++) { CHECK(conduit_node_child(p, k) == c(a.child(k)), "child %ld", (long)k); CHECK(take(conduit_node_name(conduit_node_child(p, k))) == a.child(k).name() && take(conduit_node_path(conduit_node_child(p, k))) == a.child(k).path(), "name or path"); }
        for (const std::string &n : a.child_names()) { CHECK(conduit_node_child_by_name(p, n.c_str()) == c(a.child(n)) && conduit_node_has_child(p, n.c_str()), "child by name"); }
        CHECK(!!conduit_node_has_child(p, "b") == a.has_child("b") && !!conduit_node_has_path(p, "a/b") == a.has_path("a/b"), "has");
        where("change", "%s <- %s", s.to_json().substr(0, 200).c_str(), t.to_json().substr(0, 200).c_str());
        { Node x(s), y(s); conduit_node_update(c(x), c(t)); y.update(t); EQ(x, y); } { Node x(s), y(s); conduit_node_update_compatible(c(x), c(t)); y.update_compatible(t); EQ(x, y); } { Node x(s), y(s); conduit_node_update_external(c(x), c(t)); y.update_external(t); EQ(x, y); }
        { Node x(s), y(s), u(t), v(t); conduit_node_move(c(x), c(u)); y.move(v); EQ(x, y); EQ(u, v); } { Node x(s), y(s), u(t), v(t); conduit_node_swap(c(x), c(u)); y.swap(v); EQ(x, y); EQ(u, v); } { Node x, y; conduit_node_compact_to(p, c(x)); a.compact_to(y); EQ(x, y); }
        { Node x(s), y(s); conduit_node_set_node(c(x), c(t)); y.set(t); EQ(x, y); conduit_node_set_external_node(c(x), c(t)); y.set_external(t); EQ(x, y); conduit_node_reset(c(x)); y.reset(); EQ(x, y); conduit_node_set_path_node(c(x), "u/v", c(t)); y["u/v"].set(t); EQ(x, y); conduit_node_set_path_external_node(c(x), "u/w", c(t)); y["u/w"].set_external(t); EQ(x, y); }
        { Node x, y; CHECK(conduit_node_fetch(c(x), "m/n") == c(x["m/n"]), "fetch"); y["m/n"]; EQ(x, y); CHECK(conduit_node_add_child(c(x), "k") == c(x.child("k")), "add_child"); y.add_child("k"); EQ(x, y); CHECK(conduit_node_fetch_existing(c(x), "m/n") == c(x["m/n"]), "fetch_existing"); CHECK(throws([&]() { conduit_node_fetch_existing(c(x), "none"); }), "fetch_existing of nothing"); conduit_node_rename_child(c(x), "k", "l"); y.rename_child("k", "l"); EQ(x, y); conduit_node_remove_path(c(x), "m/n"); y.remove("m/n"); EQ(x, y); conduit_node_remove_child_by_name(c(x), "l"); y.remove_child("l"); EQ(x, y); conduit_node_remove_child(c(x), 0); y.remove(0); EQ(x, y); }
        { Node x, y; conduit_node_append(c(x)); conduit_node *q = conduit_node_append(c(x)); CHECK(q == c(x.child(1)), "append"); y.append(); y.append(); EQ(x, y); }
        { Node x, y; char buf[16] = "external"; conduit_node_set_char8_str(c(x), "text"); y.set("text"); EQ(x, y); CHECK(conduit_node_as_char8_str(c(x)) == x.as_char8_str(), "as text"); conduit_node_set_external_char8_str(c(x), buf); y.set_external_char8_str(buf); EQ(x, y); x.reset(); y.reset(); conduit_node_set_path_char8_str(c(x), "s", "path"); y["s"].set("path"); EQ(x, y); CHECK(conduit_node_fetch_path_as_char8_str(c(x), "s") == x["s"].as_char8_str(), "text on path"); conduit_node_set_path_external_char8_str(c(x), "e", buf); y["e"].set_external_char8_str(buf); EQ(x, y);
          x["d"].set(std::vector<int>{1, 2, 3}); CHECK(conduit_node_fetch_path_data_ptr(c(x), "d") == x["d"].data_ptr() && conduit_node_fetch_path_element_ptr(c(x), "d", 2) == x["d"].element_ptr(2) && conduit_node_element_ptr(c(x["d"]), 1) == x["d"].element_ptr(1), "pointers"); }
        { Node x, y; const char *j = "{\"a\": [1,2,3], \"b\": {\"c\": \"t\"}}"; conduit_node_parse(c(x), j, "json"); y.parse(j, "json"); EQ(x, y); const char *sch = "{\"a\":{\"dtype\":\"int32\",\"length\":2},\"b\":{\"dtype\":\"float64\",\"offset\":8}}"; double mem[2] = {1.5, 2.5}; x.reset(); y.reset(); conduit_node_generate(c(x), sch, "conduit_json", mem); y.generate(sch, "conduit_json", mem); EQ(x, y); conduit_node_generate_external(c(x), sch, "conduit_json", mem); y.generate_external(sch, "conduit_json", mem); EQ(x, y); x.reset(); y.reset(); CHECK(throws([&]() { conduit_node_generate(c(x), sch, NULL, mem); }) == throws([&]() { y.generate(sch, "", mem); }), "no protocol"); EQ(x, y); }
        { Node x, y, m; int k = (int)ri(1, 4), l = (int)ri(1, 5); for (int q = 0; q < k; q++) m[std::string(1, (char)('a' + q))].set(std::vector<double>((size_t)l, q + 0.5)); CHECK(!!conduit_blueprint_mcarray_is_interleaved(c(m)) == blueprint::mcarray::is_interleaved(m), "is_interleaved"); conduit_blueprint_mcarray_to_interleaved(c(m), c(x)); blueprint::mcarray::to_interleaved(m, y); EQ(x, y); conduit_blueprint_mcarray_to_contiguous(c(x), c(m)); Node z; blueprint::mcarray::to_contiguous(x, z); EQ(m, z); CHECK(!!conduit_blueprint_mcarray_verify(c(m), c(i1)) == blueprint::mcarray::verify(m, i2), "verify"); EQ(i1, i2); }
        if (r < 20) { conduit_node *q = conduit_node_create(); CHECK(cpp_node(q)->dtype().is_empty() && cpp_node(q)->is_root(), "create"); conduit_node *k = conduit_node_fetch(q, "k"); conduit_node_set_int(k, 3); conduit_node_destroy(k); CHECK(conduit_node_has_child(q, "k") && conduit_node_as_int(conduit_node_child(q, 0)) == 3, "destroy of a child"); conduit_node_destroy(q); }
    }
    where("handlers", "C handlers"); conduit_utils_set_info_handler(hi); utils::handle_info("m1", "f1", 11); CHECK(HM == "m1|f1" && HL == 11, "info"); conduit_utils_set_warning_handler(hi); utils::handle_warning("m2", "f2", 12); CHECK(HM == "m2|f2" && HL == 12, "warning"); conduit_utils_set_error_handler(hi); utils::handle_error("m3", "f3", 13); CHECK(HM == "m3|f3" && HL == 13, "error");
    conduit_utils_set_info_handler(NULL); HM = ""; utils::handle_info("m4", "f4", 14); CHECK(HM == "", "no info handler");
    return done();
}
