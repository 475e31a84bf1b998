// C18: every reader of a schema text builds the tree the text describes.
#include "drv.hpp"
using namespace conduit; using namespace drv;
struct D {                                  // a described tree
    int kind = 0;                           // 0 leaf, 1 object, 2 list, 3 list_of
    std::vector<D> kids; std::vector<std::string> names;
    index_t id = 0, n = 1, off = -1, stride = -1; int count = 0;   // count: how the number of elements is given
    int endian = -1; bool plain = false; bool hasval = false; std::vector<double> val; std::string sval; bool ref = false; long len = 1;
};
static const char *TN[] = {"empty", "object", "list", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "char8_str"};
static long sz(index_t id) { return DataType::default_bytes(id); }
static D leaf(bool vals) {
    D d; d.kind = 0; d.id = ri(3, 12);
    if (ri(0, 3) == 0) { d.plain = true; return d; }
    d.count = (int)ri(0, 2); if (d.count) d.n = ri(0, 12) == 0 ? 0 : ri(1, 4); if (d.count == 2 && d.n == 0) d.n = 1;
    if (ri(0, 3) == 0) d.stride = sz(d.id) * ri(1, 3) + (ri(0, 2) == 0 ? sz(d.id) : 0);
    if (ri(0, 4) == 0) d.off = 8 * ri(0, 20);
    if (ri(0, 5) == 0) d.endian = (int)ri(0, 1);
    if (vals && ri(0, 1)) {
        d.hasval = true; int k = d.count ? (int)d.n : (int)ri(1, 4); if (!d.count) d.n = k;
        for (int i = 0; i < k; i++) d.val.push_back(d.id >= 11 ? (double)ri(-400, 400) / 8 : (double)ri(d.id < 7 ? -100 : 0, 100));
    }
    return d;
}
static D gen(int depth, bool vals) {
    int k = (int)ri(0, depth <= 0 ? 0 : 5); D d;
    if (k < 2 && depth < 3) return leaf(vals);
    if (k == 5) { d.kind = 3; d.len = ri(1, 3); D e; e.kind = 1; int n = (int)ri(1, 2); for (int i = 0; i < n; i++) { e.names.push_back(i ? "q" : "p r"); e.kids.push_back(gen(depth - 2, vals)); } d.kids.push_back(e); return d; }
    d.kind = k == 4 ? 2 : 1; int n = (int)ri(0, 4);
    static const char *nm[] = {"a", "b c", "d/e", "f", "g", "h"};
    for (int i = 0; i < n; i++) { d.kids.push_back(gen(depth - 1, vals)); d.names.push_back(nm[i]); }
    return d;
}
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
// flow style: legal JSON and legal YAML; block: YAML block style
static std::string text(const D &d, bool js) {
    std::ostringstream o; std::string q = "\"";
    if (d.kind == 0) {
        if (d.plain) return q + TN[d.id] + q;
        o << "{ \"dtype\": \"" << TN[d.id] << "\"";
        if (d.count == 1) o << ", \"number_of_elements\": " << d.n;
        if (d.count == 2) o << ", \"length\": " << d.n;
        if (d.off >= 0) o << ", \"offset\": " << d.off;
        if (d.stride >= 0) o << ", \"stride\": " << d.stride;
        if (d.endian >= 0) o << ", \"endianness\": " << (d.endian ? "\"big\"" : "\"little\"");
        if (d.hasval) { if (d.val.size() == 1 && d.n == 1 && ri(0, 1)) o << ", \"value\": " << num(d.val[0]); else { o << ", \"value\": ["; for (size_t i = 0; i < d.val.size(); i++) o << (i ? ", " : "") << num(d.val[i]); o << "]"; } }
        o << " }"; return o.str();
    }
    if (d.kind == 3) { o << "{ \"dtype\": " << text(d.kids[0], js) << ", \"length\": "; if (d.ref) o << "{ \"reference\": \"../n\" }"; else o << d.len; o << " }"; return o.str(); }
    o << (d.kind == 1 ? "{" : "[");
    for (size_t i = 0; i < d.kids.size(); i++) { o << (i ? ", " : " "); if (d.kind == 1) o << "\"" << d.names[i] << "\": "; o << text(d.kids[i], js); if (js && ri(0, 9) == 0) o << " // say \"x\n"; }
    o << (d.kind == 1 ? " }" : " ]"); return o.str();
}
struct E { const D *d; int kind; index_t off, stride; size_t nk; };
// the described layout, in tree order; returns the bytes described
static index_t lay(const D &d, index_t at, bool adv, std::vector<E> &o) {
    size_t me = o.size(); o.push_back({&d, d.kind == 0 ? 0 : d.kind == 1 ? 1 : 2, 0, 0, 0}); index_t tot = 0;
    if (d.kind == 0) { o[me].off = d.off >= 0 ? d.off : at; o[me].stride = d.stride >= 0 ? d.stride : sz(d.id); return d.n ? o[me].stride * (d.n - 1) + sz(d.id) : 0; }
    size_t n = d.kind == 3 ? (size_t)d.len : d.kids.size(); o[me].nk = n;
    for (size_t i = 0; i < n; i++) { index_t b = lay(d.kids[d.kind == 3 ? 0 : i], at, adv, o); tot += b; if (adv) at += b; }
    return tot;
}
static void sch(const Schema &s, const std::vector<E> &x, size_t &i, const char *what) {
    const E &e = x[i++]; const DataType &t = s.dtype();
    if (e.kind) {
        if ((e.kind == 1 && !t.is_object()) || (e.kind == 2 && !t.is_list())) { if (e.nk || e.kind == 1) { fail("%s: %s where a %s is described", what, t.name().c_str(), e.kind == 1 ? "object" : "list"); i = x.size(); return; } }
        if ((size_t)s.number_of_children() != e.nk) { fail("%s: %ld children, %zu described", what, (long)s.number_of_children(), e.nk); i = x.size(); return; }
        for (size_t k = 0; k < e.nk && i < x.size(); k++) { if (e.d->kind == 1 && s.child_name(k) != e.d->names[k]) fail("%s: child %zu is '%s'", what, k, s.child_name(k).c_str()); sch(s.child(k), x, i, what); }
        return;
    }
    int en = e.d->endian < 0 ? Endianness::DEFAULT_ID : e.d->endian ? Endianness::BIG_ID : Endianness::LITTLE_ID;
    CHECK(t.id() == e.d->id && t.number_of_elements() == e.d->n && t.offset() == e.off && t.stride() == e.stride && t.element_bytes() == sz(e.d->id) && t.endianness() == en, "%s: %s, expected %s n %ld offset %ld stride %ld endianness %d", what, t.to_json().c_str(), TN[e.d->id], (long)e.d->n, (long)e.off, (long)e.stride, en);
}
static double elem(Node &n, index_t id, index_t i) {
    void *p = n.element_ptr(i);
    switch (id) { case 3: return *(int8 *)p; case 4: return *(int16 *)p; case 5: return *(int32 *)p; case 6: return (double)*(int64 *)p; case 7: return *(uint8 *)p; case 8: return *(uint16 *)p; case 9: return *(uint32 *)p; case 10: return (double)*(uint64 *)p; case 11: return *(float32 *)p; default: return *(float64 *)p; }
}
enum { NODATA, COPY, EXT };
static void nod(Node &n, const std::vector<E> &x, size_t &i, const char *what, int mode, const std::vector<uint8> &data, const std::vector<uint8> &orig) {
    const E &e = x[i++]; const DataType &t = n.dtype();
    if (e.kind) {
        if ((e.kind == 1 && !t.is_object()) || (e.kind == 2 && !t.is_list())) { if (e.nk || e.kind == 1) { fail("%s: %s where a %s is described", what, t.name().c_str(), e.kind == 1 ? "object" : "list"); i = x.size(); return; } }
        if ((size_t)n.number_of_children() != e.nk) { fail("%s: %ld children, %zu described", what, (long)n.number_of_children(), e.nk); i = x.size(); return; }
        for (size_t k = 0; k < e.nk && i < x.size(); k++) {
            Node &c = n.child(k); CHECK(c.parent() == &n && c.schema_ptr() == n.schema_ptr()->child_ptr(k), "%s: child %zu is not linked to its parent and schema", what, k);
            if (e.d->kind == 1 && n.schema().child_name(k) != e.d->names[k]) fail("%s: child %zu is '%s'", what, k, c.name().c_str());
            nod(c, x, i, what, mode, data, orig);
        }
        return;
    }
    int en = e.d->endian < 0 ? Endianness::DEFAULT_ID : e.d->endian ? Endianness::BIG_ID : Endianness::LITTLE_ID;
    if (t.id() != e.d->id || t.number_of_elements() != e.d->n || t.element_bytes() != sz(e.d->id)) { fail("%s: %s, expected %s n %ld", what, t.to_json().c_str(), TN[e.d->id], (long)e.d->n); return; }
    if (mode == EXT) CHECK(t.offset() == e.off && t.stride() == e.stride && t.endianness() == en && n.data_ptr() == (void *)data.data(), "%s: not the described view: %s, expected offset %ld stride %ld", what, t.to_json().c_str(), (long)e.off, (long)e.stride);
    if (mode == COPY) { CHECK(n.is_compact(), "%s: the copy is not compact", what); const uint8 *p = (const uint8 *)n.data_ptr(); CHECK(e.d->n == 0 || !(p >= data.data() && p < data.data() + data.size()), "%s: a leaf still uses the caller's buffer", what); }
    for (index_t k = 0; k < e.d->n; k++) {
        if (e.d->hasval && k < (index_t)e.d->val.size()) CHECK(elem(n, e.d->id, k) == e.d->val[k], "%s: element %ld is %g, the text says %g", what, (long)k, elem(n, e.d->id, k), e.d->val[k]);
        else if (mode != NODATA) CHECK(memcmp(n.element_ptr(k), orig.data() + e.off + k * e.stride, sz(e.d->id)) == 0, "%s: element %ld of a %s leaf is not the one at byte %ld", what, (long)k, TN[e.d->id], (long)(e.off + k * e.stride));
    }
}
static void one(bool vals, bool ref) {
    D d;
    if (ref) { d.kind = 1; D n; n.kind = 0; n.id = ri(3, 6); n.n = 1; n.hasval = true; long L = ri(1, 3); n.val.push_back((double)L); D l; l.kind = 3; l.ref = true; l.len = L; D e; e.kind = 1; e.names.push_back("u"); e.kids.push_back(leaf(false)); l.kids.push_back(e); d.names = {"n", "l", "z"}; d.kids = {n, l, leaf(false)}; }
    else { d = gen((int)ri(1, 4), vals); if (d.kind == 3) { D r; r.kind = 1; r.names.push_back("a"); r.kids.push_back(d); d = r; } }
    std::string tj = text(d, true), ty = text(d, false); std::vector<E> x, x0; lay(d, 0, true, x); lay(d, 0, false, x0); size_t i; index_t span = 0; bool hv = false;
    for (auto &e : x) if (e.kind == 0) { if (e.d->n) span = std::max(span, e.off + (e.d->n - 1) * e.stride + (index_t)sz(e.d->id)); hv = hv || e.d->hasval; }
    for (int y = 0; y < 2; y++) {
        const std::string &t = y ? ty : tj; const char *pr = y ? "conduit_yaml" : "conduit_json";
        std::vector<uint8> data(span + 16), orig; for (auto &b : data) b = (uint8)rnd(); orig = data;
        try {
            if (!ref) { where(y ? "schema.yaml" : "schema.json", "%s", t.c_str()); Schema s; Generator(t, pr).walk(s); i = 0; sch(s, x, i, "Schema"); }
            else { where(y ? "schema.ref.yaml" : "schema.ref.json", "%s", t.c_str()); Schema s; bool th = false; try { Generator(t, pr).walk(s); } catch (const Error &) { th = true; } CHECK(th, "a reference is accepted without data"); }
            where(y ? "nodata.yaml" : "nodata.json", "%s", t.c_str()); { Node n; n["old"] = 1; Generator(t, pr).walk(n); i = 0; nod(n, x0, i, "generate without data", NODATA, data, orig); }
            where(y ? "copy.yaml" : "copy.json", "%s", t.c_str()); { Node n; n.append().set(1.0); n.reset(); Generator(t, pr, data.data()).walk(n); CHECK(data == orig, "the caller's data changed"); for (auto &b : data) b = (uint8)~b; i = 0; nod(n, x, i, "generate with data", COPY, data, orig); data = orig; }
            if (!hv) { where(y ? "external.yaml" : "external.json", "%s", t.c_str()); Node n; Generator(t, pr, data.data()).walk_external(n); CHECK(data == orig, "the caller's data changed"); i = 0; nod(n, x, i, "generate_external", EXT, data, orig); for (auto &b : data) b = (uint8)~b; i = 0; nod(n, x, i, "generate_external, after a change of the data", EXT, data, data); }
        } catch (const Error &e) { fail("error: %s", e.message().substr(0, 300).c_str()); }
    }
}
static void pure() {
    static const char *C[][3] = {{"true", "int", "1"}, {"false", "int", "0"}};
    (void)C;
    where("pure.json", "fixed"); Node n;
    auto rd = [&](const char *t, const char *p = "json") { n.reset(); where(p[0] == 'j' ? "pure.json" : "pure.yaml", "%s", t); try { Generator(t, p).walk(n); } catch (const Error &e) { fail("error: %s", e.message().substr(0, 200).c_str()); } };
    rd("{\"a\": [1,2,3], \"b\": [1, 2.5], \"c\": true, \"d\": false, \"e\": null, \"f\": \"t\\\\u\", \"g\": [], \"h\": {}, \"i\": [1, \"x\"], \"j\": 18446744073709551615, \"k\": -5, \"l\": 1e3}");
    CHECK(n.number_of_children() == 12 && n["a"].dtype().is_int64() && n["a"].dtype().number_of_elements() == 3 && n["a"].as_int64_ptr()[2] == 3, "a");
    CHECK(n["b"].dtype().is_float64() && n["b"].as_float64_ptr()[0] == 1 && n["b"].as_float64_ptr()[1] == 2.5, "b");
    CHECK(n["c"].dtype().is_uint8() && n["c"].as_uint8() == 1 && n["d"].dtype().is_uint8() && n["d"].as_uint8() == 0 && n["e"].dtype().is_empty() && n["f"].as_string() == "t\\u", "c-f");
    CHECK(n["g"].dtype().is_list() && n["g"].number_of_children() == 0 && n["h"].dtype().is_object() && n["h"].number_of_children() == 0, "g-h");
    CHECK(n["i"].dtype().is_list() && n["i"].number_of_children() == 2 && n["i"][0].dtype().is_int64() && n["i"][1].as_string() == "x", "i");
    CHECK(n["j"].dtype().is_uint64() && n["j"].as_uint64() == 18446744073709551615ull && n["k"].dtype().is_int64() && n["k"].as_int64() == -5 && n["l"].dtype().is_float64() && n["l"].as_float64() == 1000, "j-l");
    rd("[18446744073709551615, 1]"); CHECK(n.dtype().is_uint64() && n.dtype().number_of_elements() == 2 && n.as_uint64_ptr()[0] == 18446744073709551615ull && n.as_uint64_ptr()[1] == 1, "large array");
    rd("[18446744073709551615, -1]"); CHECK(n.dtype().is_float64() && n.as_float64_ptr()[1] == -1, "mixed large array");
    rd("[\"nan\", 1, \"-inf\"]"); CHECK(n.dtype().is_float64() && n.as_float64_ptr()[0] != n.as_float64_ptr()[0] && n.as_float64_ptr()[2] < -1e300, "nan array");
    rd("\"some words\""); CHECK(n.dtype().is_char8_str() && n.as_string() == "some words", "root string");
    rd("a: [1,2,3]\nb: [1, 2.5]\nc: 7\nd: 1.5\ne: text here\nf:\n  - x\n  - 2\ng: {h: 1}\n", "yaml");
    CHECK(n.number_of_children() == 7 && n["a"].dtype().is_int64() && n["a"].as_int64_ptr()[2] == 3 && n["b"].dtype().is_float64() && n["b"].as_float64_ptr()[1] == 2.5 && n["c"].as_int64() == 7 && n["d"].as_float64() == 1.5 && n["e"].as_string() == "text here", "a-e");
    CHECK(n["f"].dtype().is_list() && n["f"][0].as_string() == "x" && n["f"][1].as_int64() == 2 && n["g/h"].as_int64() == 1, "f-g");
    for (const char *p : {"json", "yaml", "conduit_json", "conduit_yaml"}) { where("duplicate", "%s", p); Node m; m["keep"] = 1; bool th = false; const char *t = p[0] == 'c' ? "{\"a\": \"int32\", \"a\": \"int8\"}" : "{\"a\": 1, \"a\": 2}"; try { Generator(t, p).walk(m); } catch (const Error &) { th = true; } CHECK(th && m.dtype().is_empty(), "a duplicate name must be an error and leave the node empty"); }
    for (const char *p : {"conduit_json", "conduit_yaml"}) for (const char *t : {"{\"a\": \"nosuchtype\"}", "{\"a\": {\"dtype\": \"int32\", \"stride\": \"x\"}}", "{\"a\": {\"dtype\": \"int32\", \"endianness\": \"middle\"}}", "{\"a\": {\"dtype\": \"int32\", \"number_of_elements\": 1, \"value\": [1, 2]}}"}) { where("invalid", "%s %s", p, t); Node m; bool th = false; try { Generator(t, p).walk(m); } catch (const Error &) { th = true; } CHECK(th && m.dtype().is_empty(), "must be an error and leave the node empty"); }
    for (const char *p : {"conduit_json", "conduit_yaml"}) { where("string", "%s", p); Node m; try { Generator("{\"a\": {\"dtype\": \"char8_str\", \"value\": \"42\"}, \"b\": {\"dtype\": \"char8_str\", \"value\": \"x y\"}, \"c\": {\"dtype\": \"char8_str\", \"value\": \"\"}}", p).walk(m); CHECK(m["a"].as_string() == "42" && m["b"].as_string() == "x y" && m["c"].as_string() == "", "strings"); } catch (const Error &e) { fail("error: %s", e.message().substr(0, 200).c_str()); } }
    for (index_t id = 3; id <= 12; id++) for (const char *p : {"conduit_json", "conduit_yaml"}) {
        static const char *lim[][2] = {{"-128", "127"}, {"-32768", "32767"}, {"-2147483648", "2147483647"}, {"-9223372036854775808", "9223372036854775807"}, {"0", "255"}, {"0", "65535"}, {"0", "4294967295"}, {"0", "18446744073709551615"}, {"-1.5", "3.25"}, {"-1.5e200", "3.25"}};
        for (int arr = 0; arr < 2; arr++) { std::string t = std::string("{\"a\": {\"dtype\": \"") + TN[id] + "\", \"value\": " + (arr ? std::string("[") + lim[id - 3][0] + ", " + lim[id - 3][1] + "]" : lim[id - 3][1]) + "}}"; where("limits", "%s %s", p, t.c_str());
            try { Node m; Generator(t, p).walk(m); Node &a = m["a"]; CHECK(a.dtype().id() == id && a.dtype().number_of_elements() == 1 + arr, "dtype"); std::ostringstream o; index_t k = arr; std::string got; if (id < 7) got = std::to_string(id == 3 ? (long)*(int8 *)a.element_ptr(k) : id == 4 ? (long)*(int16 *)a.element_ptr(k) : id == 5 ? (long)*(int32 *)a.element_ptr(k) : (long)*(int64 *)a.element_ptr(k)); else if (id < 11) got = std::to_string(id == 7 ? (unsigned long)*(uint8 *)a.element_ptr(k) : id == 8 ? (unsigned long)*(uint16 *)a.element_ptr(k) : id == 9 ? (unsigned long)*(uint32 *)a.element_ptr(k) : (unsigned long)*(uint64 *)a.element_ptr(k)); else got = elem(a, id, k) == 3.25 ? "3.25" : "?"; CHECK(got == lim[id - 3][1], "value %s", got.c_str()); } catch (const Error &e) { fail("error: %s", e.message().substr(0, 200).c_str()); } }
    }
}
static void rejects() {
    struct { const char *proto, *good, *bad; } T[] = {
        {"json", "{\"a\": 1}", "{\"a\": 1, \"b\": [1, 2}"}, {"yaml", "a: 1", "a: 1\nb: [1, 2"}, {"json", "[1,2]", "{\"a\": 1, \"a\": 2}"}, {"yaml", "- 1\n- x", "a: 1\na: 2"},
        {"conduit_json", "{\"a\": {\"dtype\": \"int32\", \"value\": 3}}", "{\"a\": {\"dtype\": \"int32\", \"value\": 3}, \"b\": {\"dtype\": \"int33\"}}"},
        {"conduit_yaml", "a: {dtype: int32, value: 3}", "a: {dtype: int32, value: 3}\nb: {dtype: int33}"}, {"conduit_base64_json", "", "{\"schema\": \"int32\"}"}, {"no_such_protocol", "", "{\"a\": 1}"}};
    for (auto &t : T) for (int k = 0; k < 4; k++) {
        Node n; if (k & 1) n["old"] = 5; bool ext = k & 2; where("rejects", "%s%s over %s: %s", t.proto, ext ? " external" : "", k & 1 ? "a tree" : "nothing", t.bad);
        if (t.good[0]) { Node m; m["old"] = 1; CHECK(!throws([&] { if (ext) m.generate_external(t.good, t.proto, NULL); else m.generate(t.good, t.proto, NULL); }), "a well formed text is refused"); CHECK(!m.has_path("old"), "the old tree is still there"); }
        CHECK(throws([&] { if (ext) n.generate_external(t.bad, t.proto, NULL); else n.generate(t.bad, t.proto, NULL); }), "a malformed text is accepted");
        CHECK(n.dtype().is_empty() && n.number_of_children() == 0, "the node is not empty after the error");
    }
}
int main(int argc, char **argv) {
    init(argc, argv); pure(); rejects();
    for (int r = 0; r < 500 * effort; r++) one(ri(0, 1), ri(0, 7) == 0);
    return done();
}
