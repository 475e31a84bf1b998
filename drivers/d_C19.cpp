// C19: a tree written as text reads back as the same tree.
#include "drv.hpp"
using namespace conduit; using namespace drv;
static const std::vector<std::string> NM = {"a", "b c", "d/e", "f_1", "g\"h", "i\\j", "k//l", "m:n", "true", "9x", "{o}", "[p]", "q,r", "s\\", "\\\"t"};
static std::string str() { static const std::vector<std::string> v = {"", "x", "hello world", "a\"b", "back\\slash", "ends in \\", "line\nbreak", "tab\there", "\\n not a newline", "// not a comment", "42", "1.5", "nan", "true", "null", "{\"a\": 1}", "[1,2", "it's", "\\\"", "\b\f\r", "a,b:c}", "http://x/y"}; return v[ri(0, (long)v.size() - 1)]; }
template <typename X> static void arr(Node &n, int mode) {
    long k = ri(0, 9) == 0 ? 0 : ri(1, 5); std::vector<X> v(k * 3 + 1);
    for (auto &x : v) { switch (ri(0, 5)) { case 0: x = std::numeric_limits<X>::max(); break; case 1: x = std::numeric_limits<X>::lowest(); break; case 2: x = (X)0; break; default: x = (X)ri(-100, 100); if (std::is_floating_point<X>::value) x = (X)(x / (X)8 + (ri(0, 3) ? (X)0 : (X)1e-7)); if (mode == 1 && std::is_floating_point<X>::value && ri(0, 3) == 0) x = (X)(ri(0, 1) ? NAN : ri(0, 1) ? INFINITY : -INFINITY); } }
    index_t st = ri(0, 2) == 0 ? 2 : 1, of = ri(0, 2) == 0 ? 1 : 0;
    Node t; t.set_external(v.data(), k, of * sizeof(X), st * sizeof(X)); if (ri(0, 1)) n.set(t); else { Schema s; s.set(DataType(t.dtype().id(), k, of * sizeof(X), st * sizeof(X), sizeof(X), Endianness::DEFAULT_ID)); std::vector<X> w(of + k * st + 1, (X)1); for (long i = 0; i < k; i++) w[of + i * st] = v[of + i * st]; n.set(s, (void *)w.data()); }
}
// mode 0: whatever survives every protocol; 1: also nan / inf
static void gen(Node &n, int depth, int mode) {
    int k = (int)ri(0, depth > 0 ? 17 : 12);
    switch (k) {
        case 0: arr<int8>(n, mode); return; case 1: arr<int16>(n, mode); return; case 2: arr<int32>(n, mode); return; case 3: arr<int64>(n, mode); return;
        case 4: arr<uint8>(n, mode); return; case 5: arr<uint16>(n, mode); return; case 6: arr<uint32>(n, mode); return; case 7: arr<uint64>(n, mode); return;
        case 8: arr<float32>(n, mode); return; case 9: arr<float64>(n, mode); return; case 10: case 11: n.set(str()); return; case 12: n.reset(); return; default: break;
    }
    int c = (int)ri(0, 4);
    if (k & 1) { n.set(DataType::object()); for (int i = 0; i < c; i++) gen(n.add_child(NM[ri(0, (long)NM.size() - 1)]), depth - 1, mode); }
    else { n.set(DataType::list()); for (int i = 0; i < c; i++) gen(n.append(), depth - 1, mode); }
}
static bool feq(double a, double b, bool wide) { if (a != a) return b != b; if (std::isinf(a) || std::isinf(b)) return a == b || (std::fabs(a) > 1.7e308 && std::fabs(b) > 1.7e308 && (a > 0) == (b > 0)); return std::fabs(a - b) <= std::max(std::fabs(a), std::fabs(b)) * (wide ? 1e-14 : 0); }
static double el(const Node &n, index_t i, bool &fl, long &I, unsigned long &U) {
    const void *p = n.element_ptr(i); fl = false; I = 0; U = 0;
    switch (n.dtype().id()) { case 3: I = *(int8 *)p; return 0; case 4: I = *(int16 *)p; return 0; case 5: I = *(int32 *)p; return 0; case 6: I = *(int64 *)p; return 0; case 7: U = *(uint8 *)p; return 0; case 8: U = *(uint16 *)p; return 0; case 9: U = *(uint32 *)p; return 0; case 10: U = *(uint64 *)p; return 0; case 11: fl = true; return *(float32 *)p; default: fl = true; return *(float64 *)p; }
}
// exact: bit exact (base64); typed: types survive (conduit_json); otherwise pure json: the widest type of the kind
static bool same(const Node &a, const Node &b, const char *what, bool exact, bool typed) {
    index_t x = a.dtype().id(), y = b.dtype().id();
    if (x == DataType::OBJECT_ID || x == DataType::LIST_ID) {
        if (!typed && x == DataType::LIST_ID && y != x) return true;            // a list of numbers is an array in pure json
        if (x != y || a.number_of_children() != b.number_of_children()) { fail("%s: %s with %ld children reads back as %s with %ld", what, a.dtype().name().c_str(), (long)a.number_of_children(), b.dtype().name().c_str(), (long)b.number_of_children()); return false; }
        for (index_t i = 0; i < a.number_of_children(); i++) { if (x == DataType::OBJECT_ID && a.schema().child_name(i) != b.schema().child_name(i)) { fail("%s: the name '%s' reads back as '%s'", what, a.schema().child_name(i).c_str(), b.schema().child_name(i).c_str()); return false; } if (!same(a.child(i), b.child(i), what, exact, typed)) return false; }
        return true;
    }
    if (x == DataType::CHAR8_STR_ID || x == DataType::EMPTY_ID) { if (x != y || (x == DataType::CHAR8_STR_ID && a.as_string() != b.as_string())) { fail("%s: %s '%s' reads back as %s '%s'", what, a.dtype().name().c_str(), x == DataType::CHAR8_STR_ID ? a.as_string().c_str() : "", b.dtype().name().c_str(), y == DataType::CHAR8_STR_ID ? b.as_string().c_str() : ""); return false; } return true; }
    index_t k = a.dtype().number_of_elements();
    if (typed) { if (x != y || k != b.dtype().number_of_elements()) { fail("%s: %s x %ld reads back as %s x %ld", what, a.dtype().name().c_str(), (long)k, b.dtype().name().c_str(), (long)b.dtype().number_of_elements()); return false; } }
    else { if (k == 0) return true; if (!b.dtype().is_number() || k != b.dtype().number_of_elements()) { if (a.dtype().is_floating_point() && k == 1 && b.dtype().is_string()) return true; fail("%s: %s x %ld reads back as %s", what, a.dtype().name().c_str(), (long)k, b.dtype().name().c_str()); return false; } }
    for (index_t i = 0; i < k; i++) {
        bool f, g; long I, J; unsigned long U, V; double p = el(a, i, f, I, U), q = el(b, i, g, J, V); bool ok;
        if (exact) ok = memcmp(a.element_ptr(i), b.element_ptr(i), a.dtype().element_bytes()) == 0;
        else if (f && g) ok = feq(p, q, true);
        else if (f) ok = false;
        else if (g) ok = !typed && std::fabs(q - (a.dtype().is_unsigned_integer() ? (double)U : (double)I)) <= std::fabs(q) * 1e-14;
        else { bool ua = a.dtype().is_unsigned_integer(), ub = b.dtype().is_unsigned_integer(); ok = ua == ub ? (ua ? U == V : I == J) : ua ? (J >= 0 && (unsigned long)J == U) : (I >= 0 && (unsigned long)I == V); }
        if (!ok) { fail("%s: element %ld of a %s leaf reads back as a different value (%g / %ld / %lu, was %g / %ld / %lu)", what, (long)i, a.dtype().name().c_str(), q, J, V, p, I, U); return false; }
    }
    return true;
}
static bool plainlist(const Node &n) { if (n.dtype().is_list()) return true; for (index_t i = 0; i < n.number_of_children(); i++) if (plainlist(n.child(i))) return true; return false; }
static void one() {
    Node n; gen(n, (int)ri(0, 4), (int)ri(0, 1)); if (n.number_of_children() == 0 && !n.dtype().is_object() && !n.dtype().is_list() && ri(0, 2)) { Node t; t["v"] = n; n.set(t); }
    long in = ri(0, 3); const char *pad = ri(0, 1) ? " " : "\t", *eoe = ri(0, 1) ? "\n" : " ";
    for (int k = 0; k < 4; k++) {
        static const char *P[] = {"conduit_json", "conduit_base64_json", "json", "conduit_json_external"};
        std::string t;
        try {
            where(P[k], "writing"); { std::string js = n.to_json(P[k], in, 0, pad, eoe); t = js; } where(P[k], "%s", t.c_str());
            Node b; b["old"] = 1; Generator(t, P[k]).walk(b); same(n, b, P[k], k == 1 || k == 3, k != 2);
            std::ostringstream o; n.to_json_stream(o, P[k], in, 0, pad, eoe); CHECK(o.str() == t, "to_json_stream writes a different text");
            Node c; c.parse(t, P[k]); same(b, c, "parse", false, true);
        } catch (const Error &e) { fail("error: %s", e.message().substr(0, 400).c_str()); }
    }
    try { std::string t = n.schema().to_json(in, 0, pad, eoe); where("schema", "%s", t.c_str()); Schema s(t); Schema s2; s2.set(t); std::vector<const Schema *> A{&n.schema()}, B{&s};
        while (A.size()) { const Schema *a = A.back(), *b = B.back(); A.pop_back(); B.pop_back(); const DataType &x = a->dtype(), &y = b->dtype(); CHECK(x.is_empty() ? y.is_empty() : x.id() == y.id() && x.number_of_elements() == y.number_of_elements() && x.offset() == y.offset() && x.stride() == y.stride() && x.element_bytes() == y.element_bytes(), "a leaf description reads back differently"); if (a->number_of_children() != b->number_of_children()) { fail("children"); break; } for (index_t i = 0; i < a->number_of_children(); i++) { CHECK(!x.is_object() || a->child_name(i) == b->child_name(i), "names"); A.push_back(&a->child(i)); B.push_back(&b->child(i)); } }
    } catch (const Error &e) { fail("error: %s", e.message().substr(0, 400).c_str()); }
}
static std::string ystr() { static const char *v[] = {"x", "hello world", "a\"b", "back\\slash", "line\nbreak", "tab\there", "# no", "- x", "a: b", "[1", "it's", "http://x/y"}; return v[ri(0, 11)]; }
static void ygen(Node &n, int depth) {
    static const char *K[] = {"a", "b c", "d/e", "f_1", "gh"};
    int k = (int)ri(0, depth > 0 ? 6 : 3);
    if (k == 0) { arr<int64>(n, 0); if (n.dtype().number_of_elements() == 0) n.set((int64)7); } else if (k == 1) { arr<float64>(n, 0); if (n.dtype().number_of_elements() == 0) n.set(2.5); } else if (k <= 3) n.set(ystr());
    else if (k <= 5) { int c = (int)ri(1, 4); for (int i = 0; i < c; i++) ygen(n.add_child(K[i]), depth - 1); }
    else { int c = (int)ri(1, 4); n.append().set(ystr()); for (int i = 0; i < c; i++) ygen(n.append(), depth - 1); }
}
static void yone() {
    Node n; ygen(n, 4); if (n.number_of_children() == 0) { Node t; t["v"] = n; n.set(t); }
    try { std::string t = n.to_yaml("yaml", ri(1, 3)); where("yaml", "%s", t.c_str()); Node b; Generator(t, "yaml").walk(b); same(n, b, "yaml", false, false); std::ostringstream o; n.to_yaml_stream(o); Node c; c.parse(o.str(), "yaml"); same(n, c, "yaml stream", false, false); } catch (const Error &e) { fail("error: %s", e.message().substr(0, 400).c_str()); }
}
int main(int argc, char **argv) { init(argc, argv); for (int r = 0; r < 500 * effort; r++) { one(); yone(); } return done(); }
