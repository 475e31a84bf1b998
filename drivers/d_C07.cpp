// C07: setting a node stores exactly the values given
#include "arrays.hpp"
template <class T> index_t idof() { return std::is_floating_point<T>::value ? (sizeof(T) == 4 ? 11 : 12) : (std::is_signed<T>::value ? 3 : 7) + (sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3); }
template <class T> struct Nm { static const char *n() { return "?"; } };
#define NM(T) template <> struct Nm<T> { static const char *n() { return #T; } };
NM(char) NM(signed char) NM(short) NM(int) NM(long) NM(long long) NM(unsigned char) NM(unsigned short) NM(unsigned int) NM(unsigned long) NM(unsigned long long) NM(float) NM(double)
static const char *PREP[] = {"empty", "compatible", "other owned leaf", "other external leaf", "object", "list", "shorter", "string"};
// a node prepared in one of the ways; `hold` keeps external memory alive
struct Prep { Node root; Node *n; Mem *m; std::vector<int16> oth, oth0; bool kept; Prep() : n(0), m(0), kept(false) {} ~Prep() { root.reset(); delete m; } };
template <class T> void prep(Prep &p, int k, index_t need, bool nested)
{
    p.n = nested ? &p.root["a/b"] : &p.root; Node &n = *p.n;
    if (k == 1) { index_t ex = ri(0, 3); index_t st = sizeof(T) * ri(1, 3) + (ri(0, 3) == 0 ? 8 : 0); p.m = new Mem(idof<T>(), sizeof(T), need + ex, ri(0, 3) * 8, st); n.set_external(p.m->dt, &p.m->b[0]); p.m->snap(); p.kept = true; }
    if (k == 2) { if (idof<T>() == 12) n.set(std::vector<int>(5, 3)); else n.set(std::vector<double>(4, 2.5)); }
    if (k == 3) { p.oth.assign(9, 77); p.oth0 = p.oth; if (idof<T>() == 4) n.set_external((uint16 *)&p.oth[0], 9); else n.set_external(&p.oth[0], 9); }
    if (k == 4) { n["x"] = 1; n["y/z"] = 2.0; }
    if (k == 5) { n.append() = 1; n.append() = "q"; }
    if (k == 6) { if (need > 0) { std::vector<T> v(need - 1); n.set(v); } }
    if (k == 7) n.set("some text");
}
template <class T> void after(Prep &p, Node &n, const std::vector<T> &w, const char *what)
{
    index_t c = (index_t)w.size();
    if (p.kept) { CHECK(n.data_ptr() == (void *)&p.m->b[0], "%s: compatible memory is not reused", what); CHECK(n.dtype().equals(p.m->dt), "%s: the description of a compatible node changed", what); CHECK(p.m->frame(0, c), "%s: a byte outside the elements changed", what); }
    else { CHECK(n.dtype().id() == idof<T>() && n.dtype().number_of_elements() == c && n.dtype().element_bytes() == (index_t)sizeof(T) && n.number_of_children() == 0, "%s: the node has another description: %s", what, n.dtype().to_string().c_str()); }
    CHECK(p.oth == p.oth0, "%s: memory the node described before was written", what);
    for (index_t i = 0; i < c; i++) { T v; memcpy(&v, n.element_ptr(i), sizeof(T)); if (!same(v, w[i])) { fail("%s: element %ld differs", what, (long)i); break; } }
}
template <class T> void one()
{
    typedef std::vector<T> V; char key[80];
    for (auto &l : lays(sizeof(T), effort)) for (int k = 0; k < 8; k++) {
        if (l.n > 100 && k > 1) continue;
        Mem s(idof<T>(), sizeof(T), l.n, l.off, l.st); for (index_t i = 0; i < l.n; i++) s.put<T>(i, wild<T>()); s.snap();
        V w; for (index_t i = 0; i < l.n; i++) w.push_back(s.get<T>(i));
        DataArray<T> view(&s.b[0], s.dt);
#define RUN(tag, need, want, nested, stmt) { Prep p; prep<T>(p, k, need, nested); Node &n = *p.n; Node &r = p.root; (void)n; (void)r; snprintf(key, sizeof key, "%s<%s>", tag, Nm<T>::n()); where(key, "n=%ld offset=%ld stride=%ld onto %s", (long)l.n, (long)l.off, (long)l.st, PREP[k]); stmt; after<T>(p, nested ? r["a/b"] : n, want, tag); CHECK(s.b == s.old, "the source changed"); }
        RUN("set(DataArray)", l.n, w, false, n.set(view)) RUN("operator=(DataArray)", l.n, w, false, n = view) RUN("set_path(DataArray)", l.n, w, true, r.set_path("a/b", view))
        RUN("set(vector)", l.n, w, false, n.set(w)) RUN("operator=(vector)", l.n, w, false, n = w) RUN("set_path(vector)", l.n, w, true, r.set_path("a/b", w))
        if (l.n == 1) { T x = w[0]; RUN("set(scalar)", 1, w, false, n.set(x)) RUN("operator=(scalar)", 1, w, false, n = x) RUN("set_path(scalar)", 1, w, true, r.set_path("a/b", x)) }
        if (l.n == 3) { std::initializer_list<T> il = {w[0], w[1], w[2]}; RUN("set(initializer_list)", 3, w, false, n.set(il)) RUN("operator=(initializer_list)", 3, w, false, n = il) }
        // external
        for (int v = 0; v < 4; v++) { Prep p; prep<T>(p, k, l.n + 1, v >= 2); snprintf(key, sizeof key, "set_external<%s>", Nm<T>::n()); where(key, "form %d n=%ld offset=%ld stride=%ld onto %s", v, (long)l.n, (long)l.off, (long)l.st, PREP[k]); Node &n = *p.n;
            DataType want = s.dt; void *mem = &s.b[0]; V w2 = w;
            if (v == 0) n.set_external(view); else if (v == 1) n.set_external(w2); else if (v == 2) p.root.set_path_external("a/b", view); else p.root.set_path_external("a/b", w2);
            if (v & 1) { want = DataType(idof<T>(), l.n, 0, sizeof(T), sizeof(T), Endianness::DEFAULT_ID); mem = l.n ? (void *)&w2[0] : 0; }
            Node &g = v >= 2 ? p.root["a/b"] : n; CHECK(g.dtype().equals(want), "the description is %s instead of %s", g.dtype().to_string().c_str(), want.to_string().c_str()); if (l.n) CHECK(g.data_ptr() == mem, "the data pointer is not the memory given"); CHECK(g.number_of_children() == 0, "children are left");
            CHECK(s.b == s.old && (p.m == 0 || p.m->b == p.m->old) && p.oth == p.oth0, "memory was written"); g.reset(); }
    }
}
#define FIXED(X) static void fixed_##X() { typedef X T; const char *tn = #X; for (auto &l : lays(sizeof(T), effort)) for (int k = 0; k < 8; k++) { if (l.n > 100) continue; \
    Mem s(idof<T>(), sizeof(T), l.n, l.off, l.st); for (index_t i = 0; i < l.n; i++) s.put<T>(i, wild<T>()); s.snap(); std::vector<T> w; for (index_t i = 0; i < l.n; i++) w.push_back(s.get<T>(i)); DataArray<T> view(&s.b[0], s.dt); T *sp = (T *)&s.b[0]; char key[80]; \
    RUN("set(ptr)", l.n, w, false, n.set(sp, l.n, l.off, l.st)) RUN("set_path(ptr)", l.n, w, true, r.set_path("a/b", sp, l.n, l.off, l.st)) RUN("set_T_ptr", l.n, w, false, n.set_##X##_ptr(sp, l.n, l.off, l.st)) RUN("set_path_T_ptr", l.n, w, true, r.set_path_##X##_ptr("a/b", sp, l.n, l.off, l.st)) \
    RUN("set_T_array", l.n, w, false, n.set_##X##_array(view)) RUN("set_path_T_array", l.n, w, true, r.set_path_##X##_array("a/b", view)) RUN("set_T_vector", l.n, w, false, n.set_##X##_vector(w)) RUN("set_path_T_vector", l.n, w, true, r.set_path_##X##_vector("a/b", w)) \
    if (l.n == 1) { T x = w[0]; RUN("set_T", 1, w, false, n.set_##X(x)) RUN("set_path_T", 1, w, true, r.set_path_##X("a/b", x)) } \
    for (int v = 0; v < 6; v++) { Prep p; prep<T>(p, k, l.n + 1, v & 1); snprintf(key, sizeof key, "set_external_T<%s>", tn); where(key, "form %d n=%ld offset=%ld stride=%ld onto %s", v, (long)l.n, (long)l.off, (long)l.st, PREP[k]); Node &n = *p.n, &r = p.root; \
        if (v == 0) n.set_external(sp, l.n, l.off, l.st, sizeof(T), Endianness::BIG_ID); if (v == 1) r.set_path_external("a/b", sp, l.n, l.off, l.st); if (v == 2) n.set_external_##X##_ptr(sp, l.n, l.off, l.st); if (v == 3) r.set_path_external_##X##_ptr("a/b", sp, l.n, l.off, l.st); if (v == 4) n.set_external_##X##_array(view); if (v == 5) r.set_path_external_##X##_array("a/b", view); \
        Node &g = (v & 1) ? r["a/b"] : n; DataType want(s.dt); if (v == 0) want.set_endianness(Endianness::BIG_ID); CHECK(g.dtype().equals(want), "the description is %s instead of %s", g.dtype().to_string().c_str(), want.to_string().c_str()); CHECK(g.data_ptr() == (void *)sp, "the data pointer is not the memory given"); CHECK(s.b == s.old, "memory was written"); g.reset(); } } }
FIXED(int8) FIXED(int16) FIXED(int32) FIXED(int64) FIXED(uint8) FIXED(uint16) FIXED(uint32) FIXED(uint64) FIXED(float32) FIXED(float64)
static void strings()
{
    for (int r = 0; r < 60 * effort; r++) for (int k = 0; k < 9; k++) {
        std::string t; int L = ri(0, 3) ? ri(0, 12) : ri(0, 300); for (int i = 0; i < L; i++) t += (char)ri(1, 255);
        for (int v = 0; v < 7; v++) { Prep p; bool nested = v >= 4; Mem *m = 0;
            if (k == 8) { p.n = nested ? &p.root["a/b"] : &p.root; m = p.m = new Mem(13, 1, L + 1 + ri(0, 3), ri(0, 9), ri(1, 3)); p.n->set_external(m->dt, &m->b[0]); m->snap(); p.kept = true; } else prep<char>(p, k, 4, nested);
            where("set.string", "form %d length %d onto %s", v, L, k == 8 ? "compatible string" : PREP[k]); Node &n = *p.n;
            switch (v) { case 0: n.set(t); break; case 1: n = t; break; case 2: n.set_string(t); break; case 3: n.set_char8_str(t.c_str()); break; case 4: p.root.set_path("a/b", t); break; case 5: p.root.set_path_string("a/b", t); break; default: p.root.set_path_char8_str("a/b", t.c_str()); }
            Node &g = nested ? p.root["a/b"] : n; CHECK(g.dtype().id() == 13 && g.number_of_children() == 0, "not a string");
            bool ok = true; for (int i = 0; i <= L; i++) if (*(char *)g.element_ptr(i) != t.c_str()[i]) ok = false; CHECK(ok, "the characters differ");
            if (m) CHECK(g.dtype().equals(m->dt) && m->frame(0, L + 1) && g.data_ptr() == &m->b[0], "a compatible string is not reused exactly"); else if (k != 7) CHECK(g.dtype().number_of_elements() == L + 1, "the count is not the length plus the terminator");
            if (!m || m->st == 1) CHECK(g.as_string() == t && t == g.as_char8_str(), "it reads back as another string"); }
        std::vector<char> c(t.begin(), t.end()); c.push_back(0); Node n; n["x"] = 3; where("set_external_char8_str", "length %d", L); n.set_external_char8_str(&c[0]); CHECK(n.data_ptr() == &c[0] && n.dtype().equals(DataType::char8_str(L + 1)) && n.as_string() == t, "external string is wrong"); n.reset();
    }
}
static void described()
{
    for (int r = 0; r < 400 * effort; r++) {
        index_t id = ri(3, 13), eb = DataType::default_bytes(id); Mem s(id, eb, ri(0, 9), ri(0, 9), eb * ri(1, 3) + ri(0, 1) * 3); s.dt.set_endianness(ri(0, 2)); Prep p; int k = ri(0, 7); prep<int>(p, k, 3, false); p.kept = false;
        int v = ri(0, 5); where("set(dtype,data)", "form %d %s onto %s", v, s.dt.to_string().c_str(), PREP[k]); Node &n = *p.n; Node q; Node *g = &n;
        if (v == 0) n.set(s.dt, &s.b[0]); if (v == 1) n.set_data_using_dtype(s.dt, &s.b[0]); if (v == 2) { p.root.set_path("u/v", s.dt, &s.b[0]); g = &p.root["u/v"]; } if (v == 3) n.set_external(s.dt, &s.b[0]); if (v == 4) n.set_external_data_using_dtype(s.dt, &s.b[0]); if (v == 5) { p.root.set_path_external("u/v", s.dt, &s.b[0]); g = &p.root["u/v"]; }
        CHECK(g->dtype().equals(s.dt) && g->number_of_children() == 0, "the description is %s", g->dtype().to_string().c_str()); CHECK(s.b == s.old, "the memory given was written");
        if (v >= 3) CHECK(g->data_ptr() == &s.b[0], "not the memory given"); else { CHECK(g->data_ptr() != &s.b[0], "the data is not copied"); for (index_t i = 0; i < s.n; i++) if (memcmp(g->element_ptr(i), s.at(i), eb)) { fail("element %ld differs", (long)i); break; } }
        for (int e = 0; e < 2; e++) { Node x(s.dt, &s.b[0], e == 1); CHECK(x.dtype().equals(s.dt) && (x.data_ptr() == (void *)&s.b[0]) == (e == 1), "constructor from description and data, external=%d", e); if (s.n && !e) CHECK(!memcmp(x.element_ptr(s.n - 1), s.at(s.n - 1), eb), "constructor copies other data"); }
        p.root.reset();
    }
    // values given in another byte order keep their order mark
    int32 be = 0x01000000; Node n; where("set.ptr.endianness", "one big-endian int32"); n.set(&be, 1, 0, 4, 4, Endianness::BIG_ID); n.endian_swap_to_machine_default(); CHECK(n.as_int32() == 1, "a value given as big-endian is stored as if it were in machine order");
}
int main(int argc, char **argv)
{
    init(argc, argv);
    one<char>(); one<signed char>(); one<short>(); one<int>(); one<long>(); one<long long>(); one<unsigned char>(); one<unsigned short>(); one<unsigned int>(); one<unsigned long>(); one<unsigned long long>(); one<float>(); one<double>();
    fixed_int8(); fixed_int16(); fixed_int32(); fixed_int64(); fixed_uint8(); fixed_uint16(); fixed_uint32(); fixed_uint64(); fixed_float32(); fixed_float64();
    strings(); described();
    return done();
}
