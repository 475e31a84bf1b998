// C12: reading a node
#include "arrays.hpp"
template <class T> index_t idof() { return std::is_floating_point<T>::value ? (sizeof(T) == 4 ? 11 : 12) : (std::is_signed<T>::value ? 3 : 7) + (sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3); }
#define KINDS(X) X(int8, int8) X(int16, int16) X(int32, int32) X(int64, int64) X(uint8, uint8) X(uint16, uint16) X(uint32, uint32) X(uint64, uint64) X(float32, float32) X(float64, float64) \
  X(char, char) X(signed char, signed_char) X(short, short) X(signed short, signed_short) X(int, int) X(signed int, signed_int) X(long, long) X(signed long, signed_long) X(long long, long_long) X(signed long long, signed_long_long) \
  X(unsigned char, unsigned_char) X(unsigned short, unsigned_short) X(unsigned int, unsigned_int) X(unsigned long, unsigned_long) X(unsigned long long, unsigned_long_long) X(float, float) X(double, double)
#define ARRS(X) X(int8, int8) X(int16, int16) X(int32, int32) X(int64, int64) X(uint8, uint8) X(uint16, uint16) X(uint32, uint32) X(uint64, uint64) X(float32, float32) X(float64, float64) \
  X(char, char) X(short, short) X(int, int) X(long, long) X(signed long long, signed_long_long) X(unsigned char, unsigned_char) X(unsigned short, unsigned_short) X(unsigned int, unsigned_int) X(unsigned long, unsigned_long) X(unsigned long long, unsigned_long_long) X(float, float) X(double, double) X(index_t, index_t)
template <class U> void fromtype(int w)
{
    for (auto &l : lays(sizeof(U), effort)) {
        if (l.n > 100 && w) continue;
        Mem s(idof<U>(), sizeof(U), l.n, l.off, l.st); Node n; const Node &c = n; n.set_external(s.dt, &s.b[0]);
        char lay[80]; snprintf(lay, sizeof lay, "%s n=%ld offset=%ld stride=%ld", n.dtype().name().c_str(), (long)l.n, (long)l.off, (long)l.st);
#define FILL(T) { for (index_t i = 0; i < l.n; i++) { U v = w ? wild<U>() : small<U>((int)i); if (!ok<T, U>(v)) v = small<U>((int)i); s.put<U>(i, v); } s.snap(); }
#define ONE(T, NM) { FILL(T) bool mine = idof<T>() == idof<U>(); where("as_" #NM, "%s", lay); void *e0 = s.at(0); \
        CHECK((void *)n.as_##NM##_ptr() == (mine ? e0 : 0) && (void *)c.as_##NM##_ptr() == (mine ? e0 : 0), "pointer is not element 0 (or null)"); \
        { auto a = n.as_##NM##_array(); auto b = c.as_##NM##_array(); if (mine) CHECK(a.data_ptr() == &s.b[0] && b.data_ptr() == &s.b[0] && a.dtype().equals(s.dt) && b.dtype().equals(s.dt), "the view is not of this data"); else CHECK(a.number_of_elements() == 0 && b.number_of_elements() == 0, "a view of another type is not empty"); } \
        { auto a = c.as_##NM##_accessor(); CHECK(a.element_ptr(0) == (const void *)e0 && a.dtype().equals(s.dt), "the accessor is not of this data"); } \
        if (l.n > 0) { T want = (T)s.was<U>(0); T got = n.to_##NM(); CHECK(same(want, got), "to_" #NM " is wrong"); got = n.as_##NM(); T z = 0; CHECK(same(got, mine ? want : z), "as_" #NM " is wrong"); } CHECK(s.b == s.old, "reading changed the data"); }
        KINDS(ONE)
#define VAL(T) if (l.n > 0) { FILL(T) bool mine = idof<T>() == idof<U>(); where("value", "%s as " #T, lay); T want = (T)s.was<U>(0), z = 0; T a = n.value(); CHECK(same(a, mine ? want : z), "value()"); T b = c.value(); CHECK(same(b, mine ? want : z), "value() const"); T d = c.to_value(); CHECK(same(d, want), "to_value()"); \
        T *p = n.value(); const T *q = c.value(); CHECK((void *)p == (mine ? s.at(0) : 0) && (void *)q == (mine ? s.at(0) : 0), "value() as pointer"); DataArray<T> x = n.value(); CHECK(x.number_of_elements() == (mine ? l.n : 0), "value() as array"); DataAccessor<T> y = n.value(); CHECK(y.number_of_elements() == l.n, "value() as accessor"); }
        VAL(signed char) VAL(short) VAL(int) VAL(long) VAL(long long) VAL(unsigned char) VAL(unsigned short) VAL(unsigned int) VAL(unsigned long) VAL(unsigned long long) VAL(float) VAL(double)
        for (int k = 0; k < 4; k++) {
#define ARR(T, NM) { FILL(T) where("to_" #NM "_array", "%s into node kind %d", lay, k); Node r; Mem d(idof<T>(), sizeof(T), l.n + (k == 3), 8, sizeof(T) * 2); if (k == 1) r["x"] = 1; if (k >= 2) { r.set_external(d.dt, &d.b[0]); d.snap(); } n.to_##NM##_array(r); \
            CHECK(r.dtype().id() == idof<T>() && r.dtype().number_of_elements() == l.n + (k == 3), "the result is %s", r.dtype().to_string().c_str()); if (k >= 2) CHECK(d.frame(0, l.n) && r.data_ptr() == &d.b[0], "compatible memory is not reused exactly"); \
            for (index_t i = 0; i < l.n; i++) { T want = (T)s.was<U>(i), got; memcpy(&got, r.element_ptr(i), sizeof(T)); if (!same(want, got)) { fail("element %ld is wrong", (long)i); break; } } CHECK(s.b == s.old, "the source changed"); }
            if (l.n < 100) { ARRS(ARR) }
        }
        FILL(int8) for (index_t id = 3; id <= 12; id++) { where("to_data_type", "%s to %s", lay, DataType::id_to_name(id).c_str()); Node r; n.to_data_type(id, r); CHECK(r.dtype().id() == id && r.dtype().number_of_elements() == l.n, "another type"); for (index_t i = 0; i < l.n; i++) { Node e; e.set_external(DataType(id, 1, 0, r.dtype().element_bytes(), r.dtype().element_bytes(), 0), r.element_ptr(i)); CHECK(e.to_float64() == (float64)s.was<U>(i) || id == 11 || id >= 7 && id <= 10 || l.n > 7 || w, "element %ld differs", (long)i); } }
    }
}
static void others()
{
    for (int k = 0; k < 4; k++) { Node n; if (k == 1) n["a"] = 1; if (k == 2) n.append() = 1; if (k == 3) n = "17 apples";
#define NUM(T, NM) where("not numeric: " #NM, "kind %d", k); CHECK(n.as_##NM##_ptr() == 0 && n.as_##NM##_array().number_of_elements() == 0, "read as a number"); if (k < 3) CHECK(n.to_##NM() == 0, "converted to a number"); else CHECK(sizeof(T) == 1 || n.to_##NM() == (T)17, "text is not parsed");
        KINDS(NUM)
#define NAR(T, NM) { Node r; CHECK(throws([&] { n.to_##NM##_array(r); }), "converted to an array"); }
        where("not numeric arrays", "kind %d", k); ARRS(NAR)
        Node r; CHECK(throws([&] { n.to_data_type(5, r); }), "converted"); Node m; m = 5; CHECK(throws([&] { m.to_data_type(k == 3 ? 13 : k, r); }), "converted to a type that is not numeric");
        const Node &c = n; where("text", "kind %d", k); CHECK((n.as_char8_str() != 0) == (k == 3) && (c.as_char8_str() != 0) == (k == 3) && n.as_string() == (k == 3 ? "17 apples" : ""), "text"); }
    for (int r = 0; r < 200 * effort; r++) { std::string t; int L = ri(0, 40); for (int i = 0; i < L; i++) t += (char)ri(1, 255); Node n; n = t; where("text", "length %d", L); CHECK(n.as_string() == t && !strcmp(n.as_char8_str(), t.c_str()), "the text differs"); }
}
int main(int argc, char **argv)
{
    init(argc, argv);
#define GO(T, I) fromtype<T>(0); fromtype<T>(1);
    TYS(GO)
    others();
    return done();
}
