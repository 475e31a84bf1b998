#include "arrays.hpp"
template <class T, class U> void pair()
{
    char key[100]; snprintf(key, sizeof key, "accessor.%s.on.%s", TI<T>::name(), TI<U>::name());
    for (auto &l : lays(sizeof(U), 3 * effort)) for (int w = 0; w < 2; w++) {
        where(key, "n=%ld offset=%ld stride=%ld wild=%d", (long)l.n, (long)l.off, (long)l.st, w);
        Mem d(TI<U>::id, sizeof(U), l.n, l.off, l.st);
        for (index_t i = 0; i < l.n; i++) { U v = w ? wild<U>() : small<U>((int)i); if (!ok<T, U>(v)) v = small<U>((int)i); d.put<U>(i, v); } d.snap();
        DataAccessor<T> a(&d.b[0], d.dt), b(a), c; c = a; DataAccessor<T> e((const void *)&d.b[0], d.dt);
        CHECK(a.number_of_elements() == l.n && b.number_of_elements() == l.n && c.number_of_elements() == l.n, "count");
        for (index_t i = 0; i < l.n; i++) { T x = (T)d.was<U>(i); CHECK(same(x, a.element(i)) && same(x, b[i]) && same(x, c[i]) && same(x, e.element(i)) && (uint8 *)a.element_ptr(i) == d.at(i), "element %ld is not the converted value", (long)i); }
        CHECK(d.b == d.old, "reading changed memory");
        for (index_t i = 0; i < l.n; i++) { index_t j = (i * 3 + 2) % l.n; T v = w ? wild<T>() : small<T>((int)j); if (!ok<U, T>(v)) v = small<T>((int)j); d.snap(); a.set(j, v); U x = (U)v; CHECK(same(x, d.get<U>(j)) && d.frame(j, j + 1), "set(%ld)", (long)j); }
        d.snap(); T v = w ? wild<T>() : small<T>(5); if (!ok<U, T>(v)) v = small<T>(5); a.fill(v); U x = (U)v;
        for (index_t i = 0; i < l.n; i++) if (!same(x, d.get<U>(i))) { fail("fill: element %ld", (long)i); break; } CHECK(d.frame(0, l.n), "fill: a byte outside the elements changed");
    }
}
template <class T> void all() {
#define ONE(U, I) pair<T, U>();
    TYS(ONE)
    for (int id : {0, 1, 2, 13}) { where("accessor.nonnumeric", "%s id=%d", TI<T>::name(), id); char buf[64] = {0}; DataAccessor<T> a(buf, DataType(id, 1, 0, 1, 1, 0));
        CHECK(throws([&] { a.element(0); }) && throws([&] { a.set(0, (T)1); }) && throws([&] { a.fill((T)1); }), "no error for a non-numeric description"); }
}
int main(int argc, char **argv) { init(argc, argv);
#define GO(T, I) all<T>();
    for (int r = 0; r < effort; r++) { TYS(GO) }
    return done(); }
