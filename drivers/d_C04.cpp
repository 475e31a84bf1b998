#include "arrays.hpp"
template <class T, class U> void pair(int lim)
{
    char key[100]; snprintf(key, sizeof key, "set.%s<-%s", TI<T>::name(), TI<U>::name());
    auto LA = lays(sizeof(T), 2 * effort); auto LB = lays(sizeof(U), 1);
    for (auto &l : LA) {
        Lay m = LB[ri(0, LB.size() - 1)];
        for (int w = 0; w < 2; w++) {
            where(key, "n=%ld offset=%ld stride=%ld src offset=%ld stride=%ld wild=%d", (long)l.n, (long)l.off, (long)l.st, (long)m.off, (long)m.st, w);
            Mem d(TI<T>::id, sizeof(T), l.n, l.off, l.st), s(TI<U>::id, sizeof(U), l.n + ri(0, 3), m.off, m.st);
            for (index_t i = 0; i < s.n; i++) { U v = w ? wild<U>() : small<U>((int)i); if (!ok<T, U>(v)) v = small<U>((int)i); s.put<U>(i, v); } s.snap();
            DataArray<T> a(&d.b[0], d.dt); const DataArray<T> &ca = a; DataArray<U> sa(&s.b[0], s.dt);
            for (index_t i = 0; i < l.n; i++) { CHECK((uint8 *)a.element_ptr(i) == d.at(i) && (uint8 *)ca.element_ptr(i) == d.at(i) && (uint8 *)&a[i] == d.at(i) && (uint8 *)&ca[i] == d.at(i) && (uint8 *)&a.element(i) == d.at(i), "element %ld is not addressed at offset + stride*i", (long)i); }
            CHECK(a.number_of_elements() == l.n && a.dtype().equals(d.dt), "view reports a different description");
#define EXPECT(what) for (index_t i = 0; i < l.n; i++) { T e = (T)s.was<U>(i); T g = d.get<T>(i); if (!same(e, g)) { fail(what ": element %ld is wrong", (long)i); break; } } CHECK(d.frame(0, l.n), what ": a byte outside the elements changed"); CHECK(s.b == s.old, what ": the source changed"); d.snap(); for (auto &x : d.b) x = (uint8)(rnd()|1); d.snap();
            a.set(sa); EXPECT("set(DataArray)")
            std::vector<U> raw; for (index_t i = 0; i < l.n; i++) raw.push_back(s.was<U>(i)); raw.push_back(U());
            a.set(&raw[0], l.n); EXPECT("set(pointer)")
            DataAccessor<U> acc(&s.b[0], s.dt); a.set(acc); EXPECT("set(DataAccessor)")
            if (l.n > 1) { // a source with fewer elements: only its elements are taken
                index_t k = ri(0, (int)l.n - 1); DataType sd(s.dt); sd.set_number_of_elements(k); DataArray<U> ss(&s.b[0], sd); DataAccessor<U> sx(&s.b[0], sd);
                for (int v = 0; v < 2; v++) { memset(&d.b[0], 0x3C, d.b.size()); d.snap(); if (v) a.set(sx); else a.set(ss);
                    for (index_t i = 0; i < k; i++) { T e = (T)s.was<U>(i); if (!same(e, d.get<T>(i))) { fail("set from a shorter view: element %ld is wrong", (long)i); break; } } CHECK(d.frame(0, k), "set from a shorter view writes beyond the elements of the source"); } }
            for (index_t i = 0; i < l.n; i++) { index_t j = (i * 5 + 1) % l.n; d.snap(); a.set(j, s.was<U>(j)); T e = (T)s.was<U>(j); CHECK(same(e, d.get<T>(j)) && d.frame(j, j + 1), "set(index,value) at %ld", (long)j); }
            d.snap();
            if (l.n > 0) { U v = s.was<U>(0); a.fill(v); T e = (T)v; for (index_t i = 0; i < l.n; i++) if (!same(e, d.get<T>(i))) { fail("fill: element %ld is wrong", (long)i); break; } CHECK(d.frame(0, l.n), "fill: a byte outside the elements changed"); d.snap(); }
            std::initializer_list<U> il = {small<U>(1), small<U>(2), small<U>(3)}; a.set(il);
            for (index_t i = 0; i < l.n && i < 3; i++) { T e = (T)small<U>(1 + (int)i); CHECK(same(e, d.get<T>(i)), "set(initializer_list): element %ld is wrong", (long)i); } CHECK(d.frame(0, l.n < 3 ? l.n : 3), "set(initializer_list): another byte changed"); d.snap();
        }
        // compaction
        where("compact_elements_to", "%s n=%ld offset=%ld stride=%ld", TI<T>::name(), (long)l.n, (long)l.off, (long)l.st);
        Mem d(TI<T>::id, sizeof(T), l.n, l.off, l.st); d.fillvals<T>(1); DataArray<T> a(&d.b[0], d.dt); std::vector<uint8> out(l.n * sizeof(T) + 16, 0xA5); a.compact_elements_to(&out[8]);
        for (index_t i = 0; i < l.n; i++) CHECK(!memcmp(&out[8 + i * sizeof(T)], d.at(i), sizeof(T)), "compacted element %ld differs", (long)i);
        for (int k = 0; k < 8; k++) CHECK(out[k] == 0xA5 && out[out.size() - 1 - k] == 0xA5, "compaction wrote outside its output"); CHECK(d.b == d.old, "compaction changed its source");
    }
}
template <class T> void all()
{
#define ONE(U, I) pair<T, U>(0);
    TYS(ONE)
}
int main(int argc, char **argv) {
    init(argc, argv);
#define GO(T, I) all<T>();
    for (int r = 0; r < effort; r++) { TYS(GO) }
    return done();
}
