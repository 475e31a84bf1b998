#include "arrays.hpp"
template <class T, class V> void red(const char *key, V &a, const std::vector<T> &x, T probe)
{
    if (x.size()) {
        T mn = x[0], mx = x[0]; for (T v : x) { if (v < mn) mn = v; if (v > mx) mx = v; }
        CHECK(same((T)a.min(), mn) || (a.min() == mn), "min"); CHECK(same((T)a.max(), mx) || (a.max() == mx), "max");
    }
    T s = 0; double m = 0; index_t c = 0; for (T v : x) { s = (T)(s + v); m += v; if (v == probe) c++; }
    CHECK(same((T)a.sum(), s), "sum"); CHECK(a.count(probe) == c, "count %ld expected %ld", (long)a.count(probe), (long)c);
    if (x.size()) CHECK(same((double)a.mean(), m / (double)x.size()), "mean");
}
template <class T> T gen(int mode, int i, int n) {
    switch (mode) { case 0: return small<T>(i); case 1: return std::is_signed<T>::value ? (T)(-1 - (i * 13) % 100) : (T)(200 - i % 100); case 2: return (T)(i % 3); case 3: return wild<T>();
      case 4: return std::numeric_limits<T>::max(); case 5: return std::numeric_limits<T>::lowest(); default: return i == n - 1 ? (T)1 : (T)2; }
}
template <class T, class U> void acc()
{
    char key[100]; snprintf(key, sizeof key, "reduce.accessor.%s.on.%s", TI<T>::name(), TI<U>::name());
    for (auto &l : lays(sizeof(U), 1)) { where(key, "n=%ld off=%ld st=%ld", (long)l.n, (long)l.off, (long)l.st); Mem d(TI<U>::id, sizeof(U), l.n, l.off, l.st); std::vector<T> x;
        for (index_t i = 0; i < l.n; i++) { U v = gen<U>((int)ri(0, 2), (int)i, (int)l.n); if (!ok<T, U>(v)) v = small<U>((int)i); d.put<U>(i, v); x.push_back((T)v); }
        DataAccessor<T> a(&d.b[0], d.dt); red<T>(key, a, x, x.size() ? x[x.size() / 2] : (T)1); }
}
template <class T> void all()
{
    char key[100]; snprintf(key, sizeof key, "reduce.array.%s", TI<T>::name());
    for (auto &l : lays(sizeof(T), 4 * effort)) for (int mode = 0; mode < 7; mode++) {
        if (mode >= 3 && mode <= 5 && std::is_floating_point<T>::value && mode != 3) { }
        where(key, "n=%ld offset=%ld stride=%ld mode=%d", (long)l.n, (long)l.off, (long)l.st, mode);
        Mem d(TI<T>::id, sizeof(T), l.n, l.off, l.st); std::vector<T> x; for (index_t i = 0; i < l.n; i++) { T v = gen<T>(mode, (int)i, (int)l.n); d.put<T>(i, v); x.push_back(v); }
        DataArray<T> a(&d.b[0], d.dt); red<T>(key, a, x, x.size() ? x[x.size() - 1] : (T)1);
    }
#define ONE(U, I) acc<T, U>();
    TYS(ONE)
}
int main(int argc, char **argv) { init(argc, argv);
#define GO(T, I) all<T>();
    for (int r = 0; r < effort; r++) { TYS(GO) }
    return done(); }
