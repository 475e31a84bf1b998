#ifndef ARRAYS_HPP
#define ARRAYS_HPP
#include "drv.hpp"
using namespace conduit; using namespace drv;
template <class T> struct TI; 
#define TYS(X) X(int8,3) X(int16,4) X(int32,5) X(int64,6) X(uint8,7) X(uint16,8) X(uint32,9) X(uint64,10) X(float32,11) X(float64,12)
#define DEF(T,I) template <> struct TI<T> { enum { id = I }; static const char *name() { return #T; } };
TYS(DEF)
#undef DEF
// a value of type T that converts without undefined behaviour to every numeric type
template <class T> T small(int k) { return (T)(((k * 7 + 3) % 100)); }
template <class T> T wild() {
    switch (ri(0, 5)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::lowest(); case 2: return (T)0; case 3: return (T)1;
      default: return std::is_floating_point<T>::value ? (T)((double)ri(-1000000, 1000000) / 7.0) : (T)rnd(); }
}
// conversion U -> T is free of undefined behaviour for this value
template <class T, class U> bool ok(U u) {
    if (std::is_floating_point<U>::value && !std::is_floating_point<T>::value) { long double x = (long double)u; return x > (long double)std::numeric_limits<T>::lowest() - 1 && x < (long double)std::numeric_limits<T>::max() + 1; }
    if (sizeof(U) > sizeof(T) && std::is_floating_point<U>::value && std::is_floating_point<T>::value) return std::fabs((double)u) <= (double)std::numeric_limits<T>::max();
    return true;
}
// memory with guard pattern around a strided array
struct Mem {
    std::vector<uint8> b, old; DataType dt; index_t n, off, st; int eb;
    Mem(index_t id, int eb_, index_t n_, index_t off_, index_t st_) : n(n_), off(off_), st(st_), eb(eb_) {
        size_t sz = off + (n > 0 ? st * (n - 1) + eb : 0) + 24; b.resize(sz); for (auto &x : b) x = (uint8)(rnd() | 1); dt = DataType(id, n, off, st, eb, Endianness::DEFAULT_ID); snap(); }
    void snap() { old = b; }
    uint8 *at(index_t i) { return &b[off + st * i]; }
    template <class T> T get(index_t i) { T v; memcpy(&v, at(i), sizeof(T)); return v; }
    template <class T> T was(index_t i) { T v; memcpy(&v, &old[off + st * i], sizeof(T)); return v; }
    template <class T> void put(index_t i, T v) { memcpy(at(i), &v, sizeof(T)); }
    template <class T> void fillvals(int w) { for (index_t i = 0; i < n; i++) put<T>(i, w ? wild<T>() : small<T>((int)i)); snap(); }
    // every byte outside elements [lo,hi) is unchanged
    bool frame(index_t lo, index_t hi) { std::vector<char> in(b.size(), 0); for (index_t i = lo; i < hi; i++) for (int k = 0; k < eb; k++) in[off + st * i + k] = 1;
        for (size_t k = 0; k < b.size(); k++) if (!in[k] && b[k] != old[k]) return false; return true; }
};
struct Lay { index_t n, off, st; };
inline std::vector<Lay> lays(int eb, int extra) {
    std::vector<Lay> r; for (index_t n : {0, 1, 2, 3, 7}) for (index_t off : {0, 8}) for (index_t st : {eb, 2 * eb, 3 * eb + 8}) r.push_back({n, off, st});
    for (int k = 0; k < extra; k++) r.push_back({ri(0, 40), ri(0, 6) * 8, eb * ri(1, 5)});
    r.push_back({5, 3, eb + 1}); r.push_back({1031, 16, eb * 2});
    return r;
}
#endif
