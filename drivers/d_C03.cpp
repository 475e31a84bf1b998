#include "arrays.hpp"
static int NB(int id) { return id == 13 ? 1 : DataType::default_bytes(id); }
int main(int argc, char **argv) {
    init(argc, argv);
    for (int r = 0; r < 200 * effort; r++) {
        where("swap", "round %d", r);
        uint8 a[24], b[24], c[24], d[24]; for (int i = 0; i < 24; i++) a[i] = (uint8)rnd();
#define T(bits, fn) { int n = bits / 8; memcpy(b, a, 24); Endianness::fn(b + 8); for (int i = 0; i < 24; i++) { uint8 e = i >= 8 && i < 8 + n ? a[8 + n - 1 - (i - 8)] : a[i]; CHECK(b[i] == e, #fn " in place, byte %d", i); } \
        memcpy(b, a, 24); memset(c, 0x5a, 24); Endianness::fn(b + 8, c + 8); CHECK(!memcmp(a, b, 24), #fn " changed its source"); for (int i = 0; i < 24; i++) { uint8 e = i >= 8 && i < 8 + n ? a[8 + n - 1 - (i - 8)] : 0x5a; CHECK(c[i] == e, #fn " two arguments, byte %d", i); } }
        T(16, swap16) T(32, swap32) T(64, swap64)
    }
    for (int id = 3; id <= 13; id++) for (auto &l : lays(NB(id), 6 * effort)) for (int e0 = 0; e0 < 3; e0++) for (int e1 = 0; e1 < 3; e1++) {
        where("node", "id=%d n=%ld offset=%ld stride=%ld from=%d to=%d", id, (long)l.n, (long)l.off, (long)l.st, e0, e1);
        int nb = NB(id); Mem m(id, nb, l.n, l.off, l.st); m.dt.set_endianness(e0); Node n; n.set_external(m.dt, &m.b[0]); n.endian_swap(e1);
        int f = e0 ? e0 : 2, t = e1 ? e1 : 2;
        for (index_t i = 0; i < l.n; i++) for (int k = 0; k < nb; k++) { uint8 w = m.old[l.off + l.st * i + (f != t ? nb - 1 - k : k)]; if (m.at(i)[k] != w) { fail("element %ld byte %d", (long)i, k); i = l.n; break; } }
        CHECK(m.frame(0, l.n), "a byte outside the elements changed"); CHECK(n.dtype().endianness() == t && n.dtype().number_of_elements() == l.n && n.dtype().stride() == l.st && n.dtype().offset() == l.off && n.dtype().id() == id, "description");
        n.endian_swap(e0); CHECK(m.b == m.old, "swapping back does not restore the bytes");
    }
    for (int r = 0; r < 50 * effort; r++) {   // trees: every leaf exactly once
        where("tree", "round %d", r); Node n; std::vector<std::pair<std::string, uint32>> v; int leaves = ri(0, 8);
        for (int i = 0; i < leaves; i++) { std::string p; int d = ri(0, 3); for (int k = 0; k < d; k++) p += std::string("g") + char('a' + ri(0, 2)) + "/"; p += "leaf" + std::to_string(i); uint32 x = (uint32)rnd(); n[p] = x; v.push_back({p, x}); }
        Node &l = n["alist"]; for (int i = 0; i < 3; i++) { l.append() = (uint32)(i * 77 + 5); }
        n.endian_swap_to_big(); bool ok1 = true; for (auto &p : v) { uint32 y = n[p.first].as_uint32(); uint32 z = __builtin_bswap32(p.second); ok1 &= y == z && n[p.first].dtype().endianness() == 1; } for (int i = 0; i < 3; i++) ok1 &= l[i].as_uint32() == __builtin_bswap32(i * 77 + 5);
        CHECK(ok1, "some leaf was not swapped exactly once"); n.endian_swap_to_machine_default(); for (auto &p : v) CHECK(n[p.first].as_uint32() == p.second, "not restored");
    }
    return done();
}
