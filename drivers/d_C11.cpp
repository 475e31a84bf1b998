#include "tree.hpp"
typedef std::vector<uint8> V;
static std::vector<std::unique_ptr<V>> pool;
static V *mem(size_t n) { pool.emplace_back(new V(n)); for (auto &x : *pool.back()) x = (uint8)rnd(); return pool.back().get(); }
static const char *TN[] = {"", "o", "l", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f4", "f8", "s"};
static void put(uint8 *p, index_t id, long long iv, double fv) {
    switch (id) { case 3: case 7: { int8 x = (int8)iv; memcpy(p, &x, 1); break; } case 4: case 8: { int16 x = (int16)iv; memcpy(p, &x, 2); break; } case 5: case 9: { int32 x = (int32)iv; memcpy(p, &x, 4); break; }
    case 6: case 10: { int64 x = (int64)iv; memcpy(p, &x, 8); break; } case 11: { float32 x = (float32)fv; memcpy(p, &x, 4); break; } case 12: memcpy(p, &fv, 8); break; default: *p = (uint8)iv; } }
static long long gi() { switch (ri(0, 6)) { case 0: return -1; case 1: return 255; case 2: return (long long)rnd(); case 3: return 1; case 4: return 127 + ri(0, 2); case 5: return 65535; default: return ri(-3, 3); } }
static double gf() { switch (ri(0, 9)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 1e300; case 4: return 1.0 + 1e-13; case 5: return 1.0 + 1e-11; case 6: return -0.0; default: return (double)ri(-2, 2); } }
struct Lay { index_t id, n, off, st; uint8 *p; };
static Lay lay(Node &nd, index_t id, index_t n) {
    index_t eb = DataType::default_bytes(id), st = ri(0, 2) ? eb : eb * ri(1, 3) + (ri(0, 3) == 0), off = ri(0, 2) ? 0 : ri(0, 12); size_t sz = (size_t)(off + (n ? st * (n - 1) + eb : 0));
    V *m = mem(sz + 1); nd.set_external(DataType(id, n, off, st, eb, Endianness::DEFAULT_ID), &(*m)[0]); return {id, n, off, st, &(*m)[0]};
}
static uint8 *el(const Node &n, index_t i) { return (uint8 *)n.data_ptr() + n.dtype().offset() + n.dtype().stride() * i; }
static long long iget(const Node &n, index_t i) { uint8 *p = el(n, i); switch (n.dtype().id()) { case 3: { int8 x; memcpy(&x, p, 1); return x; } case 4: { int16 x; memcpy(&x, p, 2); return x; } case 5: { int32 x; memcpy(&x, p, 4); return x; } case 6: case 10: { int64 x; memcpy(&x, p, 8); return x; }
    case 7: case 13: return *p; case 8: { uint16 x; memcpy(&x, p, 2); return x; } case 9: { uint32 x; memcpy(&x, p, 4); return x; } } return 0; }
static void leaf(Node &nd, std::string &d) {
    index_t id = ri(3, 13), n = ri(0, 6) == 0 ? 0 : ri(1, 4); if (id == 13 && n) n = ri(1, 5); Lay l = lay(nd, id, n); d += TN[id]; d += std::to_string(n) + ";";
    for (index_t i = 0; i < n; i++) put(l.p + l.off + l.st * i, id, id == 13 ? (ri(0, 4) ? 'a' + ri(0, 1) : 0) : gi(), gf());
    if (id == 13 && n) *(l.p + l.off + l.st * (n - 1)) = 0;
}
static void grow(Node &n, int depth, std::string &d) {
    int k = (int)ri(depth > 2 ? 4 : 0, 9);
    if (k <= 2) { d += "{"; n.set(DataType::object()); for (int i = (int)ri(0, 4); i > 0; i--) { std::string s = nm(); if (n.has_child(s)) continue; d += s + ":"; grow(n.add_child(s), depth + 1, d); } d += "}"; }
    else if (k == 3) { d += "["; n.set(DataType::list()); for (int i = (int)ri(0, 4); i > 0; i--) grow(n.append(), depth + 1, d); d += "]"; }
    else if (k == 4) d += "-;"; else leaf(n, d);
}
static int budget;      // how many differences to make
static bool hit(int p) { if (budget > 0 && ri(0, p) == 0) { budget--; return true; } return false; }
// a copy in another layout, with some differences
static void copy(const Node &a, Node &b, std::string &d) {
    const DataType &t = a.dtype();
    if (hit(9)) { grow(b, 2, d); d += "<repl>"; return; }
    if (t.is_object()) {
        b.set(DataType::object()); std::vector<index_t> o; for (index_t i = 0; i < a.number_of_children(); i++) o.push_back(i);
        if (ri(0, 2) == 0) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[(size_t)ri(0, (long)i - 1)]);
        for (auto i : o) { if (hit(8)) { d += "<drop>"; continue; } copy(a.child(i), b.add_child(a.schema().child_name(i)), d); }
        if (hit(5)) { std::string s = nm(); if (!b.has_child(s)) { grow(b.add_child(s), 3, d); d += "<add " + s + ">"; } }
    } else if (t.is_list()) {
        b.set(DataType::list()); index_t n = a.number_of_children(); if (hit(5) && n) { n--; d += "<short>"; }
        for (index_t i = 0; i < n; i++) copy(a.child(i), b.append(), d);
        if (hit(5)) { grow(b.append(), 3, d); d += "<long>"; }
    } else if (!t.is_empty()) {
        index_t n = t.number_of_elements(), m = n, id = t.id(); if (hit(5)) { m = ri(0, n + 1); d += "<n=" + std::to_string(m) + ">"; }
        if (id >= 3 && id <= 10 && hit(4)) { id = ri(3, 10); d += "<as " + std::string(TN[id]) + ">"; }
        if (id == 13 && m == 0 && n) m = n;
        Lay l = lay(b, id, m);
        for (index_t i = 0; i < m; i++) {
            uint8 *q = l.p + l.off + l.st * i; long long v = i < n ? iget(a, i) : gi();
            if (id == t.id() && i < n) memcpy(q, el(a, i), (size_t)DataType::default_bytes(id)); else put(q, id, id == 13 ? 'b' : v, gf());
            if (hit(5)) { put(q, id, id == 13 ? 'c' : gi(), gf()); d += "<e" + std::to_string(i) + ">"; }
        }
        if (id == 13 && m) *(l.p + l.off + l.st * (m - 1)) = 0;
    }
}
static std::string text(const Node &n) { std::string s; for (index_t i = 0; i < n.dtype().number_of_elements(); i++) { char c = (char)*el(n, i); if (!c) break; s += c; } return s; }
template <class F> static bool fdiff(const Node &a, const Node &b, index_t n, double eps) {
    for (index_t i = 0; i < n; i++) { F x, y; memcpy(&x, el(a, i), sizeof x); memcpy(&y, el(b, i), sizeof y); F e = (F)(x - y); if ((double)e > eps || (double)e < -eps || std::isnan(x) != std::isnan(y)) return true; } return false; }
// do they differ, by definition?
static bool ref(const Node &a, const Node &b, double eps, bool rx, bool comp) {
    const DataType &t = a.dtype(), &u = b.dtype();
    if (t.id() != u.id()) {
        if (!rx || !t.is_integer() || !u.is_integer()) return true;
        index_t n = t.number_of_elements(), m = u.number_of_elements(); if (comp ? n > m : n != m) return true;
        for (index_t i = 0; i < n; i++) { __int128 x = iget(a, i), y = iget(b, i); if (t.id() == 10) x = (unsigned long long)iget(a, i); if (u.id() == 10) y = (unsigned long long)iget(b, i); if (x != y) return true; }
        return false;
    }
    if (t.is_empty()) return false;
    if (t.is_object()) {
        for (index_t i = 0; i < a.number_of_children(); i++) { std::string n = a.schema().child_name(i); if (!b.has_child(n) || ref(a.child(i), b.child(n), eps, rx, comp)) return true; }
        if (!comp) for (index_t i = 0; i < b.number_of_children(); i++) if (!a.has_child(b.schema().child_name(i))) return true;
        return false;
    }
    if (t.is_list()) { index_t n = a.number_of_children(), m = b.number_of_children(); if (comp ? n > m : n != m) return true; for (index_t i = 0; i < n; i++) if (ref(a.child(i), b.child(i), eps, rx, comp)) return true; return false; }
    index_t n = t.number_of_elements(), m = u.number_of_elements();
    if (t.id() == 13) { if (!n || !m) return n != m; std::string x = text(a), y = text(b); return comp ? y.compare(0, x.size(), x) != 0 : x != y; }
    if (comp ? n > m : n != m) return true;
    if (t.id() == 11) return fdiff<float32>(a, b, n, eps);
    if (t.id() == 12) return fdiff<float64>(a, b, n, eps);
    for (index_t i = 0; i < n; i++) if (memcmp(el(a, i), el(b, i), (size_t)DataType::default_bytes(t.id()))) return true;
    return false;
}
static bool sref(const Schema &a, const Schema &b, bool comp) {
    const DataType &t = a.dtype(), &u = b.dtype(); if (t.id() != u.id()) return false;
    if (t.is_object()) {
        for (index_t i = 0; i < a.number_of_children(); i++) { std::string n = a.child_name(i); if (!b.has_child(n)) { if (!comp) return false; continue; } if (!sref(a.child(i), b.child(n), comp)) return false; }
        if (!comp) for (index_t i = 0; i < b.number_of_children(); i++) if (!a.has_child(b.child_name(i))) return false;
        return true;
    }
    if (t.is_list()) { index_t n = a.number_of_children(), m = b.number_of_children(); if (comp ? n < m : n != m) return false; for (index_t i = 0; i < m; i++) if (!sref(a.child(i), b.child(i), comp)) return false; return true; }
    if (comp) return t.element_bytes() == u.element_bytes() && t.number_of_elements() >= u.number_of_elements();
    return t.number_of_elements() == u.number_of_elements() && t.offset() == u.offset() && t.stride() == u.stride() && t.element_bytes() == u.element_bytes() && t.endianness() == u.endianness();
}
static void both(const Node &a, const Node &b, const std::string &d) {
    double E[] = {1e-12, 0, 0.5, 1e-30, 1.5}; double eps = E[ri(0, 4)]; bool rx = ri(0, 1);
    for (int w = 0; w < 2; w++) {
        const Node &x = w ? b : a, &y = w ? a : b; Node info; if (ri(0, 1)) info["old"] = 1;
        where("diff", "%s rx=%d eps=%g w=%d", d.c_str(), rx, eps, w); bool g = x.diff(y, info, eps, rx); CHECK(g == ref(x, y, eps, rx, false), "diff says %d, by definition %d", g, !g);
        CHECK(info.has_child("valid") && info["valid"].as_string() == (g ? "false" : "true"), "the report's verdict is not the returned one");
        where("diff_compatible", "%s rx=%d eps=%g w=%d", d.c_str(), rx, eps, w); g = x.diff_compatible(y, info, eps, rx); CHECK(g == ref(x, y, eps, rx, true), "diff_compatible says %d, by definition %d", g, !g);
        CHECK(info.has_child("valid") && info["valid"].as_string() == (g ? "false" : "true"), "the report's verdict is not the returned one");
        where("schema.equals", "%s w=%d", d.c_str(), w); g = x.schema().equals(y.schema()); CHECK(g == sref(x.schema(), y.schema(), false), "equals says %d", g);
        where("schema.compatible", "%s w=%d", d.c_str(), w); g = x.schema().compatible(y.schema()); CHECK(g == sref(x.schema(), y.schema(), true), "compatible says %d", g);
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (int k = 0; k < 6000 * effort; k++) {
        pool.clear(); Node a, b; std::string d; grow(a, ri(0, 2) ? 0 : 3, d); d += " | "; budget = (int)(ri(0, 2) ? ri(0, 1) : ri(1, 3)); copy(a, b, d); both(a, b, d);
        Node info; where("diff.self", "%s", d.c_str()); CHECK(!a.diff(a, info), "a tree differs from itself"); Node c; c.set(a); CHECK(!a.diff(c, info) && !c.diff(a, info), "a copy differs"); CHECK(a.schema().equals(a.schema()), "a schema differs from itself");
    }
    // every pair of short texts
    std::vector<std::string> tx = {""}; for (size_t i = 0; i < tx.size(); i++) if (tx[i].size() < 4) { tx.push_back(tx[i] + "a"); tx.push_back(tx[i] + "b"); }
    for (auto &x : tx) for (auto &y : tx) { pool.clear(); Node a, b; Lay l = lay(a, 13, (index_t)x.size() + 1), m = lay(b, 13, (index_t)y.size() + 1); for (size_t i = 0; i <= x.size(); i++) l.p[l.off + l.st * (long)i] = (uint8)x.c_str()[i]; for (size_t i = 0; i <= y.size(); i++) m.p[m.off + m.st * (long)i] = (uint8)y.c_str()[i];
        Node info; where("diff.text", "'%s' '%s'", x.c_str(), y.c_str()); bool g = a.diff(b, info); CHECK(g == (x != y), "says %d", g); g = a.diff_compatible(b, info); CHECK(g == (y.compare(0, x.size(), x) != 0), "compatible says %d", g); }
    // a relaxed comparison of every pair of integer types, on edge values
    long long ev[] = {0, 1, -1, 127, 128, 255, 256, 32768, 65535, 2147483648ll, 4294967295ll, (long long)0x8000000000000000ull, 0x7fffffffffffffffll};
    for (index_t t = 3; t <= 10; t++) for (index_t u = 3; u <= 10; u++) for (auto x : ev) for (auto y : ev) { pool.clear(); Node a, b; Lay l = lay(a, t, 2), m = lay(b, u, 2); put(l.p + l.off, t, 5, 0); put(m.p + m.off, u, 5, 0); put(l.p + l.off + l.st, t, x, 0); put(m.p + m.off + m.st, u, y, 0);
        Node info; where("diff.relaxed", "%s %lld %s %lld", TN[t], x, TN[u], y); bool g = a.diff(b, info, 1e-12, true); CHECK(g == ref(a, b, 1e-12, true, false), "says %d", g); g = a.diff_compatible(b, info, 1e-12, true); CHECK(g == ref(a, b, 1e-12, true, true), "compatible says %d", g); }
    return done();
}
