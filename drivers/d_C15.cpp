// C15: update, update_compatible and update_external against a reference merge
#include "arrays.hpp"
#include <list>
#include <memory>
struct Buf { std::vector<uint8> b, want; };
static std::list<Buf> BUFS;
struct V {
    int kind = 0; int tid = 0; std::string name; std::vector<std::unique_ptr<V>> kids; std::vector<std::vector<uint8>> el;   // 0 empty, 1 object, 2 list, 3 leaf
    const char *p0 = nullptr; index_t stride = 0; Buf *buf = nullptr; index_t boff = 0; bool fresh = false;
    V *add(const std::string &n) { if (kind != 1) { kids.clear(); el.clear(); kind = 1; } for (auto &k : kids) if (k->name == n) return k.get(); kids.emplace_back(new V); kids.back()->name = n; return kids.back().get(); }
    V *app() { if (kind != 2) { kids.clear(); el.clear(); kind = 2; } kids.emplace_back(new V); return kids.back().get(); }
};
static const int IDS[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};
static void mk(Node &n, V &v, int depth, const std::string *like)
{
    int k = (int)ri(0, depth > 0 ? 9 : 5);
    if (k == 0) { v.kind = 0; return; }
    if (k >= 8) { v.kind = 2; n.set(DataType::list()); int c = (int)ri(0, 4); for (int i = 0; i < c; i++) { Node &m = n.append(); mk(m, *v.app(), depth - 1, like); } return; }
    if (k >= 6) { v.kind = 1; n.set(DataType::object()); int c = (int)ri(0, 4); static const char *nm[] = {"a", "b", "c", "x/y", "a b", ""}; for (int i = 0; i < c; i++) { std::string s = nm[ri(0, 4)]; bool had = false; for (auto &q : v.kids) had |= q->name == s; if (had) continue; Node &m = n.add_child(s); mk(m, *v.add(s), depth - 1, like); } return; }
    v.kind = 3; v.tid = IDS[ri(0, 3) ? ri(4, 6) : ri(0, 10)]; index_t eb = DataType::default_bytes(v.tid), cnt = ri(0, 9) ? ri(1, 6) : ri(0, 1); bool ext = ri(0, 2) > 0;
    index_t st = ext && ri(0, 1) ? eb * ri(1, 3) + (ri(0, 3) == 0 ? eb : 0) : eb, off = ext ? ri(0, 2) * 8 : 0;
    for (index_t i = 0; i < cnt; i++) { std::vector<uint8> e(eb); for (auto &b : e) b = (uint8)rnd(); v.el.push_back(e); }
    if (ext) { BUFS.emplace_back(); Buf &b = BUFS.back(); b.b.resize(off + st * cnt + 8); for (auto &x : b.b) x = (uint8)rnd(); for (index_t i = 0; i < cnt; i++) memcpy(&b.b[off + st * i], v.el[i].data(), eb); n.set_external(DataType(v.tid, cnt, off, st, eb, Endianness::DEFAULT_ID), &b.b[0]); b.want = b.b; v.buf = &b; v.boff = off; }
    else { n.set(DataType(v.tid, cnt)); for (index_t i = 0; i < cnt; i++) memcpy(n.element_ptr(i), v.el[i].data(), eb); }
    v.p0 = (const char *)n.element_ptr(0); v.stride = st;
}
static void copy(V &d, const V &s) { d.kind = s.kind; d.tid = s.tid; d.name = s.name; d.el = s.el; d.p0 = s.p0; d.stride = s.stride; d.buf = s.buf; d.boff = s.boff; d.kids.clear(); for (auto &k : s.kids) { d.kids.emplace_back(new V); copy(*d.kids.back(), *k); } }
// a source that shares much of the shape of the destination
static void vary(Node &n, V &v, const Node &o, const V &ov)
{
    if (ri(0, 5) == 0 || ov.kind == 0) { mk(n, v, 2, nullptr); return; }
    if (ov.kind == 1) { v.kind = 1; n.set(DataType::object()); std::vector<size_t> ord; for (size_t i = 0; i < ov.kids.size(); i++) if (ri(0, 4)) ord.push_back(i); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[ri(0, (long)i - 1)]); for (size_t i : ord) { Node &m = n.add_child(ov.kids[i]->name); vary(m, *v.add(ov.kids[i]->name), o.child((index_t)i), *ov.kids[i]); } if (ri(0, 2) == 0) { Node &m = n.add_child("new"); mk(m, *v.add("new"), 1, nullptr); } return; }
    if (ov.kind == 2) { v.kind = 2; n.set(DataType::list()); size_t c = ov.kids.size(); long m = ri(-1, 1); for (size_t i = 0; i < c + m && i < c + 1; i++) { Node &x = n.append(); if (i < c) vary(x, *v.app(), o.child((index_t)i), *ov.kids[i]); else mk(x, *v.app(), 1, nullptr); } return; }
    for (int t = 0; t < 60; t++) { Node x; V y; mk(x, y, 0, nullptr); if (y.kind == 3 && y.tid == ov.tid) { if (y.buf) n.set_external(x); else { n.set(x); y.p0 = (const char *)n.element_ptr(0); } std::string nm = v.name; copy(v, y); v.name = nm; return; } }
    mk(n, v, 0, nullptr);
}
static std::string show(const V &v) { if (!v.kind) return "-"; if (v.kind == 3) return std::to_string(v.tid) + "*" + std::to_string(v.el.size()) + (v.buf ? "/" + std::to_string((long)v.stride) : ""); std::string s = v.kind == 1 ? "{" : "["; for (auto &k : v.kids) s += (v.kind == 1 ? k->name + ":" : "") + show(*k) + " "; return s + (v.kind == 1 ? "}" : "]"); }
static void merge(V &d, const V &s, int how)   // 0 update, 1 compatible, 2 external
{
    if (s.kind == 0) return;
    if (s.kind == 1) { for (auto &k : s.kids) { if (how == 1) { if (d.kind == 1) for (auto &q : d.kids) if (q->name == k->name) merge(*q, *k, how); } else merge(*d.add(k->name), *k, how); } return; }
    if (s.kind == 2) { size_t n = d.kind == 2 ? d.kids.size() : 0; for (size_t i = 0; i < s.kids.size(); i++) { if (i < n) merge(*d.kids[i], *s.kids[i], how); else if (how != 1) merge(*d.app(), *s.kids[i], how); } return; }
    if (how == 2) { std::string nm = d.name; copy(d, s); d.name = nm; return; }
    if (d.kind == 3 && d.tid == s.tid && d.el.size() >= s.el.size()) { for (size_t i = 0; i < s.el.size(); i++) { d.el[i] = s.el[i]; if (d.buf) memcpy(&d.buf->want[d.boff + d.stride * i], s.el[i].data(), s.el[i].size()); } return; }
    if (how == 1) return;
    std::string nm = d.name; copy(d, s); d.name = nm; d.buf = nullptr; d.p0 = nullptr; d.stride = DataType::default_bytes(d.tid); d.fresh = true;
}
static void cmp(const Node &n, const V &v, const char *who)
{
    int k = n.dtype().is_empty() ? 0 : n.dtype().is_object() ? 1 : n.dtype().is_list() ? 2 : 3;
    if (k != v.kind) { fail("%s: '%s' is of kind %d, expected %d", who, n.path().c_str(), k, v.kind); return; }
    if (k == 1 || k == 2) { if ((size_t)n.number_of_children() != v.kids.size()) { fail("%s: '%s' has %ld children, expected %zu", who, n.path().c_str(), (long)n.number_of_children(), v.kids.size()); return; }
        for (size_t i = 0; i < v.kids.size(); i++) { if (k == 1 && n.child_names()[i] != v.kids[i]->name) { fail("%s: child %zu is named '%s', expected '%s'", who, i, n.child_names()[i].c_str(), v.kids[i]->name.c_str()); return; } if (n.child((index_t)i).parent() != &n || &n.child((index_t)i).schema() != &n.schema().child((index_t)i)) fail("%s: child %zu is not linked", who, i); cmp(n.child((index_t)i), *v.kids[i], who); } }
    if (k == 3) { if (n.dtype().id() != v.tid || (size_t)n.dtype().number_of_elements() != v.el.size()) { fail("%s: '%s' is %s[%ld], expected type %d[%zu]", who, n.path().c_str(), n.dtype().name().c_str(), (long)n.dtype().number_of_elements(), v.tid, v.el.size()); return; }
        for (size_t i = 0; i < v.el.size(); i++) if (memcmp(n.element_ptr((index_t)i), v.el[i].data(), v.el[i].size())) { fail("%s: '%s' element %zu is wrong", who, n.path().c_str(), i); return; }
        if (v.p0 && v.el.size()) CHECK((const char *)n.element_ptr(0) == v.p0 && n.dtype().stride() == v.stride, "%s: '%s' is elsewhere, or described in another way", who, n.path().c_str());
        if (!v.p0 && v.el.size()) CHECK(n.dtype().stride() == v.stride && !n.is_data_external() , "%s: '%s' is not a compact copy of its own", who, n.path().c_str()); }
}
int main(int argc, char **argv)
{
    init(argc, argv); static const char *hn[] = {"update", "update_compatible", "update_external"};
    for (int r = 0; r < 6000 * effort; r++) for (int how = 0; how < 3; how++) {
        BUFS.clear(); Node d, s; V vd, vs; mk(d, vd, 3, nullptr); if (r % 3 == 0) mk(s, vs, 3, nullptr); else vary(s, vs, d, vd);
        where(hn[how], "%s <- %s", show(vd).c_str(), show(vs).c_str());
        if (how == 0) d.update(s); else if (how == 1) d.update_compatible(s); else d.update_external(s);
        merge(vd, vs, how); cmp(d, vd, "result"); cmp(s, vs, "source"); for (auto &b : BUFS) if (b.b != b.want) { fail("bytes outside the updated elements changed"); break; }
        if (how == 2) { d.reset(); cmp(s, vs, "source after the view is gone"); }
    }
    return done();
}
