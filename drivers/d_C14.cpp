// C14: relations, n-d indices and multi-component arrays
#include "arrays.hpp"
#include <list>
#include "conduit_blueprint_o2mrelation.hpp"
#include "conduit_blueprint_o2mrelation_index.hpp"
#include "conduit_blueprint_o2mrelation_iterator.hpp"
#include "conduit_blueprint_ndarray_index.hpp"
#include "conduit_blueprint_mcarray.hpp"
namespace o2m = conduit::blueprint::o2mrelation; namespace mc = conduit::blueprint::mcarray;
using conduit::blueprint::ndarray::NDIndex;
typedef std::vector<long> V;
static std::string show(const V &v) { std::string s = "["; for (long x : v) s += std::to_string(x) + ","; return s + "]"; }
// integers in a node, in a random type and layout
static std::list<std::vector<uint8>> KEEP;
template <class T> void put(Node &n, const V &v, bool strided)
{
    if (!strided || v.empty()) { std::vector<T> t(v.begin(), v.end()); n.set(DataType(TI<T>::id, (index_t)v.size())); for (size_t i = 0; i < v.size(); i++) memcpy(n.element_ptr(i), &t[i], sizeof(T)); return; }
    index_t st = sizeof(T) * ri(1, 3), off = ri(0, 3) * 8; KEEP.emplace_back(off + st * (v.size() - 1) + sizeof(T)); auto &b = KEEP.back(); for (auto &x : b) x = (uint8)rnd();
    for (size_t i = 0; i < v.size(); i++) { T t = (T)v[i]; memcpy(&b[off + st * i], &t, sizeof(T)); }
    n.set_external(DataType(TI<T>::id, (index_t)v.size(), off, st, sizeof(T), Endianness::DEFAULT_ID), &b[0]);
}
static void ints(Node &n, const V &v, bool s = true)
{
    switch (ri(0, 5)) { case 0: put<int32>(n, v, s); break; case 1: put<int64>(n, v, s); break; case 2: put<uint32>(n, v, s); break; case 3: put<uint64>(n, v, s); break; case 4: put<int16>(n, v, s); break; default: put<uint16>(n, v, s); }
}
static double at(const Node &n, index_t i) { Node e; e.set_external(DataType(n.dtype().id(), 1), (void *)n.element_ptr(i)); return e.to_float64(); }
static void values(Node &n, index_t cnt, int seed)
{
    V v; for (index_t i = 0; i < cnt; i++) v.push_back((i * 7 + seed * 13) % 120);
    switch (ri(0, 4)) { case 0: put<float64>(n, v, true); break; case 1: put<float32>(n, v, true); break; case 2: put<int8>(n, v, true); break; case 3: put<uint16>(n, v, true); break; default: put<int64>(n, v, true); }
}
static void relation(int round, bool zero)
{
    KEEP.clear(); bool so = ri(0, 3) > 0, ind = ri(0, 1); long n = round < 20 ? round % 5 + (zero ? 0 : 1) : ri(1, 9);
    V sizes, offs, idx; long run = 0; std::vector<long> order(n); for (long i = 0; i < n; i++) order[i] = i;
    for (long i = n - 1; i > 0; i--) std::swap(order[i], order[ri(0, i)]);
    offs.resize(n); sizes.resize(n); for (long i = 0; i < n; i++) sizes[i] = so ? ri(zero ? 0 : 1, 4) : 1;
    if (so) for (long k = 0; k < n; k++) { long i = ri(0, 2) ? order[k] : k; (void)i; run += ri(0, 2); offs[order[k]] = run; run += sizes[order[k]]; } else for (long i = 0; i < n; i++) { offs[i] = i; run = n; }
    long nidx = run + (so ? ri(0, 2) : 0), nval = nidx + ri(0, 3); if (!so && !ind) nval = n;
    for (long i = 0; i < nidx; i++) idx.push_back(ri(0, std::max(0L, nval - 1)));
    if (nval == 0) return;
    std::vector<std::pair<long, long>> ent; V want; for (long i = 0; i < n; i++) for (long j = 0; j < sizes[i]; j++) { ent.push_back({i, j}); long k = offs[i] + j; want.push_back(ind ? idx[k] : k); }
    int npaths = (int)ri(1, 3); const char *names[] = {"values", "other", "third"}; Node rel; 
    // children in random order
    std::vector<int> what; for (int p = 0; p < npaths; p++) what.push_back(p); if (so) { what.push_back(10); what.push_back(11); } if (ind) what.push_back(12); bool extra = ri(0, 2) == 0; if (extra) what.push_back(13);
    for (size_t i = what.size() - 1; i > 0; i--) std::swap(what[i], what[ri(0, i)]);
    std::vector<std::string> dp; for (int w : what) if (w < 10) { values(rel[names[w]], nval, w); dp.push_back(names[w]); } else if (w == 10) ints(rel["sizes"], sizes); else if (w == 11) ints(rel["offsets"], offs); else if (w == 12) ints(rel["indices"], idx); else rel["label"] = "text";
    char c[900]; snprintf(c, sizeof c, "n=%ld sizes=%s offsets=%s indices=%s values=%ld paths=%d%s", n, so ? show(sizes).c_str() : "-", so ? show(offs).c_str() : "-", ind ? show(idx).c_str() : "-", nval, npaths, extra ? " +text" : "");
    std::string before = rel.to_json();
    where("o2m.data_paths", "%s", c); CHECK(o2m::data_paths(rel) == dp, "data paths differ");
    { where("o2m.verify", "%s", c); Node info; CHECK(o2m::verify(rel, info), "a valid relation is refused"); }
    { where("o2m.index", "%s", c); o2m::O2MIndex ix(rel), cp(ix), as; as = ix; for (auto *x : {&ix, &cp, &as}) { for (size_t e = 0; e < ent.size(); e++) CHECK(x->index(ent[e].first, ent[e].second) == want[e], "index(%ld,%ld) is %ld, expected %ld", ent[e].first, ent[e].second, (long)x->index(ent[e].first, ent[e].second), want[e]); for (long i = 0; i < n; i++) { CHECK(x->size(i) == sizes[i], "size(%ld)", i); CHECK(x->offset(i) == offs[i], "offset(%ld)", i); } } if (so) CHECK(ix.size() == n, "number of ones"); }
    long nones = so ? n : ind ? (long)idx.size() : nval; bool same_n = nones == n;
    if (!zero && same_n && n > 0) {
        where("o2m.iterator", "%s", c); o2m::O2MIterator it(rel); CHECK(it.elements(o2m::ONE) == n && it.elements(o2m::DATA) == (long)ent.size(), "element counts"); 
        for (size_t e = 0; e < ent.size(); e++) {
            CHECK(it.has_next(), "no next before entry %zu", e); if (e) CHECK(it.has_next(o2m::ONE) == (ent[e - 1].first + 1 < n) && it.has_next(o2m::MANY) == (ent[e - 1].second + 1 < sizes[ent[e - 1].first]), "has_next of one or many at entry %zu", e - 1);
            CHECK(it.peek_next() == want[e], "peek_next at %zu", e); long g = it.next(); CHECK(g == want[e], "next: entry %zu is %ld, expected %ld", e, g, want[e]); CHECK(it.index() == want[e] && it.index(o2m::ONE) == ent[e].first && it.index(o2m::MANY) == ent[e].second, "index at entry %zu", e); CHECK(it.elements(o2m::MANY) == sizes[ent[e].first], "elements of many at entry %zu", e); }
        CHECK(!it.has_next(), "a next after the last entry"); o2m::O2MIterator cp(it), as; as = cp; CHECK(cp.index() == it.index() && as.index() == it.index(), "a copy is elsewhere");
        for (size_t e = ent.size() - 1; e-- > 0;) { CHECK(it.has_previous(), "no previous before entry %zu", e + 1); CHECK(it.peek_previous() == want[e], "peek_previous at %zu", e); long g = it.previous(); CHECK(g == want[e] && it.index(o2m::ONE) == ent[e].first && it.index(o2m::MANY) == ent[e].second, "previous: entry %zu is %ld, expected %ld", e, g, want[e]); }
        CHECK(!it.has_previous(), "a previous before the first entry");
        it.to_back(); for (size_t e = ent.size(); e-- > 0;) { CHECK(it.has_previous(), "to_back"); CHECK(it.previous() == want[e], "backwards from the back: entry %zu", e); }
        for (size_t e = 0; e < ent.size(); e++) { it.to((index_t)e); CHECK(it.index() == want[e] && it.index(o2m::ONE) == ent[e].first && it.index(o2m::MANY) == ent[e].second, "to(%zu)", e); it.to(ent[e].first, o2m::ONE); it.to(ent[e].second, o2m::MANY); CHECK(it.index() == want[e], "to(one), to(many) at %zu", e); }
        for (long i = 0; i < n; i++) { it.to(i, o2m::ONE); it.to_front(o2m::MANY); long k = 0; while (it.has_next(o2m::MANY) && k < 50) { long g = it.next(o2m::MANY); CHECK(g == k, "many %ld", g); long e = 0; while (ent[e].first != i || ent[e].second != k) e++; CHECK(it.index() == want[e], "entry %ld of one %ld", k, i); k++; } CHECK(k == sizes[i], "entries of one %ld", i); }
    }
    if (so || same_n) { where(zero ? "o2m.compact_to.empty_ones" : "o2m.compact_to", "%s", c); Node res; res["old"] = 1; o2m::compact_to(rel, res); if (!so) { Node info; CHECK(!rel.diff(res, info, 0.0), "a relation without sizes is not kept as it is"); }
        else { CHECK(!res.has_child("old"), "old contents are kept"); CHECK(res["sizes"].dtype().number_of_elements() == n && res["offsets"].dtype().number_of_elements() == n, "counts"); long r = 0; for (long i = 0; i < n; i++) { CHECK(at(res["sizes"], i) == sizes[i], "size %ld", i); CHECK(at(res["offsets"], i) == r, "offset %ld is %g, expected %ld", i, at(res["offsets"], i), r); r += sizes[i]; }
            CHECK(!res.has_child("indices"), "compacted data needs no indices"); for (auto &p : dp) { CHECK(res.has_child(p) && res[p].dtype().id() == rel[p].dtype().id() && res[p].dtype().number_of_elements() == (long)want.size(), "data %s", p.c_str()); if (res.has_child(p) && res[p].dtype().number_of_elements() == (long)want.size()) for (size_t e = 0; e < want.size(); e++) CHECK(at(res[p], e) == at(rel[p], want[e]), "%s: entry %zu is %g, expected %g", p.c_str(), e, at(res[p], e), at(rel[p], want[e])); } } }
    CHECK(rel.to_json() == before, "the relation changed");
    { where("o2m.generate_offsets", "%s", c); Node g; ints(g["sizes"], sizes); values(g["values"], nval, 1); if (ri(0, 1)) g["offsets"].set("x"); Node info; CHECK(o2m::generate_offsets(g, info), "refused"); CHECK(g["offsets"].dtype().number_of_elements() == n, "count"); long r = 0; for (long i = 0; i < n; i++) { CHECK(at(g["offsets"], i) == r, "offset %ld", i); r += sizes[i]; }
      Node b; b["values"] = 1; CHECK(!o2m::generate_offsets(b, info) && !b.has_child("offsets"), "offsets without sizes"); }
}
static void bad_relations()
{
    for (int k = 0; k < 7; k++) { Node r, info; r["values"].set(std::vector<double>{1, 2, 3}); r["sizes"].set(std::vector<int>{1, 2}); r["offsets"].set(std::vector<int>{0, 1}); r["indices"].set(std::vector<int>{0, 1, 2}); where("o2m.verify", "broken in way %d", k);
        if (k == 0) r["sizes"].set(std::vector<double>{1, 2}); if (k == 1) r.remove("sizes"); if (k == 2) r.remove("offsets"); if (k == 3) r["offsets"].reset(), r["offsets"].set(std::vector<int>{0}); if (k == 4) r["values"] = "x"; if (k == 5) r["indices"].set(std::vector<float>{1, 2, 3}); if (k == 6) { r.reset(); r.append() = 1; }
        CHECK(!o2m::verify(r, info), "a broken relation is accepted"); }
}
static void nd(int k, int mode)
{
    KEEP.clear(); V shape, off, str, ix; for (int d = 0; d < k; d++) { shape.push_back(ri(1, 9)); off.push_back(ri(0, 3)); str.push_back(ri(1, 300)); ix.push_back(ri(0, shape[d] - 1)); }
    bool o = mode & 1, s = mode & 2; long want = 0, run = 1; V st; for (int d = 0; d < k; d++) { st.push_back(s ? str[d] : run); run *= shape[d] + (o ? off[d] : 0); want += ((o ? off[d] : 0) + ix[d]) * st[d]; }
    char c[400]; snprintf(c, sizeof c, "shape=%s offset=%s stride=%s index=%s", show(shape).c_str(), o ? show(off).c_str() : "-", s ? show(str).c_str() : "-", show(ix).c_str());
    Node n; ints(n["shape"], shape); if (o) ints(n["offset"], off); if (s) ints(n["stride"], str);
    std::vector<index_t> a(shape.begin(), shape.end()), b(off.begin(), off.end()), e(str.begin(), str.end());
    NDIndex x(n), y(&n), z(k, &a[0], o ? &b[0] : NULL, s ? &e[0] : NULL), w(x), q; q = z; int t = 0;
    for (NDIndex *p : {&x, &y, &z, &w, &q}) { where("nd.index", "%s made in way %d", c, t++); CHECK(p->ndims() == k, "ndims");
        for (int d = 0; d < k; d++) { CHECK(p->shape(d) == shape[d], "shape(%d)", d); CHECK(p->offset(d) == (o ? off[d] : 0), "offset(%d)", d); CHECK(p->stride(d) == st[d], "stride(%d) is %ld, expected %ld", d, (long)p->stride(d), st[d]); }
        long g = k == 1 ? p->index(ix[0]) : k == 2 ? p->index(ix[0], ix[1]) : k == 3 ? p->index(ix[0], ix[1], ix[2]) : p->index(ix[0], ix[1], ix[2], ix[3]); CHECK(g == want, "index is %ld, expected %ld", g, want); }
    where("nd.info", "%s", c); Node i; x.info(i); for (int d = 0; d < k; d++) CHECK(at(i["shape"], d) == shape[d] && at(i["offset"], d) == (o ? off[d] : 0) && at(i["stride"], d) == st[d], "info of dimension %d", d);
}
static void comps(int round)
{
    KEEP.clear(); bool list = ri(0, 2) == 0; int k = (int)ri(1, 5); index_t n = round < 10 ? round % 4 : ri(1, 20); Node src; const char *nm[] = {"x", "y", "z", "w", "v"}; std::string c = list ? "list" : "object"; bool bad = false;
    long first = -1; for (int i = 0; i < k; i++) { Node &d = list ? src.append() : src[nm[i]]; int w = (int)ri(0, 19); index_t m = w == 0 ? n + 1 : w == 1 ? 0 : n; if (w == 2) { d = "text"; bad = true; c += " text"; continue; } values(d, m, i); c += " " + d.dtype().name() + "*" + std::to_string((long)m); if (first < 0) first = m; if (m != first) bad = true; }
    { where("mc.verify", "%s", c.c_str()); Node info; bool v = mc::verify(src, info); CHECK(v == !bad, "verify says %d", (int)v); }
    if (bad) return;
    for (int inter = 0; inter < 2; inter++) { where(inter ? "mc.to_interleaved" : "mc.to_contiguous", "%s", c.c_str()); Node dst; if (ri(0, 1)) dst["old"] = 5; std::string b = src.to_json(); bool r = inter ? mc::to_interleaved(src, dst) : mc::to_contiguous(src, dst); CHECK(r && src.to_json() == b, "failed, or the source changed");
        CHECK(dst.number_of_children() == k && dst.dtype().is_list() == list, "another shape"); if (dst.number_of_children() != k) continue; index_t tot = 0, run = 0; for (int i = 0; i < k; i++) tot += dst.child(i).dtype().element_bytes();
        for (int i = 0; i < k; i++) { const Node &d = dst.child(i), &s = src.child(i); CHECK(d.name() == s.name() && d.dtype().id() == s.dtype().id() && d.dtype().number_of_elements() == s.dtype().number_of_elements(), "component %d is another", i); index_t eb = d.dtype().element_bytes();
            CHECK(d.dtype().stride() == (inter ? tot : eb), "stride of component %d", i); if (first > 0) CHECK((const char *)d.element_ptr(0) - (const char *)dst.child(0).element_ptr(0) == run, "component %d is elsewhere", i); run += inter ? eb : eb * first; for (index_t e = 0; e < s.dtype().number_of_elements() && e < d.dtype().number_of_elements(); e++) CHECK(at(d, e) == at(s, e), "component %d element %ld", i, (long)e); }
        if (first > 1) { CHECK(mc::is_interleaved(dst) == (inter || k == 1), "is_interleaved"); } if (!inter && first > 0) CHECK(dst.is_contiguous(), "not contiguous"); }
    if (k > 1 && first > 1) { Node d; mc::to_interleaved(src, d); where("mc.is_interleaved", "%s moved", c.c_str()); int i = (int)ri(1, k - 1); Node e; for (int j = 0; j < k; j++) { Node &x = list ? e.append() : e[nm[j]]; DataType t = d.child(j).dtype(); if (j == i) { if (round % 2) t.set_offset(t.offset() + 1); else t.set_stride(t.stride() + 1); } x.set_external(t, d.data_ptr() ? d.data_ptr() : d.child(j).data_ptr()); } CHECK(!mc::is_interleaved(e), "a moved component is taken as interleaved"); }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (int i = 0; i < 1500 * effort; i++) { relation(i, false); relation(i, true); }
    bad_relations();
    for (int i = 0; i < 400 * effort; i++) for (int k = 1; k <= 4; k++) for (int m = 0; m < 4; m++) nd(k, m);
    for (int i = 0; i < 4000 * effort; i++) comps(i);
    for (int k = 0; k < 2; k++) { Node n, info; if (k) n = 5; where("mc.verify", "no components %d", k); CHECK(!mc::verify(n, info), "accepted"); }
    return done();
}
