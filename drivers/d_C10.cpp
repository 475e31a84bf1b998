#include "tree.hpp"
static Node *at(Node *r, T *t) { if (!t->parent) return r; return at(r, t->parent)->child_ptr(t->index()); }
// the node tree, its schema tree and the model agree
static bool chkn(Node &n, const T &t, Node *parent) {
    if (n.parent() != parent) { fail("the node at '%s' has another parent", t.path().c_str()); return false; }
    if (parent && n.schema().parent() != &parent->schema()) { fail("the schema at '%s' has another parent", t.path().c_str()); return false; }
    if ((size_t)n.number_of_children() != t.kids.size()) { fail("%ld child nodes, expected %zu at '%s'", (long)n.number_of_children(), t.kids.size(), t.path().c_str()); return false; }
    if (kind_of(n.dtype()) != t.kind) { fail("node at '%s' is %s, expected %s", t.path().c_str(), n.dtype().name().c_str(), ids(t.kind)); return false; }
    if (t.kind == LEAF && n.to_int64() != t.val) { fail("value at '%s' is %ld, expected %ld", t.path().c_str(), (long)n.to_int64(), t.val); return false; }
    if (n.name() != t.label() || n.path() != t.path()) { fail("name/path '%s' '%s' expected '%s'", n.name().c_str(), n.path().c_str(), t.path().c_str()); return false; }
    for (size_t i = 0; i < t.kids.size(); i++) {
        Node &c = n.child((index_t)i);
        if (&c.schema() != &n.schema().child((index_t)i)) { fail("child %zu of '%s' is not described by child schema %zu", i, t.path().c_str(), i); return false; }
        if (t.kind == OBJ && &n.child(t.kids[i]->name) != &c) { fail("child by name and by index differ at '%s'", t.path().c_str()); return false; }
        if (!chkn(c, *t.kids[i], &n)) return false;
    }
    return true;
}
static bool both(Node &n, const T &t) { return chk(n.schema(), t, nullptr) && chkn(n, t, nullptr); }
static bool related(T *a, T *b) { for (T *z = a; z; z = z->parent) if (z == b) return true; for (T *z = b; z; z = z->parent) if (z == a) return true; return false; }
static void mswap(T *a, T *b) { std::swap(a->kind, b->kind); std::swap(a->val, b->val); std::swap(a->kids, b->kids); for (auto &k : a->kids) k->parent = a; for (auto &k : b->kids) k->parent = b; }
static void upd(T *t, const T *o) {
    if (o->kind == OBJ) { for (auto &k : o->kids) upd(t->add(k->name), k.get()); }
    else if (o->kind == LST) { size_t i = 0; if (t->kind == LST) for (; i < t->kids.size() && i < o->kids.size(); i++) upd(t->kids[i].get(), o->kids[i].get()); for (; i < o->kids.size(); i++) upd(t->app(), o->kids[i].get()); }
    else if (o->kind == LEAF) { t->kids.clear(); t->kind = LEAF; t->val = o->val; }
}
static void build(Node &n, T &t, int depth) {
    int k = (int)ri(depth > 2 ? 3 : 0, 4);
    if (k <= 1) { t.be(OBJ); n.set(DataType::object()); for (int i = (int)ri(0, 4); i > 0; i--) { std::string s = nm(); if (t.at(s) >= 0) continue; T *c = t.add(s); build(n.add_child(s), *c, depth + 1); } }
    else if (k == 2) { t.be(LST); n.set(DataType::list()); for (int i = (int)ri(0, 4); i > 0; i--) { T *c = t.app(); build(n.append(), *c, depth + 1); } }
    else { t.leaf(ri(-99, 99)); n.set((int64)t.val); }
}
static void history(int len)
{
    Node root[2]; T m[2]; std::string log; for (int i = 0; i < 2; i++) build(root[i], m[i], 0);
    for (int step = 0; step < len; step++) {
        int w = (int)ri(0, 1); std::vector<T *> v[2]; all(&m[0], v[0]); all(&m[1], v[1]);
        T *t = v[w][ri(0, (long)v[w].size() - 1)]; Node *s = at(&root[w], t); int w2 = (int)ri(0, 1); T *o = v[w2][ri(0, (long)v[w2].size() - 1)]; Node *on = at(&root[w2], o);
        int op = (int)ri(0, 22); char d[300]; std::string n = nm(), p = pth();
        if (t->depth() >= 4 && (op == 0 || op == 1 || op == 2)) op = 3;
        snprintf(d, sizeof d, "%d@%d'%s'('%s','%s',%d'%s')", op, w, t->path().c_str(), n.c_str(), p.c_str(), w2, o->path().c_str()); log += std::string(";") + d; if (log.size() > 1500) log = log.substr(log.size() - 1200);
        where(("node.op" + std::to_string(op)).c_str(), "history ...%s", log.c_str());
        bool threw = false, expect = false, apart = !related(t, o) && o->count() < 25 && t->count() < 25;
        try {
        switch (op) {
        case 0: { T *c = t->add(n); Node &r = s->add_child(n); CHECK(&r == s->child_ptr(c->index()), "add_child returns another node"); break; }
        case 1: { T *c = t->app(); Node &r = s->append(); CHECK(&r == s->child_ptr(c->index()), "append returns another node"); break; }
        case 2: { T *c = t; std::string x = p, a, b; while (!x.empty()) { cut(x, a, b); c = c->add(a); x = b; } Node &r = ri(0, 1) ? s->fetch(p) : (*s)[p]; CHECK(&r == at(&root[w], c), "fetch returns another node"); break; }
        case 3: { long k = ri(-50, 50); t->leaf(k); if (ri(0, 1)) s->set((int64)k); else s->set_int32((int32)k), s->set((int64)k); break; }
        case 4: { expect = t->at(n) < 0; int ai = t->at(n); if (!expect) t->rm(ai); if (!expect && ri(0, 1)) { auto &cn = s->child_names(); s->remove_child(cn[ai]); } else s->remove_child(n); break; }
        case 5: { long i = ri(0, (long)t->kids.size()); expect = i == (long)t->kids.size(); if (!expect) t->rm(i); s->remove((index_t)i); break; }
        case 6: { std::string n2 = nm(); expect = t->at(n) < 0 || t->at(n2) >= 0; int ai = t->at(n); if (!expect) t->kids[ai]->name = n2; if (!expect && ri(0, 1)) { auto &cn = s->child_names(); s->rename_child(cn[ai], n2); } else s->rename_child(n, n2); break; }
        case 7: { expect = !m_has(t, p); if (!expect) { T *c = t; std::string x = p, a, b; while (1) { cut(x, a, b); if (b.empty()) break; c = c->kids[c->at(a)].get(); x = b; } c->rm(c->at(a)); } s->remove(p); break; }
        case 8: { t->clear(); s->reset(); break; }
        case 9: { expect = !m_has(t, p); const Node *cs = s; const Node &r = ri(0, 1) ? cs->fetch_existing(p) : s->fetch_existing(p); T *c = t; std::string x = p, a, b; while (!x.empty() && !expect) { cut(x, a, b); c = c->kids[c->at(a)].get(); x = b; } if (!expect) CHECK(&r == at(&root[w], c), "fetch_existing returns another node"); break; }
        case 10: { if (!apart) break; t->copy(*o); s->set(*on); break; }
        case 11: { if (!apart) break; mswap(t, o); if (ri(0, 1)) s->swap(*on); else on->swap(*s); break; }
        case 12: { if (!apart) break; mswap(t, o); o->clear(); s->move(*on); break; }
        case 13: { if (!apart) break; upd(t, o); s->update(*on); break; }
        case 14: { Node cp(*s); T mc; mc.copy(*t); both(cp, mc); break; }
        case 15: { Node ext; ext.set_external(*s); T mc; mc.copy(*t); both(ext, mc); break; }
        case 16: { Node cp; s->compact_to(cp); T mc; mc.copy(*t); both(cp, mc); break; }
        case 17: { Node z; Node &zz = z["keep/here"]; zz.set_node(*s); T mz; mz.add("keep"); mz.kids[0]->add("here")->copy(*t); both(z, mz); break; }
        case 18: { Schema sc; std::vector<uint8> data; s->serialize(data); s->schema().compact_to(sc); T mc; mc.copy(*t); Node g; g.set_external(sc, data.empty() ? nullptr : &data[0]); both(g, mc); Node h; h.set(sc, data.empty() ? nullptr : &data[0]); both(h, mc); Node z; z["q"] = 7; z["q"].set_schema(sc); CHECK(&z["q"].schema() == &z.schema().child(0), "schema link after set(schema)"); CHECK(z["q"].total_bytes_compact() == sc.total_bytes_compact(), "set(schema)"); break; }
        case 19: { int k = (int)ri(0, 2); if (k == 0) { t->be(OBJ); s->set(DataType::object()); } else if (k == 1) { t->be(LST); s->set(DataType::list()); } else { t->clear(); s->set(DataType::empty()); } break; }
        case 20: { T *c = t->app(); s->append().set((int64)9); c->leaf(9); break; }
        case 21: { long k = ri(0, 9); int64 vals[10]; for (int i = 0; i < 10; i++) vals[i] = k + i; t->leaf(k); s->set_external(vals); T tmp; if (!both(root[w], m[w])) return; s->set((int64)k); t->leaf(k); int64 keep = vals[0]; (void)keep; s->reset(); t->clear(); CHECK(vals[0] == k, "external data changed"); break; }
        case 22: { if (!apart) break; Node tmp; tmp.set(*on); T mt; mt.copy(*o); mswap(t, &mt); s->swap(tmp); if (!both(tmp, mt)) return; break; }
        }
        } catch (const conduit::Error &) { threw = true; }
        CHECK(threw == expect, threw ? "an error was raised where none is due" : "no error where one is due");
        for (int i = 0; i < 2; i++) if (!both(root[i], m[i])) return;
        for (int i = 0; i < 2; i++) if (m[i].count() > 60) { m[i].clear(); root[i].reset(); }
    }
}
int main(int argc, char **argv) { init(argc, argv); for (int r = 0; r < 220 * effort && !fails; r++) history(60); return done(); }
