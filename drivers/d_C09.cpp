#include "tree.hpp"
static Schema *at(Schema *r, T *t) { if (!t->parent) return r; return at(r, t->parent)->child_ptr(t->index()); }
static void history(int len)
{
    Schema root; T m; std::string log;
    for (int step = 0; step < len; step++) {
        std::vector<T *> v; all(&m, v); T *t = v[ri(0, (long)v.size() - 1)]; Schema *s = at(&root, t);
        std::string where_ = t->path(); int op = (int)ri(0, 15); char d[300]; std::string n = nm(), p = pth();
        if (t->depth() >= 4 && (op == 0 || op == 1 || op == 2)) op = 3;
        snprintf(d, sizeof d, "%d@'%s'('%s','%s')", op, where_.c_str(), n.c_str(), p.c_str()); log += std::string(";") + d; if (log.size() > 1500) log = log.substr(log.size() - 1200);
        where(("schema.op" + std::to_string(op)).c_str(), "history ...%s", log.c_str());
        bool threw = false; bool expect = false;
        try {
        switch (op) {
        case 0: { bool had = t->at(n) >= 0; expect = false; T *c = t->add(n); Schema &r = s->add_child(n); (void)had; CHECK(&r == s->child_ptr(c->index()), "add_child returns another child"); break; }
        case 1: { T *c = t->app(); Schema &r = s->append(); CHECK(&r == s->child_ptr(c->index()), "append returns another child"); break; }
        case 2: case 12: { T *c = t; std::string x = p, a, b; while (!x.empty()) { cut(x, a, b); c = c->add(a); x = b; }
                  Schema &r = op == 2 ? s->fetch(p) : (*s)[p]; CHECK(&r == at(&root, c), "fetch('%s') returns another schema", p.c_str()); break; }
        case 3: { long k = ri(1, 5); t->leaf(k); s->set(DataType::int64((index_t)k)); break; }
        case 4: { expect = t->at(n) < 0; int ai = t->at(n); if (!expect) t->rm(ai); if (!expect && ri(0, 1)) { auto &cn = s->child_names(); s->remove_child(cn[ai]); } else s->remove_child(n); break; }
        case 5: { if (t->kids.empty()) { if (t->kind != OBJ && t->kind != LST) { expect = true; s->remove((index_t)0); } else { expect = true; s->remove((index_t)0); } break; }
                  long i = ri(0, (long)t->kids.size()); expect = i == (long)t->kids.size(); if (!expect) t->rm(i); s->remove((index_t)i); break; }
        case 6: { std::string n2 = nm(); expect = t->at(n) < 0 || t->at(n2) >= 0; int ai = t->at(n); if (!expect) t->kids[ai]->name = n2; if (!expect && ri(0, 1)) { auto &cn = s->child_names(); s->rename_child(cn[ai], n2); } else s->rename_child(n, n2); break; }
        case 7: { expect = !m_has(t, p); if (!expect) { T *c = t; std::string x = p, a, b; while (1) { cut(x, a, b); if (b.empty()) break; c = c->kids[c->at(a)].get(); x = b; } c->rm(c->at(a)); } s->remove(p); break; }
        case 8: { t->clear(); s->reset(); break; }
        case 9: { expect = !m_has(t, p); const Schema *cs = s; const Schema &r = ri(0, 1) ? cs->fetch_existing(p) : s->fetch_existing(p);
                  T *c = t; std::string x = p, a, b; while (!x.empty() && !expect) { cut(x, a, b); c = c->kids[c->at(a)].get(); x = b; } if (!expect) CHECK(&r == at(&root, c), "fetch_existing returns another schema"); break; }
        case 10: { T *o = v[ri(0, (long)v.size() - 1)]; T *q = o; bool anc = false; for (T *z = o; z; z = z->parent) if (z == t) anc = true; for (T *z = t; z; z = z->parent) if (z == q) anc = true; if (anc || o->count() > 15) break;
                   Schema cp(*at(&root, o)); T mc; mc.copy(*o); if (!chk(cp, mc, nullptr)) break; t->copy(*o); s->set(*at(&root, o)); break; }
        case 11: { expect = t->at(n) < 0; if (expect) { s->child(n); } else CHECK(&s->child(n) == s->child_ptr(t->at(n)), "child"); break; }
        case 13: { if (!t->parent || t->parent->kind != OBJ) break; if (t->kind != OBJ) break; std::string q = "../" + seg(); std::string a, b; cut(q, a, b); expect = t->parent->at(b) < 0; const Schema *cs = s; const Schema &r = ri(0, 1) ? cs->fetch_existing(q) : s->fetch_existing(q); if (!expect) CHECK(&r == s->parent()->child_ptr(t->parent->at(b)), "'..' goes elsewhere"); break; }
        case 14: { int k = (int)ri(0, 2); if (k == 0) { t->clear(); t->be(OBJ); s->set((index_t)DataType::OBJECT_ID); } else if (k == 1) { t->clear(); t->be(LST); s->set(DataType::list()); } else { t->clear(); s->set((index_t)DataType::EMPTY_ID); } break; }
        case 15: { Schema cp; cp = *s; T mc; mc.copy(*t); chk(cp, mc, nullptr); Schema c2(cp); chk(c2, mc, nullptr); break; }
        }
        } catch (const conduit::Error &) { threw = true; }
        CHECK(threw == expect, threw ? "an error was raised where none is due" : "no error where one is due");
        if (!chk(root, m, nullptr)) return;
        if (m.count() > 60) { m.clear(); root.reset(); }
    }
}
int main(int argc, char **argv) { init(argc, argv); for (int r = 0; r < 260 * effort && !fails; r++) history(60); return done(); }
