// A reference model of a hierarchy (what a Node or Schema tree must look like after a history of operations).
#ifndef VC_TREE_HPP
#define VC_TREE_HPP
#include "drv.hpp"
#include <memory>
using namespace conduit; using namespace drv;
enum { EMPTY, OBJ, LST, LEAF };
struct T {
    int kind = EMPTY; std::string name; T *parent = nullptr; std::vector<std::unique_ptr<T>> kids; long val = 0;
    int at(const std::string &n) const { if (kind != OBJ) return -1; for (size_t i = 0; i < kids.size(); i++) if (kids[i]->name == n) return (int)i; return -1; }
    void be(int k) { if (kind != k) { kids.clear(); kind = k; val = 0; } }
    T *add(const std::string &n) { be(OBJ); int i = at(n); if (i >= 0) return kids[i].get(); kids.emplace_back(new T); kids.back()->name = n; kids.back()->parent = this; return kids.back().get(); }
    T *app() { be(LST); kids.emplace_back(new T); kids.back()->parent = this; return kids.back().get(); }
    void rm(size_t i) { kids.erase(kids.begin() + i); }
    void leaf(long v) { kids.clear(); kind = LEAF; val = v; }
    void clear() { kids.clear(); kind = EMPTY; val = 0; }
    void copy(const T &o) { kids.clear(); kind = o.kind; val = o.val; for (auto &k : o.kids) { kids.emplace_back(new T); kids.back()->name = k->name; kids.back()->parent = this; kids.back()->copy(*k); } }
    int index() const { for (size_t i = 0; i < parent->kids.size(); i++) if (parent->kids[i].get() == this) return (int)i; return -1; }
    std::string label() const { if (!parent) return ""; if (parent->kind == LST) return "[" + std::to_string(index()) + "]"; return name.find('/') != std::string::npos ? "{" + name + "}" : name; }
    std::string path() const { if (!parent) return ""; std::string p = parent->path(); return p.size() ? p + "/" + label() : label(); }
    size_t count() const { size_t n = 1; for (auto &k : kids) n += k->count(); return n; }
    int depth() const { return parent ? parent->depth() + 1 : 0; }
};
inline void cut(const std::string &p, std::string &a, std::string &b) { size_t i = p.find('/'); if (i == std::string::npos) { a = p; b = ""; } else { a = p.substr(0, i); b = p.substr(i + 1); } }
// does every segment name a child in turn?
inline bool m_has(const T *t, std::string p) { if (t->kind != OBJ) return false; if (p.size() && p[0] == '/') p = p.substr(1); std::string a, b; cut(p, a, b); int i = t->at(a); if (i < 0) return false; return b.empty() ? true : m_has(t->kids[i].get(), b); }
inline const char *ids(int k) { return k == EMPTY ? "empty" : k == OBJ ? "object" : k == LST ? "list" : "leaf"; }
inline int kind_of(const DataType &d) { return d.is_empty() ? EMPTY : d.is_object() ? OBJ : d.is_list() ? LST : LEAF; }
inline void all(T *t, std::vector<T *> &o) { o.push_back(t); for (auto &k : t->kids) all(k.get(), o); }
inline const std::string &nm() { static const std::vector<std::string> v = {"a", "b", "c", "d", "a b", "x/y", "p/q/r", "e", "..b", "f"}; return v[ri(0, (long)v.size() - 1)]; }
inline std::string seg() { static const char *v[] = {"a", "b", "c", "d", "a b", "e", "f"}; return v[ri(0, 6)]; }
inline std::string pth() { std::string s = seg(); int n = (int)ri(0, 2); for (int i = 0; i < n; i++) s += "/" + seg(); return s; }
// the bookkeeping of one Schema agrees with the model, recursively
inline bool chk(const Schema &s, const T &t, const Schema *parent) {
    if (kind_of(s.dtype()) != t.kind) { fail("kind is %s, expected %s at %s", s.dtype().name().c_str(), ids(t.kind), t.path().c_str()); return false; }
    if (s.parent() != parent) { fail("the parent pointer is wrong at '%s'", t.path().c_str()); return false; }
    if ((size_t)s.number_of_children() != t.kids.size()) { fail("%ld children, expected %zu at '%s'", (long)s.number_of_children(), t.kids.size(), t.path().c_str()); return false; }
    if (t.kind == LEAF && (s.dtype().id() != DataType::INT64_ID || s.dtype().number_of_elements() < 1)) { fail("leaf dtype at '%s'", t.path().c_str()); return false; }
    if (s.name() != t.label()) { fail("name() '%s' expected '%s'", s.name().c_str(), t.label().c_str()); return false; }
    if (s.path() != t.path()) { fail("path() '%s' expected '%s'", s.path().c_str(), t.path().c_str()); return false; }
    if (t.kind != OBJ && s.child_names().size() != 0) { fail("names of a non-object"); return false; }
    if (t.kind == OBJ) {
        if (s.child_names().size() != t.kids.size()) { fail("child_names size at '%s'", t.path().c_str()); return false; }
        for (size_t i = 0; i < t.kids.size(); i++) {
            const std::string &n = t.kids[i]->name;
            if (s.child_names()[i] != n || s.child_name((index_t)i) != n) { fail("name %zu is '%s', expected '%s'", i, s.child_names()[i].c_str(), n.c_str()); return false; }
            if (!s.has_child(n)) { fail("has_child('%s') is false", n.c_str()); return false; }
            if (s.child_index(n) != (index_t)i) { fail("child_index('%s') = %ld, expected %zu", n.c_str(), (long)s.child_index(n), i); return false; }
            if (&s.child(n) != &s.child((index_t)i)) { fail("child by name and by index differ"); return false; }
        }
        for (int k = 0; k < 3; k++) { std::string n = nm(); if (s.has_child(n) != (t.at(n) >= 0)) { fail("has_child('%s')", n.c_str()); return false; } }
        std::string p = pth(); if (s.has_path(p) != m_has(&t, p)) { fail("has_path('%s') = %d at '%s'", p.c_str(), (int)s.has_path(p), t.path().c_str()); return false; }
        if (!s.child_name((index_t)t.kids.size()).empty()) { fail("name past the end"); return false; }
    }
    for (size_t i = 0; i < t.kids.size(); i++) if (!chk(s.child((index_t)i), *t.kids[i], &s)) return false;
    return true;
}
#endif
