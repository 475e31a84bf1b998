// C16: walks over the children of random objects and lists, against the positions and names of the children
#include "drv.hpp"
using namespace conduit; using namespace drv;
static std::vector<std::string> NM; static std::vector<const Node *> K;
static std::string hist;
static void mk(Node &n)
{
    NM.clear(); K.clear(); n.reset(); int k = (int)ri(0, 8), c = (int)ri(0, 7);
    static const char *nm[] = {"a", "b", "c", "x/y", "a b", "0", "10", "d", "zz"};
    if (k == 0) { n.set(ri(0, 99)); return; }
    if (k == 1) return;
    if (k < 5) { n.set(DataType::list()); for (int i = 0; i < c; i++) { n.append().set(i); NM.push_back(std::to_string(i)); } }
    else { n.set(DataType::object()); for (int i = 0; i < c; i++) { std::string s = nm[ri(0, 8)]; if (std::find(NM.begin(), NM.end(), s) != NM.end()) continue; n.add_child(s).set(i); NM.push_back(s); } }
    for (index_t i = 0; i < n.number_of_children(); i++) K.push_back(n.child_ptr(i));
}
template <class IT> static void step(IT &it, long &p, const char *who)
{
    long n = (long)K.size(); int op = (int)ri(0, 9);
    where(who, "%ld children, %s op %d", n, hist.c_str(), op); if (hist.size() < 120) hist += std::to_string(op);
    const Node *g = nullptr; bool th = false;
    auto get = [&](std::function<const Node *()> f) { g = nullptr; th = throws([&]() { g = f(); }); };
    switch (op) {
    case 0: case 1: case 2: get([&]() { return &it.next(); }); if (p < n) { CHECK(!th && g == K[p], "next() at %ld", p); p++; } else CHECK(th, "next() at the end gave no error"); break;
    case 3: case 4: get([&]() { return &it.previous(); }); if (p > 1) { p--; CHECK(!th && g == K[p - 1], "previous() to %ld", p - 1); } else CHECK(th, "previous() at the front gave no error"); break;
    case 5: get([&]() { return &it.peek_next(); }); if (p < n) CHECK(!th && g == K[p], "peek_next() at %ld", p); else CHECK(th, "peek_next() at the end gave no error"); break;
    case 6: get([&]() { return &it.peek_previous(); }); if (p > 1) CHECK(!th && g == K[p - 1], "peek_previous() at %ld", p); else CHECK(th, "peek_previous() at the front gave no error"); break;
    case 7: if (ri(0, 2) == 0) { it.to_front(); p = 0; } break;
    case 8: if (ri(0, 2) == 0) { it.to_back(); p = n; } break;
    default: { IT b(it); IT c; c = b; for (long i = ri(0, n); i > 0 && c.has_next(); i--) c.next(); c = b; it = c; it = it; }
    }
    CHECK(it.has_next() == (p < n), "has_next() at %ld of %ld", p, n); CHECK(it.has_previous() == (p > 1), "has_previous() at %ld", p);
    CHECK(it.index() == p - 1, "index() is %ld, expected %ld", (long)it.index(), p - 1);
    if (p > 0) { CHECK(&it.node() == K[p - 1], "node() at %ld", p); CHECK(it.name() == NM[p - 1], "name() is '%s', expected '%s'", it.name().c_str(), NM[p - 1].c_str()); }
}
template <class CI> static void range(CI b, CI e, long from, const char *who)
{
    long n = (long)K.size(); where(who, "%ld children from %ld", n, from); CHECK(e - b == n - from && b.get_index() == from && e.get_index() == n, "the range is not [%ld, %ld)", from, n);
    long i = from; for (CI q = b; q != e && i <= n; ++q, i++) { CHECK(&*q == K[i] && q.operator->() == K[i] && q.name() == NM[i], "child %ld", i); } CHECK(i == n, "%ld children visited", i - from);
    i = n; for (CI q = e; q != b && i >= 0;) { --q; i--; CHECK(i >= 0 && &*q == K[i], "child %ld backwards", i); } CHECK(i == from, "backwards to %ld", i);
    for (int r = 0; r < 8 && n > from; r++) { long x = ri(from, n - 1), y = ri(from, n - 1); CI p = b + (x - from), q = (y - from) + b; CHECK(&*p == K[x] && &p[y - x] == K[y], "p[k]");
        CHECK((p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y) && (p == q) == (x == y) && (p != q) == (x != y) && q - p == y - x, "order of %ld and %ld", x, y);
        CI t(p); CHECK(&*(t++) == K[x] && t.get_index() == x + 1, "post-increment"); CHECK((t--).get_index() == x + 1 && t == p, "post-decrement"); t += y - x; CHECK(t == q, "+="); t -= y - x; CHECK(t == p && (q - (y - x)) == p, "-="); }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (int r = 0; r < 400 * effort; r++) {
        Node n, m; mk(n); const Node &c = n; long p;
        { hist = ""; p = 0; NodeIterator it = n.children(); for (int i = 0; i < 60; i++) step(it, p, "iterator"); NodeConstIterator ci(it), cj; cj = it; long q = p; for (int i = 0; i < 10; i++) step(ci, q, "const.of.iterator"); step(cj, p, "const.of.iterator"); it.to_back(); cj = it; p = (long)K.size(); step(cj, p, "const.of.iterator"); it.to_front(); cj = it; p = 0; step(cj, p, "const.of.iterator"); }
        { hist = ""; p = 0; NodeConstIterator it = c.children(); for (int i = 0; i < 60; i++) step(it, p, "const.iterator"); }
        { hist = "ptr"; p = ri(0, (long)K.size()); NodeIterator it(&n, p); NodeConstIterator ci(&c, p); long q = p; for (int i = 0; i < 10; i++) { step(it, p, "from.ptr"); step(ci, q, "from.ptr"); } }
        { hist = "ref"; p = ri(0, (long)K.size()); NodeIterator it(n, p); NodeConstIterator ci(c, p); long q = p; for (int i = 0; i < 10; i++) { step(it, p, "from.ref"); step(ci, q, "from.ref"); } }
        { NodeIterator it = n.children(); long f = ri(0, (long)K.size()); for (long i = 0; i < f; i++) it.next(); const NodeIterator &k = it; range(it.begin(), it.end(), f, "range"); range(it.cbegin(), it.cend(), f, "const.range"); range(k.begin(), k.end(), f, "const.range"); }
        { NodeConstIterator it = c.children(); range(it.begin(), it.end(), 0, "const.range"); }
        where("unrelated", "ranges of two nodes"); Node o; o.append(); CHECK(n.children().begin() != o.children().begin(), "positions in different nodes are equal");
        where("empty", "default iterators"); NodeIterator d; NodeConstIterator e; CHECK(!d.has_next() && !d.has_previous() && !e.has_next() && !e.has_previous(), "a default iterator has something to visit");
    }
    return done();
}
