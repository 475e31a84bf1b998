// C13: paths, separated text and escapes, against direct definitions on characters
#include "drv.hpp"
using namespace drv; using namespace conduit; using std::string; typedef std::vector<string> VS;
static string show(const string &s) { string r; for (char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } else r += c; } return r; }
static bool at(const string &s, const string &t, size_t k) { if (k + t.size() > s.size()) return false; for (size_t i = 0; i < t.size(); i++) if (s[k + i] != t[i]) return false; return true; }
static string cut(const string &s, size_t a, size_t b) { string r; for (size_t i = a; i < b; i++) r += s[i]; return r; }
static void osplit(const string &s, const string &sep, bool last, string &before, string &after, bool &found) {
    long f = -1; for (size_t k = 0; k < s.size(); k++) if (at(s, sep, k)) { f = (long)k; if (!last) break; }
    found = f >= 0; before = found ? cut(s, 0, f) : ""; after = found ? cut(s, f + sep.size(), s.size()) : "";
}
static string rs(const char *al, int n) { string r; int L = (int)strlen(al); for (int i = 0; i < n; i++) r += al[ri(0, L - 1)]; return r; }
static void one(const string &s, const string &sep) {
    string b, a; bool f; string c = "junk", n = "old";
    osplit(s, sep, false, b, a, f);
    where("split_string", "'%s' by '%s'", show(s).c_str(), show(sep).c_str()); utils::split_string(s, sep, c, n); CHECK(c == (f ? b : s) && n == (f ? a : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    if (sep == "/") {
        where("split_path", "'%s'", show(s).c_str()); c = "x"; n = "y"; utils::split_path(s, c, n); CHECK(c == (f ? b : s) && n == (f ? a : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
        where("split_file_path", "'%s'", show(s).c_str()); c = "x"; n = "y"; utils::split_file_path(s, c, n); CHECK(c == (f ? b : s) && n == (f ? a : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    }
    osplit(s, sep, true, b, a, f); c = "junk"; n = "old";
    where("rsplit_string", "'%s' by '%s'", show(s).c_str(), show(sep).c_str()); utils::rsplit_string(s, sep, c, n); CHECK(c == (f ? a : s) && n == (f ? b : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    if (sep == "/") {
        where("rsplit_path", "'%s'", show(s).c_str()); c = "x"; n = "y"; utils::rsplit_path(s, c, n); CHECK(c == (f ? a : s) && n == (f ? b : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
        where("rsplit_file_path", "'%s'", show(s).c_str()); c = "x"; n = "y"; utils::rsplit_file_path(s, c, n); CHECK(c == (f ? a : s) && n == (f ? b : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    }
    // file path with a separator of one's own: the colon of a drive does not split
    size_t d = (sep == ":" && s.size() > 2 && s[1] == ':' && s[2] == '\\') ? 3 : 0; string dr = cut(s, 0, d), body = cut(s, d, s.size());
    osplit(body, sep, false, b, a, f); c = "x"; n = "y";
    where("split_file_path.sep", "'%s' by '%s'", show(s).c_str(), show(sep).c_str()); utils::split_file_path(s, sep, c, n); CHECK(c == (f ? dr + b : s) && n == (f ? a : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    osplit(body, sep, true, b, a, f); c = "x"; n = "y";
    where("rsplit_file_path.sep", "'%s' by '%s'", show(s).c_str(), show(sep).c_str()); utils::rsplit_file_path(s, sep, c, n); CHECK(c == (f ? a : s) && n == (f ? dr + b : ""), "got '%s' and '%s'", show(c).c_str(), show(n).c_str());
    if (sep.size() == 1) {
        VS w{"kept", ""}; string cur; for (char x : s) { if (x == sep[0]) { if (cur != "") w.push_back(cur); cur = ""; } else cur += x; } if (cur != "") w.push_back(cur);
        VS g{"kept", ""}; where("split_string.list", "'%s' by '%s'", show(s).c_str(), show(sep).c_str()); utils::split_string(s, sep[0], g); CHECK(g == w, "got %zu pieces, want %zu", g.size() - 2, w.size() - 2);
    }
}
static void join(const string &l, const string &r) {
    string w = l; if (l != "" && l.back() != '/' && r != "") w += '/'; w += r;
    where("join_path", "'%s' '%s'", show(l).c_str(), show(r).c_str()); CHECK(utils::join_path(l, r) == w, "got '%s'", show(utils::join_path(l, r)).c_str());
    w = l; if (l != "" && l.back() != '/') w += '/'; w += r;
    where("join_file_path", "'%s' '%s'", show(l).c_str(), show(r).c_str()); CHECK(utils::join_file_path(l, r) == w, "got '%s'", show(utils::join_file_path(l, r)).c_str());
    if (l != "" && l.find('/') == string::npos && r != "") { string c, n; where("join then split", "'%s' '%s'", show(l).c_str(), show(r).c_str()); utils::split_path(utils::join_path(l, r), c, n); CHECK(c == l && n == r, "got '%s' and '%s'", show(c).c_str(), show(n).c_str()); }
}
static void esc(const string &s) {
    string w, u; for (char c : s) { if (c == '"' || c == '\\') { w += '\\'; w += c; } else if (c == '\n') w += "\\n"; else if (c == '\t') w += "\\t"; else if (c == '\b') w += "\\b"; else if (c == '\f') w += "\\f"; else if (c == '\r') w += "\\r"; else w += c; }
    where("escape", "'%s'", show(s).c_str()); string e = utils::escape_special_chars(s); CHECK(e == w, "got '%s' want '%s'", show(e).c_str(), show(w).c_str());
    where("unescape(escape)", "'%s'", show(s).c_str()); CHECK(utils::unescape_special_chars(e) == s, "got '%s'", show(utils::unescape_special_chars(e)).c_str());
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '\\' && i + 1 < s.size()) { const char *k = "\"\\/ntbfr", *v = "\"\\/\n\t\b\f\r"; const char *p = s[i + 1] ? strchr(k, s[i + 1]) : 0; if (p) { u += v[p - k]; i += 2; continue; } }
        u += s[i++];
    }
    where("unescape", "'%s'", show(s).c_str()); CHECK(utils::unescape_special_chars(s) == u, "got '%s' want '%s'", show(utils::unescape_special_chars(s)).c_str(), show(u).c_str());
}
static void trim(const string &s, const char *cs) {
    size_t a = 0, b = s.size(); auto in = [&](char c) { return c && strchr(cs, c); }; while (a < b && in(s[a])) a++; while (b > a && in(s[b - 1])) b--;
    string g = s; where("trim_string", "'%s' of '%s'", show(s).c_str(), show(cs).c_str()); utils::trim_string(g, cs); CHECK(g == cut(s, a, b), "got '%s'", show(g).c_str());
}
static void all(const char *al, int n, string cur, const std::function<void(const string &)> &f) { f(cur); if (n > 0) for (const char *p = al; *p; p++) all(al, n - 1, cur + *p, f); }
int main(int argc, char **argv) {
    init(argc, argv);
    all("a/", 7, "", [](const string &s) { one(s, "/"); });
    all("a:\\", 6, "", [](const string &s) { one(s, ":"); });
    all("ab", 7, "", [](const string &s) { one(s, "ab"); one(s, "aa"); one(s, "aba"); });
    all("a/", 4, "", [](const string &l) { all("b/", 4, "", [&](const string &r) { join(l, r); }); });
    all("\\n\"\nq", 5, "", [](const string &s) { esc(s); });
    all("\\u/", 5, "", [](const string &s) { esc(s); });
    all(" \ta", 5, "", [](const string &s) { trim(s, " \t\n"); trim(s, "a"); });
    for (int i = 0; i < 4000 * effort; i++) {
        one(rs("ab/:\\x. ", (int)ri(0, 40)), rs("/:ab\\", (int)ri(1, 3)));
        string s; int n = (int)ri(0, 30); for (int k = 0; k < n; k++) s += ri(0, 2) ? (char)ri(1, 255) : "\\\"\n\t\b\f\r/ntbfru"[ri(0, 13)];
        esc(s); trim(s, " \n\t\r");
        join(rs("ab/.", (int)ri(0, 12)), rs("ab/.", (int)ri(0, 12)));
    }
    return done();
}
