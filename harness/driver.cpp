// Concrete search for a failing input, run against the library built from the current sources of /repo.
// It is used (a) to look for an input that exhibits a failed obligation, (b) as the labelled, bounded stand-in for functions
// that are outside the translated subset, (c) to cross-check the trusted models. Every case is self-describing and replayable.
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#ifndef DISTANCE_ONLY
#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/dawg_iterator.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/transducer.h"
#include "liblevenshtein/transducer/unsubsume.h"
#include "liblevenshtein/transducer/subsumes.h"
#endif

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define LIVE() __sanitizer_get_current_allocated_bytes()
#else
#define LIVE() ((size_t)0)
#endif

using std::size_t; using std::string; using std::vector;
namespace lld = liblevenshtein::distance;

// ------------------------------------------------------------------ cases
struct Case { string kind; vector<string> s; vector<uint64_t> n; };
static string hex(const string &s) { static const char *d = "0123456789abcdef"; string r = "x"; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static string unhex(const string &h) { string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return r; }
static string show(const Case &c) {
  string r = c.kind; r += " n"; for (auto v : c.n) { r += ' '; r += std::to_string(v); } r += " s"; for (auto &x : c.s) { r += ' '; r += hex(x); } return r;
}
static Case parse(const string &l) {
  std::istringstream in(l); Case c; string t; in >> c.kind; int m = 0;
  while (in >> t) { if (t == "n") m = 1; else if (t == "s") m = 2; else if (m == 1) c.n.push_back(std::stoull(t)); else c.s.push_back(unhex(t)); }
  return c;
}
static char *g_cur = nullptr; static const size_t CUR = 1 << 20;
static void note(const Case &c) { if (!g_cur) return; string t = show(c) + "\n"; size_t k = std::min(t.size(), CUR - 1); memcpy(g_cur, t.data(), k); g_cur[k] = 0; }
static string q(const string &s) { string r = "\""; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } } return r + "\""; }

// ------------------------------------------------------------------ oracle: edit distances by dynamic programming
static size_t odist(int alg, const string &v, const string &w) {
  size_t m = v.size(), n = w.size(); vector<vector<size_t>> d(m + 1, vector<size_t>(n + 1));
  for (size_t i = 0; i <= m; i++) for (size_t j = 0; j <= n; j++) {
    if (!i) { d[i][j] = j; continue; } if (!j) { d[i][j] = i; continue; }
    size_t b = d[i-1][j-1] + (v[i-1] != w[j-1]); b = std::min(b, d[i-1][j] + 1); b = std::min(b, d[i][j-1] + 1);
    if (alg == 1 && i > 1 && j > 1 && v[i-1] == w[j-2] && v[i-2] == w[j-1]) b = std::min(b, d[i-2][j-2] + 1);
    if (alg == 2) { if (j > 1) b = std::min(b, d[i-1][j-2] + 1); if (i > 1) b = std::min(b, d[i-2][j-1] + 1); }
    d[i][j] = b;
  }
  return d[m][n];
}
typedef string Fail;   // empty: held
static std::unique_ptr<lld::Distance> mkdist(int alg) {
  if (alg == 0) return std::make_unique<lld::StandardDistance>(); if (alg == 1) return std::make_unique<lld::TranspositionDistance>(); return std::make_unique<lld::MergeAndSplitDistance>();
}
static const char *ALGN[] = {"standard", "transposition", "merge-and-split"};

static Fail run_D(const Case &c) {       // n: alg, mode   s: pairs, measured in order with one object
  auto d = mkdist((int)c.n[0]);
  for (size_t i = 0; i + 1 < c.s.size(); i += 2) {
    size_t got = c.n[1] ? (*d)(c.s[i], c.s[i+1]) : d->between(c.s[i], c.s[i+1]), exp = odist((int)c.n[0], c.s[i], c.s[i+1]);
    if (got != exp) { std::ostringstream o; o << ALGN[c.n[0]] << " distance(" << q(c.s[i]) << ", " << q(c.s[i+1]) << ") returned " << got << ", the edit distance is " << exp << " (call " << i/2+1 << " of " << c.s.size()/2 << " on one object)"; return o.str(); }
  }
  return "";
}
static Fail run_T(const Case &c) {       // n: alg, threads, rounds
  auto d = mkdist((int)c.n[0]); std::atomic<int> bad{-1}; std::atomic<int> go{0}; vector<std::thread> ts; size_t np = c.s.size() / 2; vector<size_t> exp(np);
  for (size_t i = 0; i < np; i++) exp[i] = odist((int)c.n[0], c.s[2*i], c.s[2*i+1]);
  for (size_t t = 0; t < c.n[1]; t++) ts.emplace_back([&, t] {
    go++; while (go.load() < (int)c.n[1]) std::this_thread::yield();
    for (size_t r = 0; r < c.n[2]; r++) for (size_t k = 0; k < np; k++) { size_t i = (t % 2) ? (k * 7 + t + r) % np : k; if (d->between(c.s[2*i], c.s[2*i+1]) != exp[i]) bad = (int)i; }
  });
  for (auto &t : ts) t.join();
  if (bad >= 0) return "concurrent call returned a wrong distance for " + q(c.s[2*bad]) + ", " + q(c.s[2*bad+1]);
  return "";
}
#ifndef DISTANCE_ONLY
using namespace liblevenshtein;
static SortedDawg *build(vector<string> v) { return sorted_dawg(v.begin(), v.end()); }
static string list(const std::set<string> &s) { string r; for (auto &x : s) { r += q(x) + " "; if (r.size() > 400) { r += "..."; break; } } return r; }

template <Algorithm A> static Fail query(Dawg *d, const vector<string> &terms, const string &w, size_t n) {
  std::map<string, size_t> exp; for (auto &t : terms) { size_t k = odist((int)A, t, w); if (k <= n) exp[t] = k; }
  size_t cap = exp.size() + 8;
  { std::map<string, size_t> got; Transducer<A, Candidate> tr(d->root()); size_t cnt = 0;
    for (const auto &p : tr(w, n)) {
      if (++cnt > cap) return "query " + q(w) + " n=" + std::to_string(n) + " yields more candidates than there are matching terms";
      if (got.count(p.first)) return "query " + q(w) + " n=" + std::to_string(n) + " yields " + q(p.first) + " twice";
      got[p.first] = p.second;
      if (!exp.count(p.first)) return "query " + q(w) + " n=" + std::to_string(n) + " yields " + q(p.first) + " which is not a term in range";
      if (exp[p.first] != p.second) return "query " + q(w) + " n=" + std::to_string(n) + " gives " + q(p.first) + " distance " + std::to_string(p.second) + " instead of " + std::to_string(exp[p.first]);
    }
    for (auto &e : exp) if (!got.count(e.first)) return "query " + q(w) + " n=" + std::to_string(n) + " misses " + q(e.first) + " at distance " + std::to_string(e.second);
  }
  { std::set<string> got; Transducer<A, string> tr(d->root()); size_t cnt = 0;
    for (const string &t : tr(w, n)) {
      if (++cnt > cap) return "plain query " + q(w) + " n=" + std::to_string(n) + " yields too many candidates";
      if (!got.insert(t).second) return "plain query " + q(w) + " n=" + std::to_string(n) + " yields " + q(t) + " twice";
      if (!exp.count(t)) return "plain query " + q(w) + " n=" + std::to_string(n) + " yields " + q(t) + " which is not a term in range";
    }
    if (got.size() != exp.size()) { for (auto &e : exp) if (!got.count(e.first)) return "plain query " + q(w) + " n=" + std::to_string(n) + " misses " + q(e.first); }
  }
  return "";
}
static Fail queryA(int alg, Dawg *d, const vector<string> &t, const string &w, size_t n) {
  return alg == 0 ? query<Algorithm::STANDARD>(d, t, w, n) : alg == 1 ? query<Algorithm::TRANSPOSITION>(d, t, w, n) : query<Algorithm::MERGE_AND_SPLIT>(d, t, w, n);
}
static Fail run_Q(const Case &c) {      // n: alg, maxima...   s: number of queries is n[1]; queries first, then terms
  int alg = (int)c.n[0]; size_t nq = c.n[1]; vector<string> qs(c.s.begin(), c.s.begin() + nq), terms(c.s.begin() + nq, c.s.end());
  std::unique_ptr<SortedDawg> d(build(terms)); if (!d) return "building a dictionary of ascending terms failed";
  for (auto &w : qs) for (size_t i = 2; i < c.n.size(); i++) { Fail f = queryA(alg, d.get(), terms, w, c.n[i]); if (!f.empty()) return string(ALGN[alg]) + ": " + f; }
  return "";
}
static vector<string> probes(const vector<string> &terms, size_t limit) {
  std::set<string> p; p.insert(""); 
  for (auto &t : terms) { p.insert(t); for (size_t k = 0; k < t.size(); k++) { if (p.size() > limit) break; p.insert(t.substr(0, k)); p.insert(t.substr(k)); string u = t; u[k] = (char)(u[k] + 1); p.insert(u); u.erase(k, 1); p.insert(u); } p.insert(t + "a"); p.insert(t + string(1, '\0')); }
  for (size_t i = 0; i + 1 < terms.size() && p.size() < 2 * limit; i++) { auto &a = terms[i], &b = terms[i+1]; p.insert(a.substr(0, a.size()/2) + b.substr(b.size()/2)); p.insert(b.substr(0, (b.size()+1)/2) + a.substr(a.size()/2)); }
  return vector<string>(p.begin(), p.end());
}
static Fail run_B(const Case &c) {      // n: container kind   s: terms in the given order
  bool asc = true; for (size_t i = 1; i < c.s.size(); i++) if (c.s[i] < c.s[i-1]) asc = false;
  std::unique_ptr<SortedDawg> d;
  if (c.n[0] == 0) d.reset(build(c.s)); else if (c.n[0] == 1) { std::list<string> l(c.s.begin(), c.s.end()); d.reset(sorted_dawg(l.begin(), l.end())); }
  else { std::set<string> l(c.s.begin(), c.s.end()); asc = true; d.reset(sorted_dawg(l.begin(), l.end())); }
  if (!asc) return d ? "a sequence that is not ascending was accepted" : "";
  if (!d) return "an ascending sequence was refused";
  std::set<string> in(c.s.begin(), c.s.end());
  for (auto &p : probes(c.s, 400)) if (d->contains(p) != (in.count(p) > 0)) return "contains(" + q(p) + ") is " + (d->contains(p) ? "true" : "false") + " for a dictionary of " + list(in);
  return "";
}
static Fail enumerate(Dawg *d, const std::set<string> &in, const char *what) {
  if (d->size() != in.size()) return string(what) + ": size() is " + std::to_string(d->size()) + " for " + std::to_string(in.size()) + " terms";
  std::set<string> got; size_t cnt = 0; DawgIterator e = d->end();
  for (DawgIterator it = d->begin(); !(it == e); ++it) { string t = *it; if (++cnt > in.size() + 4) return string(what) + ": the enumeration does not end"; if (!got.insert(t).second) return string(what) + ": the enumeration yields " + q(t) + " twice"; if (!in.count(t)) return string(what) + ": the enumeration yields " + q(t) + " which is not a term"; }
  for (auto &t : in) if (!got.count(t)) return string(what) + ": the enumeration misses " + q(t);
  return "";
}
static Fail run_E(const Case &c) {
  std::unique_ptr<SortedDawg> d(build(c.s)); if (!d) return "an ascending sequence was refused"; std::set<string> in(c.s.begin(), c.s.end());
  for (int r = 0; r < 2; r++) { Fail f = enumerate(d.get(), in, "dictionary"); if (!f.empty()) return f; }
  // two interleaved enumerations
  DawgIterator a = d->begin(), b = d->begin(), e = d->end(); size_t k = 0; vector<string> x, y;
  while (!(a == e) || !(b == e)) { if (++k > 4 * in.size() + 8) return "interleaved enumeration does not end"; if (!(a == e)) { x.push_back(*a); ++a; } if (k % 2 == 0 && !(b == e)) { y.push_back(*b); ++b; } }
  if (x != y) return "two enumerations of one dictionary differ"; if (std::set<string>(x.begin(), x.end()) != in || x.size() != in.size()) return "interleaved enumeration is wrong";
  return "";
}
static size_t count_nodes(DawgNode *r) { std::unordered_set<DawgNode *> s{r}; vector<DawgNode *> p{r}; while (!p.empty()) { auto *x = p.back(); p.pop_back(); x->for_each_edge([&](char, DawgNode *t) { if (s.insert(t).second) p.push_back(t); }); } return s.size(); }
static size_t minimal_count(const std::set<string> &in) { // distinct non-empty right languages, plus the root
  std::map<string, std::set<string>> m; m[""]; for (auto &t : in) for (size_t k = 0; k <= t.size(); k++) m[t.substr(0, k)].insert(t.substr(k));
  std::set<std::set<string>> l; for (auto &e : m) l.insert(e.second); return l.size();
}
static Fail run_M(const Case &c) {
  std::unique_ptr<SortedDawg> d(build(c.s)); if (!d) return "an ascending sequence was refused"; std::set<string> in(c.s.begin(), c.s.end());
  size_t a = count_nodes(d->root()), b = minimal_count(in);
  // the root is never shared: it may accept the same language as an inner node only when both are equal, which needs an infinite language
  if (a != b) return "the dictionary has " + std::to_string(a) + " reachable nodes, a minimal one has " + std::to_string(b) + ": " + list(in);
  return "";
}
static string g_tmp = ".", g_exe = "/proc/self/exe";
static Fail run_S(const Case &c) {      // n: route
  std::unique_ptr<SortedDawg> d(build(c.s)); if (!d) return "an ascending sequence was refused"; std::set<string> in(c.s.begin(), c.s.end());
  std::unique_ptr<Dawg> l; string path = g_tmp + "/dict.pb";
  if (c.n[0] == 0) { std::stringstream ss; if (!serialize_protobuf(d.get(), ss)) return "serialising to a stream failed"; l.reset(deserialize_protobuf(ss)); }
  else if (c.n[0] == 1) { if (!serialize_protobuf(d.get(), path)) return "serialising to a file failed"; l.reset(deserialize_protobuf(path)); }
  else if (c.n[0] == 2) { if (!serialize_protobuf(d.get(), path.c_str())) return "serialising to a file failed"; l.reset(deserialize_protobuf(path.c_str())); }
  else { std::filesystem::path p(path); if (!serialize_protobuf(d.get(), p)) return "serialising to a file failed"; l.reset(deserialize_protobuf(p)); }
  if (!l) return "reading back a saved dictionary failed";
  if (l->size() != d->size()) return "the loaded dictionary has another size";
  for (auto &p : probes(c.s, 300)) if (l->contains(p) != (in.count(p) > 0)) return "loaded dictionary: contains(" + q(p) + ") is " + (l->contains(p) ? "true" : "false") + " for terms " + list(in);
  if (!(*l == *d) || !(*d == *l)) return "the loaded dictionary does not compare equal to the saved one";
  if (std::hash<Dawg>()(*l) != std::hash<Dawg>()(*d)) return "the loaded dictionary hashes differently";
  Fail f = enumerate(l.get(), in, "loaded dictionary"); if (!f.empty()) return f;
  return enumerate(d.get(), in, "saved dictionary");
}
static void langs(DawgNode *r, std::map<DawgNode *, std::set<string>> &m) {
  if (m.count(r)) return; std::set<string> s; if (r->is_final()) s.insert(""); vector<std::pair<char, DawgNode *>> e; r->for_each_edge([&](char c, DawgNode *t) { e.emplace_back(c, t); });
  for (auto &x : e) { langs(x.second, m); for (auto &y : m[x.second]) s.insert(string(1, x.first) + y); } m[r] = s;
}
static Fail run_H(const Case &c) {      // n: number of terms of the first dictionary
  vector<string> a(c.s.begin(), c.s.begin() + c.n[0]), b(c.s.begin() + c.n[0], c.s.end());
  std::unique_ptr<SortedDawg> d(build(a)), e(build(b)); if (!d || !e) return "an ascending sequence was refused";
  bool same = a == b; Dawg &x = *d, &y = *e;
  if ((x == y) != same || (y == x) != same) return string("dictionaries of ") + (same ? "the same" : "different") + " terms compare " + ((x == y) ? "equal" : "different");
  if (!(x == x)) return "a dictionary differs from itself";
  if (same && std::hash<Dawg>()(x) != std::hash<Dawg>()(y)) return "equal dictionaries hash differently";
  std::map<DawgNode *, std::set<string>> m; langs(d->root(), m); langs(e->root(), m); std::hash<DawgNode> h;
  for (auto &p : m) for (auto &r : m) { bool eq = p.second == r.second; if ((*p.first == *r.first) != eq) return string("nodes accepting ") + (eq ? "the same" : "different") + " suffixes compare " + (eq ? "different: " : "equal: ") + list(p.second) + "| " + list(r.second); if (eq && h(*p.first) != h(*r.first)) return "equal nodes hash differently: " + list(p.second); }
  return "";
}
struct P3 { size_t i, e; bool s; bool operator<(const P3 &o) const { return std::tie(i, e, s) < std::tie(o.i, o.e, o.s); } bool operator==(const P3 &o) const = default; };
static vector<P3> seen(State &s) { vector<P3> r; for (Position *p : s) { r.push_back({p->term_index(), p->num_errors(), p->is_special()}); if (r.size() > 100000) break; } return r; }
static vector<P3> links(State &s) { vector<P3> r; for (Position *p = s.head(); p; p = p->next()) { r.push_back({p->term_index(), p->num_errors(), p->is_special()}); if (r.size() > 100000) break; } return r; }
static string show3(const vector<P3> &v) { string r; for (auto &p : v) { r += "(" + std::to_string(p.i) + "," + std::to_string(p.e) + (p.s ? ",s) " : ") "); if (r.size() > 300) return r + "..."; } return r; }
static int cmp3(int alg, Position *a, Position *b) { return alg == 0 ? compare<Algorithm::STANDARD>(a, b) : alg == 1 ? compare<Algorithm::TRANSPOSITION>(a, b) : compare<Algorithm::MERGE_AND_SPLIT>(a, b); }
static void merge3(int alg, State *s, const vector<Position *> &v) { if (alg == 0) merge<Algorithm::STANDARD>(s, v); else if (alg == 1) merge<Algorithm::TRANSPOSITION>(s, v); else merge<Algorithm::MERGE_AND_SPLIT>(s, v); }
static Fail run_L(const Case &c) {      // n: alg, mode, then triples; a triple (2^63,*,*) starts a new batch
  int alg = (int)c.n[0], mode = (int)c.n[1]; vector<vector<P3>> bs(1);
  for (size_t k = 2; k + 2 < c.n.size(); k += 3) { if (c.n[k] == (1ull << 63)) bs.emplace_back(); else bs.back().push_back({c.n[k], c.n[k+1], alg == 0 ? false : c.n[k+2] != 0}); }
  std::function<int(Position *, Position *)> cmp = [alg](Position *a, Position *b) { return cmp3(alg, a, b); };
  vector<P3> all; for (auto &b : bs) for (auto &p : b) all.push_back(p); vector<P3> srt = all; std::sort(srt.begin(), srt.end());
  if (mode == 0) {        // merge, then iterate, then sort
    State s; std::set<P3> exp;
    for (auto &b : bs) { vector<Position *> v; for (auto &p : b) v.push_back(new Position(p.i, p.e, p.s)); merge3(alg, &s, v); for (auto &p : b) exp.insert(p);
      vector<P3> g = links(s); if (g != seen(s)) return "iterating a state does not visit its positions in list order"; std::set<P3> gs(g.begin(), g.end());
      if (g.size() != gs.size()) return string(ALGN[alg]) + " merge left duplicates: " + show3(g); if (gs != exp) return string(ALGN[alg]) + " merge: state holds " + show3(g) + " instead of " + show3(vector<P3>(exp.begin(), exp.end())); }
    s.sort(cmp); vector<P3> g = links(s); if (g != vector<P3>(exp.begin(), exp.end())) return string(ALGN[alg]) + " sort: " + show3(g) + " instead of " + show3(vector<P3>(exp.begin(), exp.end()));
    return "";
  }
  if (mode == 1) {        // sort a list with duplicates
    vector<Position *> v; for (auto &p : all) v.push_back(new Position(p.i, p.e, p.s)); State s(v); if (links(s) != all || seen(s) != all) return "a state built from a list does not hold it in order";
    s.sort(cmp); vector<P3> g = links(s); if (g != srt) return string(ALGN[alg]) + " sort: " + show3(g) + " instead of " + show3(srt); if (seen(s) != g) return "iterating a sorted state does not visit its positions in order"; return "";
  }
  if (mode == 2) {        // comparison
    auto sg = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
    for (auto &a : all) for (auto &b : all) { Position p(a.i, a.e, a.s), r(b.i, b.e, b.s); int e = a < b ? -1 : b < a ? 1 : 0; if (sg(cmp3(alg, &p, &r)) != e) return string(ALGN[alg]) + " compare of " + show3({a}) + "and " + show3({b}) + "is " + std::to_string(cmp3(alg, &p, &r)); }
    return "";
  }
  // list surgery: add, head, insert_after, remove against a vector model
  State s; vector<P3> m; size_t step = 0;
  for (auto &p : all) {
    size_t op = (p.i + p.e * 3 + step++) % 5;
    if (op == 0) { s.add(new Position(p.i, p.e, p.s)); m.push_back(p); }
    else if (op == 1) { s.head(new Position(p.i, p.e, p.s)); m.insert(m.begin(), p); }
    else if (op == 2) { if (m.empty()) { s.insert_after(nullptr, new Position(p.i, p.e, p.s)); m.push_back(p); } else { size_t k = p.i % m.size(); Position *x = s.head(); for (size_t j = 0; j < k; j++) x = x->next(); s.insert_after(x, new Position(p.i, p.e, p.s)); m.insert(m.begin() + k + 1, p); } }
    else if (op == 3 && !m.empty()) { size_t k = p.e % m.size(); Position *pr = nullptr, *x = s.head(); for (size_t j = 0; j < k; j++) { pr = x; x = x->next(); } s.remove(pr, x); m.erase(m.begin() + k); }
    else { s.add(new Position(p.i, p.e, p.s)); m.push_back(p); }
    if (links(s) != m || seen(s) != m) return "list surgery: state holds " + show3(links(s)) + " instead of " + show3(m);
  }
  return "";
}
typedef vector<std::pair<string, size_t>> Res;
template <Algorithm A> struct Sess { Transducer<A, Candidate> t; explicit Sess(DawgNode *r) : t(r) {} };
template <class F> static auto withalg(int alg, F f) { if (alg == 0) return f(std::integral_constant<Algorithm, Algorithm::STANDARD>()); if (alg == 1) return f(std::integral_constant<Algorithm, Algorithm::TRANSPOSITION>()); return f(std::integral_constant<Algorithm, Algorithm::MERGE_AND_SPLIT>()); }
// what a process that has done nothing else answers: the failures reported in mode R are those that depend on what was done before
static string fresh(const Case &c) {
  string f = g_tmp + "/fresh-" + std::to_string(getpid()); { std::ofstream o(f); o << show(c) << "\n"; }
  string r; FILE *p = popen(("exec '" + g_exe + "' fresh='" + f + "' lim=30 2>/dev/null").c_str(), "r"); if (!p) return ""; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) r.append(b, k); int rc = pclose(p); unlink(f.c_str()); return rc == 0 ? r : "died";
}
static string asked(const Res &r) { vector<string> v; for (auto &p : r) v.push_back(hex(p.first) + ":" + std::to_string(p.second)); std::sort(v.begin(), v.end()); string o; for (auto &x : v) o += x + "\n"; return o + "."; }
static string run_fresh(const Case &c) {   // n: what, alg, max   s: query, terms
  vector<string> terms(c.s.begin() + 1, c.s.end()); std::unique_ptr<SortedDawg> d(build(terms)); if (!d) return "refused"; std::set<string> in(terms.begin(), terms.end());
  if (c.n[0] == 1) { Fail f = enumerate(d.get(), in, "dictionary"); return f.empty() ? "fine" : f; }
  if (c.n[0] == 2) return d->contains(c.s[0]) ? "yes" : "no";
  return withalg((int)c.n[1], [&](auto A) -> string { Transducer<A.value, Candidate> t(d->root()); Res r; for (const auto &p : t(c.s[0], c.n[2])) { r.push_back(p); if (r.size() > terms.size() + 4) break; } return asked(r); });
}
static Fail run_R(const Case &c) {      // n: alg, nq, seed ; s: queries then terms ; history of complete, abandoned, interleaved and repeated queries on one transducer
  int alg = (int)c.n[0]; size_t nq = c.n[1]; std::mt19937_64 rng(c.n[2]); vector<string> qs(c.s.begin(), c.s.begin() + nq), terms(c.s.begin() + nq, c.s.end());
  std::unique_ptr<SortedDawg> d(build(terms)); if (!d) return "an ascending sequence was refused"; std::set<string> in(terms.begin(), terms.end());
  return withalg(alg, [&](auto A) -> Fail {
    Transducer<A.value, Candidate> t(d->root()); std::map<std::pair<string, size_t>, Res> first;
    auto expect = [&](const string &w, size_t n) { std::map<string, size_t> e; for (auto &x : terms) { size_t k = odist(alg, x, w); if (k <= n) e[x] = k; } return e; };
    auto runaway = [&](const string &w, size_t n) -> Fail { Case fc{"F", {w}, {0, (uint64_t)alg, n}}; fc.s.insert(fc.s.end(), terms.begin(), terms.end()); string fr = fresh(fc); return fr != "died" && (size_t)std::count(fr.begin(), fr.end(), '\n') <= terms.size() ? "query " + q(w) + " n=" + std::to_string(n) + " does not end after earlier queries" : ""; };
    auto check = [&](const string &w, size_t n, const Res &r) -> Fail {
      auto key = std::make_pair(w, n); if (first.count(key)) { if (first[key] != r) return "repeating query " + q(w) + " n=" + std::to_string(n) + " gives another result"; } else { first[key] = r; }
      std::map<string, size_t> g(r.begin(), r.end()); if (g.size() != r.size() || g != expect(w, n)) { Case fc{"F", {w}, {0, (uint64_t)alg, n}}; fc.s.insert(fc.s.end(), terms.begin(), terms.end()); string fr = fresh(fc); if (fr != asked(r) && fr != "died") return "query " + q(w) + " n=" + std::to_string(n) + " gives another result after earlier queries than at first"; } return ""; };
    auto calm = [&]() -> Fail { Fail f = enumerate(d.get(), in, "after queries"); if (!f.empty()) { Case fc{"F", {""}, {1, 0, 0}}; fc.s.insert(fc.s.end(), terms.begin(), terms.end()); if (fresh(fc) == "fine") return f; }
      for (auto &p : probes(terms, 30)) if (d->contains(p) != (in.count(p) > 0)) { Case fc{"F", {p}, {2, 0, 0}}; fc.s.insert(fc.s.end(), terms.begin(), terms.end()); if (fresh(fc) == (in.count(p) ? "yes" : "no")) return "contains(" + q(p) + ") changed after queries"; }
      return ""; };
    for (int step = 0; step < 14; step++) {
      const string &w = qs[rng() % nq]; size_t n = rng() % 4; int op = (int)(rng() % 5);
      auto it = t(w, n); size_t cap = terms.size() + 4;
      if (op == 0) { auto b = it.begin(); auto e = it.end(); size_t k = rng() % 3; while (k-- && !(b == e)) ++b; }                  // abandoned
      else if (op == 1) { const string &w2 = qs[rng() % nq]; size_t n2 = rng() % 4; auto it2 = t(w2, n2); auto a = it.begin(); auto ae = it.end(); auto b = it2.begin(); auto be = it2.end(); Res r, r2;
        while (!(a == ae) || !(b == be)) { if (!(a == ae)) { r.push_back(*a); ++a; } if (!(b == be) && rng() % 3) { r2.push_back(*b); ++b; } if (r.size() > cap) return runaway(w, n); if (r2.size() > cap) return runaway(w2, n2); }
        Fail f = check(w, n, r); if (f.empty()) f = check(w2, n2, r2); if (!f.empty()) return f; }
      else if (op == 2) { for (int k = 0; k < 2; k++) { Res r; for (const auto &p : it) { r.push_back(p); if (r.size() > cap) return runaway(w, n); } Fail f = check(w, n, r); if (!f.empty()) return f; } }   // one range walked twice
      else if (op == 3) { Fail f = calm(); if (!f.empty()) return f; }
      else { Res r; for (const auto &p : it) { r.push_back(p); if (r.size() > cap) return runaway(w, n); } Fail f = check(w, n, r); if (!f.empty()) return f; }
    }
    { Fail f = calm(); if (!f.empty()) return f; }
    Transducer<A.value, Candidate> t2(d->root()); for (auto &e : first) { Res r; for (const auto &p : t2(e.first.first, e.first.second)) { r.push_back(p); if (r.size() > terms.size() + 4) return runaway(e.first.first, e.first.second); } if (r != e.second) return "another query object gives another result for " + q(e.first.first); }
    return ""; });
}
static Fail run_G(const Case &c) {      // memory: a scenario; n: what, alg, seed ; leaks are measured by the caller
  int alg = (int)c.n[1]; std::mt19937_64 rng(c.n[2]);
  if (c.n[0] == 0) { std::unique_ptr<SortedDawg> d(build(c.s)); return ""; }                                     // build (perhaps refused)
  if (c.n[0] == 1) { SortedDawg *d = new SortedDawg(); d->init(); size_t k = rng() % (c.s.size() + 1); for (size_t i = 0; i < k; i++) d->add(c.s[i]); delete d; return ""; }   // abandoned construction
  vector<string> v = c.s; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::unique_ptr<SortedDawg> d(build(v)); if (!d) return "an ascending sequence was refused";
  if (c.n[0] == 2) { auto it = d->begin(); auto e = d->end(); size_t k = rng() % (v.size() + 1); while (k-- && !(it == e)) ++it; return ""; }
  if (c.n[0] == 3) { std::stringstream ss; serialize_protobuf(d.get(), ss); std::unique_ptr<Dawg> l(deserialize_protobuf(ss)); (void)(*l == *d); return ""; }
  return withalg(alg, [&](auto A) -> Fail { Transducer<A.value, Candidate> t(d->root()); Transducer<A.value, string> t2(d->root()); 
    for (int s = 0; s < 3; s++) { string w = v.empty() ? "ab" : v[rng() % v.size()]; if (rng() % 2 && !w.empty()) w[rng() % w.size()] = 'b'; size_t n = rng() % 4; auto it = t(w, n); auto b = it.begin(); auto e = it.end(); size_t k = rng() % 6; while (k-- && !(b == e)) ++b; auto i2 = t2(w, n); size_t cnt = 0; for (const string &x : i2) { (void)x; if (++cnt > v.size() + 4) return "a query does not end"; } }
    return ""; });
}
#endif
static Fail run(const Case &c) {
  note(c);
  if (c.kind == "D") return run_D(c); if (c.kind == "T") return run_T(c);
#ifndef DISTANCE_ONLY
  if (c.kind == "Q") return run_Q(c); if (c.kind == "B") return run_B(c); if (c.kind == "E") return run_E(c); if (c.kind == "S") return run_S(c);
  if (c.kind == "H") return run_H(c); if (c.kind == "L") return run_L(c); if (c.kind == "M") return run_M(c); if (c.kind == "R") return run_R(c);
  if (c.kind == "G") { Fail f; for (int k = 0; k < 3; k++) { size_t a = LIVE(); f = run_G(c); if (!f.empty()) return f; size_t b = LIVE(); if (b <= a) return ""; } return "memory still allocated after everything was destroyed"; }
#endif
  return "unknown case kind";
}

// ------------------------------------------------------------------ generation
static std::mt19937_64 G; static vector<uint64_t> INTS; static string CHARS;
static size_t R(size_t n) { return n ? G() % n : 0; }
static string ALPHA[] = {"ab", "abc", "abcdefgh", string("\0a\x7f\x80\xff", 5), "aA0 .-"};
static const string &alpha() { size_t k = R(12); if (k == 0 && !CHARS.empty()) return CHARS; return ALPHA[k < 5 ? 0 : k < 8 ? 1 : k < 9 ? 2 : k < 11 ? 3 : 4]; }
static string word(const string &a, size_t mx) { string r; for (size_t k = R(mx + 1); k--;) r += a[R(a.size())]; return r; }
static string mutate(string w, const string &a, size_t k) {
  while (k--) { size_t o = R(6), i = w.empty() ? 0 : R(w.size()); char c = a[R(a.size())];
    if (o == 0 || w.empty()) w.insert(w.begin() + i, c); else if (o == 1) w.erase(i, 1); else if (o == 2) w[i] = c; else if (o == 3 && i + 1 < w.size()) std::swap(w[i], w[i+1]);
    else if (o == 4 && i + 1 < w.size()) { w.erase(i, 1); w[i] = c; } else { w[i] = c; w.insert(w.begin() + i, a[R(a.size())]); } }
  return w;
}
static vector<string> dict(const string &a, size_t n, size_t mx) {
  std::set<string> s; vector<string> suf; for (int i = 0; i < 3; i++) suf.push_back(word(a, mx / 2 + 1));
  for (size_t i = 0; i < n; i++) { string w = word(a, mx); size_t o = R(6); if (o == 0) w += suf[R(3)]; if (o == 1 && !s.empty()) { auto it = s.begin(); std::advance(it, R(s.size())); w = *it + word(a, 2); } if (o == 2 && !s.empty()) { auto it = s.begin(); std::advance(it, R(s.size())); w = mutate(*it, a, 1 + R(2)); } s.insert(w); }
  if (R(3) == 0) s.insert(""); return vector<string>(s.begin(), s.end());
}
static vector<string> allwords(const string &a, size_t mx) { vector<string> r{""}, cur{""}; for (size_t l = 0; l < mx; l++) { vector<string> nx; for (auto &w : cur) for (char c : a) nx.push_back(w + c); r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static size_t special_len() { static const size_t L[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}; if (!INTS.empty() && R(2)) { size_t v = INTS[R(INTS.size())]; return v + R(3) - (v ? 1 : 0); } return L[R(16)]; }
typedef std::function<bool(const Case &)> Sink;   // returns false to stop
static void gen(const string &mode, int alg, int level, Sink out) {
  auto A = [&]() { return alg >= 0 ? (uint64_t)alg : (uint64_t)R(3); };
#define EMIT(c) do { if (!out(c)) return; } while (0)
  for (int phase = 0; ; phase++) {
    if (mode == "D") {
      if (phase == 0) { // exhaustive: all ordered pairs of short words
        auto w = allwords("abc", 3); auto w2 = allwords("ab", 5); for (auto *ws : {&w, &w2}) for (auto &x : *ws) { Case c{"D", {}, {A(), 0}}; for (auto &y : *ws) { c.s.push_back(x); c.s.push_back(y); } EMIT(c); }
        // special lengths, low recursion cost: near-equal long words
      } else { string a = alpha(); Case c{"D", {}, {A(), (uint64_t)R(2)}}; size_t k = 1 + R(6); size_t mx = 2 + R(9); vector<string> pool; for (size_t i = 0; i < 4; i++) pool.push_back(word(a, mx));
        while (k--) { string x = R(2) ? pool[R(4)] : word(a, mx), y = R(2) ? mutate(x, a, R(4)) : R(2) ? pool[R(4)] : word(a, mx); if (R(40) == 0) { size_t L = special_len(); if (L < 400) { x = string(L, a[R(a.size())]); y = mutate(x, a, R(4)); if (R(3) == 0) y = ""; if (R(4) == 0) y = x.substr(0, R(L + 1)) ; } } if (R(2)) std::swap(x, y); c.s.push_back(x); c.s.push_back(y); if (R(3) == 0) { c.s.push_back(y); c.s.push_back(x); } }
        EMIT(c); }
    } else if (mode == "T") {
      string a = alpha(); Case c{"T", {}, {A(), 2 + R(6), 1 + R(3)}}; for (size_t k = 2 + R(4); k--;) { string x = word(a, 7); c.s.push_back(x); c.s.push_back(R(2) ? mutate(x, a, R(4)) : word(a, 7)); } EMIT(c);
    }
#ifndef DISTANCE_ONLY
    else if (mode == "Q") {
      if (phase == 0) { // exhaustive: dictionary of all words, every short query
        auto d = allwords("ab", level ? 6 : 5); std::sort(d.begin(), d.end()); auto qs = allwords("ab", level ? 6 : 5); auto q2 = allwords("abc", 3); qs.insert(qs.end(), q2.begin(), q2.end());
        for (size_t i = 0; i < qs.size(); i += 8) { Case c{"Q", {}, {A(), 0, 0, 1, 2, 3}}; if (level) c.n.push_back(4); for (size_t j = i; j < qs.size() && j < i + 8; j++) c.s.push_back(qs[j]); c.n[1] = c.s.size(); c.s.insert(c.s.end(), d.begin(), d.end()); EMIT(c); }
        auto d3 = allwords("abc", 4); std::sort(d3.begin(), d3.end()); auto q3 = allwords("abc", 4); for (size_t i = 0; i < q3.size(); i += 8) { Case c{"Q", {}, {A(), 0, 1, 2}}; for (size_t j = i; j < q3.size() && j < i + 8; j++) c.s.push_back(q3[j]); c.n[1] = c.s.size(); c.s.insert(c.s.end(), d3.begin(), d3.end()); EMIT(c); }
      } else { string a = alpha(); size_t o = R(40); Case c{"Q", {}, {A(), 0}}; vector<string> t;
        if (o == 0) t = dict(a, 200 + R(300), 6); else if (o == 1) { size_t L = special_len() % 300; string w = word(a, 3) + string(L, a[0]) + word(a, 3); std::set<string> s; for (int i = 0; i < 4; i++) s.insert(mutate(w, a, R(4))); s.insert(w); t.assign(s.begin(), s.end()); }
        else if (o == 2) t = dict(a, 1 + R(3), 40); else t = dict(a, R(25), 2 + R(8));
        size_t nq = 1 + R(3); for (size_t i = 0; i < nq; i++) c.s.push_back(!t.empty() && R(3) ? mutate(t[R(t.size())], a, R(5)) : word(a, 9)); c.n[1] = nq;
        if (o > 2 || o == 0) { c.n.push_back(R(5)); if (R(2)) c.n.push_back(R(4)); if (R(10) == 0) c.n.push_back(5 + R(12)); if (R(25) == 0) { static const uint64_t big[] = {UINT64_MAX, UINT64_MAX - 1, UINT64_MAX / 2, UINT64_MAX / 2 - 1, UINT64_MAX / 2 + 1, 1ull << 32, 1ull << 31, 1000}; c.n.push_back(big[R(8)]); if (c.s.size() > 1) { for (size_t i = 0; i < nq; i++) c.s[i] = c.s[i].substr(0, 5); } } if (!INTS.empty() && R(15) == 0) { uint64_t v = INTS[R(INTS.size())]; if (v < 24) c.n.push_back(v); } }
        else { c.n.push_back(R(3)); c.n.push_back(R(4)); }
        c.s.insert(c.s.end(), t.begin(), t.end()); EMIT(c); }
    } else if (mode == "B" || mode == "E" || mode == "M" || mode == "S" || mode == "H") {
      auto emit = [&](vector<string> t) -> bool {
        if (mode == "B") return out(Case{"B", t, {R(3)}}); if (mode == "E") return out(Case{"E", t, {}}); if (mode == "M") return out(Case{"M", t, {}}); if (mode == "S") return out(Case{"S", t, {R(8) ? 0 : 1 + R(3)}});
        vector<string> u = t; if (R(2)) { string a = alpha(); if (!u.empty() && R(2)) u.erase(u.begin() + R(u.size())); else { u.push_back(u.empty() ? word(a, 3) : mutate(u[R(u.size())], a, 1)); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); } if (R(3) == 0 && !u.empty() && t.size()) { size_t k = R(u.size()); u[k] = mutate(u[k], a, 1); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); } } else if (R(4) == 0) { u = dict(alpha(), R(6), 4); }
        Case c{"H", t, {t.size()}}; c.s.insert(c.s.end(), u.begin(), u.end()); return out(c); };
      if (phase == 0) { // exhaustive: every set of words over {a,b} of length <= 2 (128 sets); every pair for equality
        auto w = allwords("ab", 2); std::sort(w.begin(), w.end()); for (size_t m = 0; m < (1u << w.size()); m++) { vector<string> t; for (size_t i = 0; i < w.size(); i++) if (m >> i & 1) t.push_back(w[i]);
          if (mode == "H") { for (int k = 0; k < 6; k++) { size_t m2 = k < 2 ? m ^ (1u << R(w.size())) : R(1u << w.size()); Case c{"H", t, {t.size()}}; for (size_t i = 0; i < w.size(); i++) if (m2 >> i & 1) c.s.push_back(w[i]); EMIT(c); } } else if (!emit(t)) return; }
        if (mode == "B") { auto v = allwords("ab", 2); for (auto &x : v) for (auto &y : v) { EMIT((Case{"B", {x, y}, {0}})); for (auto &z : {string("b"), string("ab"), string("")}) { EMIT((Case{"B", {x, y, z}, {0}})); EMIT((Case{"B", {z, x, y}, {1}})); } } }
        vector<string> bytes; for (int b = 0; b < 256; b++) bytes.push_back(string(1, (char)b)); std::sort(bytes.begin(), bytes.end()); if (!emit(bytes)) return; for (auto &x : bytes) x = "q" + x + "z"; if (!emit(bytes)) return;
      } else { string a = alpha(); size_t o = R(50); vector<string> t;
        if (o == 0) { size_t n = special_len(); t = dict(a, n < 1500 ? n : 200, 8); } else if (o == 1) { std::set<string> s; for (int i = 0; i < 5; i++) { size_t L = special_len() % 1200; s.insert(word(a, 3) + string(L, a[R(a.size())]) + word(a, 3)); } t.assign(s.begin(), s.end()); }
        else if (o == 2) { std::set<string> s; for (int i = 0; i < 300; i++) { string w; for (size_t k = 1 + R(4); k--;) w += (char)R(256); s.insert(w); } t.assign(s.begin(), s.end()); } else t = dict(a, R(30), 1 + R(9));
        if (mode == "B" && R(4) == 0 && t.size() > 1) { size_t i = R(t.size()), j = R(t.size()); if (R(2)) std::swap(t[i], t[j]); else t.insert(t.begin() + i, t[i]); Case c{"B", t, {R(2)}}; EMIT(c); }
        else if (mode == "H" && t.size() > 60) { t.resize(60); if (!emit(t)) return; } else if (mode == "M" && o == 1) continue; else if (!emit(t)) return; }
    } else if (mode == "L") {
      Case c{"L", {}, {A(), R(4)}}; size_t n = R(8) ? R(9) : R(70); size_t mi = 1 + R(5), me = 1 + R(4); bool big = R(6) == 0; if (!INTS.empty() && R(20) == 0) n = INTS[R(INTS.size())] % 200;
      for (size_t k = 0; k < n; k++) { if (R(5) == 0) { c.n.push_back(1ull << 63); c.n.push_back(0); c.n.push_back(0); } uint64_t x = R(mi), y = R(me); if (big && R(3) == 0) { static const uint64_t b[] = {0, 1, 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 62), (1ull << 63) + 1, UINT64_MAX, UINT64_MAX - 1}; x = b[R(10)]; y = b[R(10)]; } c.n.push_back(x); c.n.push_back(y); c.n.push_back(R(2)); }
      EMIT(c);
    } else if (mode == "R") {
      string a = alpha(); Case c{"R", {}, {A(), 0, G()}}; auto t = dict(a, R(14), 6); size_t nq = 1 + R(3); for (size_t i = 0; i < nq; i++) c.s.push_back(!t.empty() && R(3) ? mutate(t[R(t.size())], a, R(3)) : word(a, 6)); c.n[1] = nq; c.s.insert(c.s.end(), t.begin(), t.end()); EMIT(c);
    } else if (mode == "G") {
      string a = alpha(); Case c{"G", {}, {R(6), A(), G()}}; auto t = dict(a, R(16), 7); if (c.n[0] < 2 && t.size() > 1 && R(2)) { size_t i = R(t.size()), j = R(t.size()); std::swap(t[i], t[j]); } c.s = t; EMIT(c);
    }
#endif
    else return;
  }
}
static void on_alarm(int) { const char m[] = "FAIL a call does not finish\n"; if (write(1, m, sizeof m - 1)) {} _exit(3); }
int main(int argc, char **argv) {
  string mode, cur, replay, fr; int alg = -1, level = 0; uint64_t seed = 1; double secs = 10; uint64_t maxc = UINT64_MAX; int lim = 60;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto v = a.substr(a.find('=') + 1);
    if (a.rfind("mode=", 0) == 0) mode = v; else if (a.rfind("alg=", 0) == 0) alg = std::stoi(v); else if (a.rfind("level=", 0) == 0) level = std::stoi(v); else if (a.rfind("seed=", 0) == 0) seed = std::stoull(v); else if (a.rfind("secs=", 0) == 0) secs = std::stod(v);
    else if (a.rfind("max=", 0) == 0) maxc = std::stoull(v); else if (a.rfind("cur=", 0) == 0) cur = v; else if (a.rfind("replay=", 0) == 0) replay = v; else if (a.rfind("lim=", 0) == 0) lim = std::stoi(v);
    else if (a.rfind("ints=", 0) == 0) { std::istringstream in(v); string t; while (std::getline(in, t, ',')) if (!t.empty()) INTS.push_back(std::stoull(t)); } else if (a.rfind("chars=", 0) == 0) CHARS = unhex("x" + v);
#ifndef DISTANCE_ONLY
    else if (a.rfind("tmp=", 0) == 0) g_tmp = v;
    else if (a.rfind("fresh=", 0) == 0) fr = v;
#endif
  }
  signal(SIGALRM, on_alarm);
#ifndef DISTANCE_ONLY
  { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) g_exe = string(b, (size_t)k); }
  if (!fr.empty()) { std::ifstream in(fr); string l; std::getline(in, l); alarm(lim); std::cout << run_fresh(parse(l)); return 0; }
#endif
  if (!cur.empty()) { int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, CUR) == 0) g_cur = (char *)mmap(nullptr, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (g_cur == MAP_FAILED) g_cur = nullptr; }
  if (!replay.empty()) { std::ifstream in(replay); string l; int bad = 0; while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; alarm(lim); Fail f = run(parse(l)); alarm(0); if (!f.empty()) { std::cout << "FAIL " << f << "\n"; bad = 1; } else std::cout << "held: " << l.substr(0, 200) << "\n"; } return bad ? 3 : 0; }
  G.seed(seed * 1000003 + 17); auto t0 = std::chrono::steady_clock::now(); uint64_t n = 0; int rc = 0;
  gen(mode, alg, level, [&](const Case &c) {
    alarm(lim); Fail f = run(c); alarm(0); n++;
    if (!f.empty()) { std::cout << "FAIL " << f << "\nCASE " << show(c) << "\n"; rc = 3; return false; }
    return n < maxc && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; });
  std::cout << "CASES " << n << "\n"; return rc;
}
