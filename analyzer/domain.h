// Numeric and bit-provenance domains of the ISAP static analyser.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>
#include <numeric>

typedef __int128 i128;
#define DIE(...) do { fprintf(stderr, "isapsa: internal: " __VA_ARGS__); fprintf(stderr, "\n"); exit(3); } while (0)

// ---------------------------------------------------------------- affine expressions
enum Var { V_LA, V_LM, V_LN, V_QA, V_QM, V_QN, V_T0, V_TMAX = V_T0 + 6, V_BAD, V_NUM };
inline const char *varName(int v) {
  static const char *n[] = {"LA", "LM", "LN", "qa", "qm", "qn", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "BAD"};
  return n[v];
}
struct Aff {
  int64_t c = 0;
  int n = 0;
  std::array<std::pair<int, int64_t>, 6> t{};
  Aff() {}
  Aff(int64_t k) : c(k) {}
  static Aff var(int v, int64_t k = 1) { Aff a; a.n = 1; a.t[0] = {v, k}; return a; }
  bool isConst() const { return n == 0; }
  int64_t coef(int v) const { for (int i = 0; i < n; i++) if (t[i].first == v) return t[i].second; return 0; }
  bool has(int v) const { return coef(v) != 0; }
  uint32_t vars() const { uint32_t m = 0; for (int i = 0; i < n; i++) m |= 1u << t[i].first; return m; }
  void addTerm(int v, int64_t k) {
    if (!k) return;
    for (int i = 0; i < n; i++) {
      if (t[i].first == v) {
        t[i].second += k;
        if (!t[i].second) { for (int j = i; j + 1 < n; j++) t[j] = t[j + 1]; n--; }
        return;
      }
      if (t[i].first > v) {
        if (n >= 6) DIE("affine overflow");
        for (int j = n; j > i; j--) t[j] = t[j - 1];
        t[i] = {v, k}; n++;
        return;
      }
    }
    if (n >= 6) DIE("affine overflow");
    t[n++] = {v, k};
  }
  Aff operator+(const Aff &o) const { Aff r = *this; r.c = (int64_t)((uint64_t)r.c + (uint64_t)o.c); for (int i = 0; i < o.n; i++) r.addTerm(o.t[i].first, o.t[i].second); return r; }
  Aff operator*(int64_t k) const { if (!k) return Aff(0); Aff r = *this; r.c = (int64_t)((uint64_t)r.c * (uint64_t)k); for (int i = 0; i < n; i++) r.t[i].second = (int64_t)((uint64_t)r.t[i].second * (uint64_t)k); return r; }
  Aff operator-() const { return *this * -1; }
  Aff operator-(const Aff &o) const { return *this + (-o); }
  bool operator==(const Aff &o) const { if (c != o.c || n != o.n) return false; for (int i = 0; i < n; i++) if (t[i] != o.t[i]) return false; return true; }
  bool operator!=(const Aff &o) const { return !(*this == o); }
  bool operator<(const Aff &o) const {
    if (n != o.n) return n < o.n;
    for (int i = 0; i < n; i++) if (t[i] != o.t[i]) return t[i] < o.t[i];
    return c < o.c;
  }
  Aff subst(int v, const Aff &e) const { int64_t k = coef(v); if (!k) return *this; Aff r = *this; r.addTerm(v, -k); return r + e * k; }
  size_t hash() const { size_t h = (size_t)c * 0x9E3779B97F4A7C15ull + n; for (int i = 0; i < n; i++) h = (h ^ (size_t)t[i].first * 1315423911u ^ (size_t)t[i].second) * 0x100000001B3ull + 7; return h; }
  std::string str() const {
    std::string s;
    char b[64];
    for (int i = 0; i < n; i++) {
      int64_t k = t[i].second;
      if (k == 1) snprintf(b, sizeof b, "%s%s", s.empty() ? "" : "+", varName(t[i].first));
      else if (k == -1) snprintf(b, sizeof b, "-%s", varName(t[i].first));
      else snprintf(b, sizeof b, "%s%lld*%s", (k > 0 && !s.empty()) ? "+" : "", (long long)k, varName(t[i].first));
      s += b;
    }
    if (c || s.empty()) { snprintf(b, sizeof b, "%s%lld", (c >= 0 && !s.empty()) ? "+" : "", (long long)c); s += b; }
    return s;
  }
};

// ---------------------------------------------------------------- linear constraints (each expression >= 0)
typedef std::vector<Aff> Cons;
struct Lin { i128 c; std::array<i128, V_NUM> k; };
inline i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
inline i128 floordiv(i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
// Fourier-Motzkin with integer tightening; true = no integer point (sound), false = unknown.
bool infeasible(const Cons &cs, const Aff *extra, int nextra);   // memoised
inline bool infeasibleFM(const Cons &cs, const Aff *extra, int nextra) {
  std::vector<Lin> L;
  uint32_t used = 0;
  auto add = [&](const Aff &a) {
    Lin l; l.c = a.c; l.k.fill(0);
    for (int i = 0; i < a.n; i++) { l.k[a.t[i].first] = a.t[i].second; used |= 1u << a.t[i].first; }
    L.push_back(l);
  };
  for (auto &a : cs) add(a);
  for (int i = 0; i < nextra; i++) add(extra[i]);
  auto norm = [&](std::vector<Lin> &v) -> bool {
    std::vector<Lin> o;
    for (auto &l : v) {
      i128 g = 0;
      for (int i = 0; i < V_NUM; i++) if (l.k[i]) g = gcd128(g, l.k[i]);
      if (g == 0) { if (l.c < 0) return true; continue; }
      if (g > 1) { for (int i = 0; i < V_NUM; i++) l.k[i] /= g; l.c = floordiv(l.c, g); }
      bool dup = false;
      for (auto &p : o) if (p.k == l.k) { if (l.c < p.c) p.c = l.c; dup = true; break; }
      if (!dup) o.push_back(l);
    }
    v.swap(o);
    return false;
  };
  if (norm(L)) return true;
  for (;;) {
    int best = -1; long bc = 0;
    for (int v = 0; v < V_NUM; v++) {
      if (!(used >> v & 1)) continue;
      long p = 0, n = 0;
      for (auto &l : L) { if (l.k[v] > 0) p++; else if (l.k[v] < 0) n++; }
      if (p + n == 0) { used &= ~(1u << v); continue; }
      long cost = p * n - p - n;
      if (best < 0 || cost < bc) best = v, bc = cost;
    }
    if (best < 0) return false;
    std::vector<Lin> P, N, R;
    for (auto &l : L) { if (l.k[best] > 0) P.push_back(l); else if (l.k[best] < 0) N.push_back(l); else R.push_back(l); }
    for (auto &p : P) for (auto &n : N) {
      Lin r; i128 a = -n.k[best], b = p.k[best];
      r.c = p.c * a + n.c * b;
      for (int i = 0; i < V_NUM; i++) r.k[i] = p.k[i] * a + n.k[i] * b;
      R.push_back(r);
    }
    used &= ~(1u << best);
    L.swap(R);
    if (norm(L)) return true;
    if (L.size() > 300) return false;
  }
}
inline bool proveGE0(const Cons &cs, const Aff &e) {
  if (e.isConst()) return e.c >= 0;
  Aff neg = -e; neg.c -= 1;
  return infeasible(cs, &neg, 1);
}
inline bool proveEQ0(const Cons &cs, const Aff &e) {
  if (e.isConst()) return e.c == 0;
  return proveGE0(cs, e) && proveGE0(cs, -e);
}
inline Aff normCons(Aff a) {
  int64_t g = 0;
  for (int i = 0; i < a.n; i++) g = std::gcd(g, a.t[i].second);
  if (g > 1) { for (int i = 0; i < a.n; i++) a.t[i].second /= g; a.c = (int64_t)floordiv(a.c, g); }
  return a;
}

// ---------------------------------------------------------------- generic interning hash map (u64,u64)->u32
struct U64Map {
  struct E { uint64_t k1, k2; uint32_t v; uint32_t used; };
  std::vector<E> t; size_t cnt = 0;
  U64Map() : t(1 << 12) {}
  static uint64_t h(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
  uint32_t *find(uint64_t a, uint64_t b) {
    size_t m = t.size() - 1, i = h(a, b) & m;
    while (t[i].used) { if (t[i].k1 == a && t[i].k2 == b) return &t[i].v; i = (i + 1) & m; }
    return nullptr;
  }
  void put(uint64_t a, uint64_t b, uint32_t v) {
    if ((cnt + 1) * 2 > t.size()) { std::vector<E> o; o.swap(t); t.resize(o.size() * 2); cnt = 0; for (auto &e : o) if (e.used) put(e.k1, e.k2, e.v); }
    size_t m = t.size() - 1, i = h(a, b) & m;
    while (t[i].used) i = (i + 1) & m;
    t[i] = {a, b, v, 1}; cnt++;
  }
};

// ---------------------------------------------------------------- sources and round-depth maps
enum Buf { B_K, B_N, B_AD, B_M, B_C, B_IN, B_UNINIT, B_MISC, B_ADDR, B_NUM };
inline const char *bufName(int b) { static const char *n[] = {"key", "nonce", "ad", "m", "c", "in", "uninitialised", "misc", "address"}; return n[b]; }
enum KeyType { K_BIT, K_BLOCK, K_GROUP };
struct SrcKey { int buf, type; Aff idx; int bit; int inst; };   // BIT: idx = byte offset; BLOCK: idx = block number
extern std::vector<SrcKey> keyTab;
int internKey(int buf, int type, const Aff &idx, int bit, int inst);
int internAff(const Aff &a);
extern std::vector<Aff> affTab;
extern int AFF_BAD;
struct DM { std::vector<std::pair<int, int>> v; uint32_t mask = 0, vars = 0; };  // (key, depth aff id), sorted by key
extern std::vector<DM> dmTab;   // 0 = empty
int internDM(std::vector<std::pair<int, int>> v);
int dmMax(int a, int b);
int dmInc(int a);
int dmSubst(int a, int var, const Aff &e);
std::string dmStr(int a);

// ---------------------------------------------------------------- bits
typedef uint32_t Bit;   // form<<1 | constant; form 0 is the empty XOR
enum LeafKind { L_SRC, L_AND, L_COLL, L_PHI, L_JOIN, L_SUBST, L_OPAQUE, L_LEN };
struct Leaf { int kind; uint64_t a, b; int dm; uint32_t vars; uint64_t sh; };   // sh: value number, stable across roots
extern std::vector<Leaf> leafTab;
struct Span { const uint32_t *p = nullptr; uint32_t n = 0; const uint32_t *begin() const { return p; } const uint32_t *end() const { return p + n; } size_t size() const { return n; } uint32_t operator[](size_t i) const { return p[i]; } };
struct Form { Span l; int dm; uint32_t vars; uint64_t sh; };
extern std::vector<Form> formTab;
uint32_t internLeaf(int kind, uint64_t a, uint64_t b, int dm, uint32_t vars, uint64_t sh);
uint32_t *findLeaf(int kind, uint64_t a, uint64_t b);
uint64_t gfmul(uint64_t a, uint64_t b);   // product in GF(2^64): value numbers of ANDs
inline uint64_t bitSh(Bit b) { return formTab[b >> 1].sh ^ (b & 1); }
Bit leafBit(uint32_t leaf);
Bit xorRaw(Bit a, Bit b);
Bit andb(Bit a, Bit b);
inline Bit notb(Bit a) { return a ^ 1; }
inline Bit orb(Bit a, Bit b) { return notb(andb(notb(a), notb(b))); }
inline bool isC(Bit a) { return a < 2; }
inline int bitDM(Bit a) { return formTab[a >> 1].dm; }
Bit srcBit(int buf, const Aff &off, int bit, int inst);
Bit substBit(Bit b, int var, const Aff &e);
Bit opaqueBit(uint64_t tag, uint64_t h, int dm, uint32_t vars);
std::string bitStr(Bit b);
void domainInit();
inline uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }
