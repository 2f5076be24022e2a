#include "domain.h"
#include <immintrin.h>
std::vector<SrcKey> keyTab;
std::vector<Aff> affTab;
int AFF_BAD;
std::vector<DM> dmTab;
std::vector<Leaf> leafTab;
std::vector<Form> formTab;
static std::map<std::tuple<int, int, Aff, int, int>, int> keyMap;
static std::map<Aff, int> affMap;
// open-addressing set of ids, keyed by a content hash
struct IdSet {
  std::vector<std::pair<uint64_t, uint32_t>> t; size_t cnt = 0;
  IdSet() : t(1 << 16, {0, ~0u}) {}
  template <class EQ> long find(uint64_t h, EQ eq) { size_t m = t.size() - 1, i = (h ^ h >> 31) & m; while (t[i].second != ~0u) { if (t[i].first == h && eq(t[i].second)) return t[i].second; i = (i + 1) & m; } return -1; }
  void put(uint64_t h, uint32_t id) {
    if ((cnt + 1) * 2 > t.size()) { std::vector<std::pair<uint64_t, uint32_t>> o(t.size() * 2, {0, ~0u}); o.swap(t); cnt = 0; for (auto &e : o) if (e.second != ~0u) put(e.first, e.second); }
    size_t m = t.size() - 1, i = (h ^ h >> 31) & m; while (t[i].second != ~0u) i = (i + 1) & m; t[i] = {h, id}; cnt++;
  }
};
static IdSet dmHash, formHash;
static const uint32_t *arena(const uint32_t *p, size_t n) {
  static uint32_t *cur = nullptr; static size_t left = 0;
  if (left < n) { left = std::max<size_t>(1 << 18, n); cur = (uint32_t *)malloc(left * 4); }
  uint32_t *r = cur; memcpy(r, p, n * 4); cur += n; left -= n; return r;
}
static U64Map dmMaxMemo, xorMemo, leafMap[8];
static std::vector<int> dmIncMemo;

int internAff(const Aff &a0) {
  Aff a = a0.has(V_BAD) ? Aff::var(V_BAD) : a0;
  auto it = affMap.find(a);
  if (it != affMap.end()) return it->second;
  int id = affTab.size(); affTab.push_back(a); affMap[a] = id; return id;
}
int internKey(int buf, int type, const Aff &idx, int bit, int inst) {
  auto k = std::make_tuple(buf, type, idx, bit, inst);
  auto it = keyMap.find(k);
  if (it != keyMap.end()) return it->second;
  if ((buf == B_K || buf == B_N) && idx.isConst() && idx.c >= 0 && idx.c < 16) {
    // create the whole group contiguously: 128 bits, then the group key
    int base = keyTab.size();
    for (int i = 0; i < 16; i++) for (int b = 0; b < 8; b++) {
      keyMap[std::make_tuple(buf, (int)K_BIT, Aff(i), b, inst)] = keyTab.size();
      keyTab.push_back({buf, K_BIT, Aff(i), b, inst});
    }
    keyMap[std::make_tuple(buf, (int)K_GROUP, Aff(0), -1, inst)] = keyTab.size();
    keyTab.push_back({buf, K_GROUP, Aff(0), -1, inst});
    (void)base;
    it = keyMap.find(k);
    if (it != keyMap.end()) return it->second;
  }
  int id = keyTab.size();
  keyTab.push_back({buf, type, idx, bit, inst});
  keyMap[k] = id;
  return id;
}
static int internDMraw(std::vector<std::pair<int, int>> v);
int internDM(std::vector<std::pair<int, int>> v) {
  if (v.size() >= 128) {
    // canonicalise complete uniform groups
    std::map<std::pair<int, int>, std::vector<size_t>> g;
    for (size_t i = 0; i < v.size(); i++) { auto &k = keyTab[v[i].first]; if ((k.buf == B_K || k.buf == B_N)) g[{k.buf, k.inst}].push_back(i); }
    std::vector<char> drop(v.size(), 0);
    std::vector<std::pair<int, int>> addl;
    for (auto &e : g) {
      if (e.second.size() < 128) continue;
      std::vector<size_t> bits; long grp = -1;
      for (size_t i : e.second) { if (keyTab[v[i].first].type == K_GROUP) grp = i; else bits.push_back(i); }
      if (bits.size() != 128) continue;
      bool same = true;
      for (size_t i : bits) if (v[i].second != v[bits[0]].second) same = false;
      if (!same) continue;
      if (grp >= 0) continue;   // bits above group: handled in dmMax
      for (size_t i : bits) drop[i] = 1;
      addl.push_back({internKey(e.first.first, K_GROUP, Aff(0), -1, e.first.second), v[bits[0]].second});
    }
    if (!addl.empty()) {
      std::vector<std::pair<int, int>> o;
      for (size_t i = 0; i < v.size(); i++) if (!drop[i]) o.push_back(v[i]);
      for (auto &a : addl) o.push_back(a);
      std::sort(o.begin(), o.end());
      v.swap(o);
    }
  }
  return internDMraw(std::move(v));
}
static int internDMraw(std::vector<std::pair<int, int>> v) {
  uint64_t h = 77;
  for (auto &p : v) h = (h ^ (((uint64_t)p.first << 32) | (uint32_t)p.second)) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  long hit = dmHash.find(h, [&](uint32_t id) { return dmTab[id].v == v; });
  if (hit >= 0) return hit;
  int id = dmTab.size();
  DM d;
  for (auto &p : v) { d.mask |= 1u << keyTab[p.first].buf; d.vars |= keyTab[p.first].idx.vars() | affTab[p.second].vars(); }
  d.v = std::move(v);
  dmTab.push_back(std::move(d));
  dmIncMemo.push_back(-1);
  dmHash.put(h, id);
  return id;
}
static int affMaxId(int a, int b) {
  if (a == b) return a;
  if (a == AFF_BAD || b == AFF_BAD) return AFF_BAD;
  const Aff &x = affTab[a], &y = affTab[b];
  if (x.n != y.n) return AFF_BAD;
  for (int i = 0; i < x.n; i++) if (x.t[i] != y.t[i]) return AFF_BAD;
  return x.c >= y.c ? a : b;
}
static int groupBase(int key) {  // for K_GROUP keys: first bit key id
  return key - 128;
}
int dmMax(int a, int b) {
  if (a == b || !b) return a;
  if (!a) return b;
  if (a > b) std::swap(a, b);
  if (uint32_t *p = dmMaxMemo.find(a, b)) return *p;
  const auto &x = dmTab[a].v, &y = dmTab[b].v;
  std::vector<std::pair<int, int>> r;
  r.reserve(x.size() + y.size() + 8);
  size_t i = 0, j = 0;
  bool grp = false;
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, affMaxId(x[i].second, y[j].second)}); i++; j++; }
    if (keyTab[r.back().first].type == K_GROUP) grp = true;
  }
  if (grp) {
    // drop bits dominated by their group (the 128 bit keys directly precede their group key)
    std::vector<std::pair<int, int>> o;
    long g = -1;
    for (size_t q = r.size(); q-- > 0;) {
      int t = keyTab[r[q].first].type;
      if (t == K_GROUP) g = q;
      else if (g >= 0 && t == K_BIT && r[q].first >= groupBase(r[g].first)) {
        if (r[g].second == AFF_BAD) continue;
        const Aff &x = affTab[r[g].second], &y = affTab[r[q].second];
        if (r[q].second != AFF_BAD) { Aff d = x - y; if (d.isConst() && d.c >= 0) continue; }
      }
      o.push_back(r[q]);
    }
    std::reverse(o.begin(), o.end());
    r.swap(o);
  }
  int id = internDM(std::move(r));
  dmMaxMemo.put(a, b, id);
  return id;
}
int dmInc(int a) {
  if (!a) return 0;
  if (dmIncMemo[a] >= 0) return dmIncMemo[a];
  std::vector<std::pair<int, int>> r = dmTab[a].v;
  for (auto &p : r) if (p.second != AFF_BAD) p.second = internAff(affTab[p.second] + Aff(1));
  int id = internDMraw(std::move(r));
  dmIncMemo[a] = id;
  return id;
}
int dmSubst(int a, int var, const Aff &e) {
  if (!(dmTab[a].vars >> var & 1)) return a;
  std::map<int, int> m;
  auto src = dmTab[a].v;
  for (auto &p : src) {
    SrcKey k = keyTab[p.first];
    int kid = k.idx.has(var) ? internKey(k.buf, k.type, k.idx.subst(var, e), k.bit, k.inst) : p.first;
    int d = p.second == AFF_BAD ? AFF_BAD : internAff(affTab[p.second].subst(var, e));
    auto it = m.find(kid);
    if (it == m.end()) m[kid] = d; else it->second = affMaxId(it->second, d);
  }
  return internDM(std::vector<std::pair<int, int>>(m.begin(), m.end()));
}
std::string dmStr(int a) {
  // bits of one byte range with equal depth are abbreviated
  std::string s = "{";
  std::map<std::string, std::vector<std::string>> by;
  int cnt = 0;
  for (auto &p : dmTab[a].v) {
    auto &k = keyTab[p.first];
    if (++cnt > 40) { s += "..."; break; }
    s += bufName(k.buf);
    if (k.type == K_GROUP) s += "[all]";
    else if (k.type == K_BLOCK) s += "#" + k.idx.str();
    else s += "[" + k.idx.str() + "]." + std::to_string(k.bit);
    if (k.inst) s += "@" + std::to_string(k.inst);
    s += ":" + affTab[p.second].str() + " ";
  }
  return s + "}";
}

uint64_t gfmul(uint64_t a, uint64_t b) {
  __m128i p = _mm_clmulepi64_si128(_mm_cvtsi64_si128((long long)a), _mm_cvtsi64_si128((long long)b), 0);
  __m128i r = _mm_clmulepi64_si128(p, _mm_cvtsi64_si128(0x1b), 1);          // hi * 0x1b
  __m128i r2 = _mm_clmulepi64_si128(r, _mm_cvtsi64_si128(0x1b), 1);
  return (uint64_t)_mm_cvtsi128_si64(p) ^ (uint64_t)_mm_cvtsi128_si64(r) ^ (uint64_t)_mm_cvtsi128_si64(r2);
}
uint32_t internLeaf(int kind, uint64_t a, uint64_t b, int dm, uint32_t vars, uint64_t sh) {
  if (uint32_t *p = leafMap[kind].find(a, b)) return *p;
  uint32_t id = leafTab.size();
  leafTab.push_back({kind, a, b, dm, vars, sh});
  leafMap[kind].put(a, b, id);
  return id;
}
static uint32_t internForm(const uint32_t *l, size_t n) {
  if (!n) return 0;
  uint64_t h = 99;
  for (size_t i = 0; i < n; i++) h = (h ^ l[i]) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  long hit = formHash.find(h, [&](uint32_t id) { auto &f = formTab[id].l; return f.n == n && !memcmp(f.p, l, n * 4); });
  if (hit >= 0) return hit;
  Form f; f.dm = 0; f.vars = 0; f.sh = 0;
  for (size_t i = 0; i < n; i++) { uint32_t x = l[i]; f.sh ^= leafTab[x].sh; f.dm = dmMax(f.dm, leafTab[x].dm); f.vars |= leafTab[x].vars; }
  f.l.p = arena(l, n); f.l.n = n;
  uint32_t id = formTab.size();
  formTab.push_back(f);
  formHash.put(h, id);
  return id;
}
static uint32_t internForm(const std::vector<uint32_t> &l) { return internForm(l.data(), l.size()); }
static std::vector<uint32_t> leafFormMemo;
Bit leafBit(uint32_t leaf) {
  if (leaf >= leafFormMemo.size()) leafFormMemo.resize(std::max<size_t>(leaf + 1, leafFormMemo.size() * 2), 0);
  if (leafFormMemo[leaf]) return leafFormMemo[leaf] << 1;
  uint32_t f = internForm(&leaf, 1);
  leafFormMemo[leaf] = f;
  return f << 1;
}
static const size_t NMAX = 10, SMAX = 4;
Bit xorRaw(Bit a, Bit b) {
  uint32_t c = (a ^ b) & 1, fa = a >> 1, fb = b >> 1;
  if (!fa) return (fb << 1) | c;
  if (!fb) return (fa << 1) | c;
  if (fa == fb) return c;
  if (fa > fb) std::swap(fa, fb);
  if (uint32_t *p = xorMemo.find(fa, fb)) return (*p << 1) | c;
  const Span x = formTab[fa].l, y = formTab[fb].l;
  static thread_local std::vector<uint32_t> r;
  for (int q = 0; q < 2; q++) {                 // x ^ (collapsed x ^ rest) is rest
    const Span big = q ? x : y; uint32_t other = q ? fb : fa;
    for (uint32_t l : big) if (leafTab[l].kind == L_COLL && leafTab[l].a == other) {
      std::vector<uint32_t> rest; for (uint32_t z : big) if (z != l) rest.push_back(z);
      uint32_t f = internForm(rest);
      if (rest.size() == 1 && leafTab[rest[0]].kind == L_COLL) f = (uint32_t)leafTab[rest[0]].a;
      xorMemo.put(fa, fb, f);
      return (f << 1) | c;
    }
  }
  r.resize(x.size() + y.size());
  r.resize(std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), r.begin()) - r.begin());
  // message-like source bits stay visible next to the collapsed rest
  auto stream = [&](uint32_t l) { if (leafTab[l].kind != L_SRC) return false; int b = keyTab[leafTab[l].a].buf; return b != B_K && b != B_N; };
  auto coll = [&](uint32_t f) { return formTab[f].l.size() == 1 ? formTab[f].l[0] : internLeaf(L_COLL, f, 0, formTab[f].dm, formTab[f].vars, formTab[f].sh); };
  size_t ns = 0;
  for (uint32_t l : r) if (stream(l)) ns++;
  if (ns > SMAX || r.size() - ns > NMAX) {
    // the larger operand is collapsed; the smaller one stays visible (an AND term of it may cancel later)
    bool xbig = x.size() >= y.size();
    const Span big = xbig ? x : y, small = xbig ? y : x;
    std::vector<uint32_t> cb, keep, sm;
    bool cs = ns > SMAX;
    for (uint32_t l : r) {
      if (!cs && stream(l)) keep.push_back(l);
      else if (std::binary_search(big.begin(), big.end(), l)) cb.push_back(l);
      else sm.push_back(l);
    }
    if (sm.size() <= 4) { if (!cb.empty()) keep.push_back(coll(internForm(cb))); keep.insert(keep.end(), sm.begin(), sm.end()); }
    else { std::vector<uint32_t> all = cb; all.insert(all.end(), sm.begin(), sm.end()); std::sort(all.begin(), all.end()); keep.push_back(coll(internForm(all))); }
    std::sort(keep.begin(), keep.end());
    r = keep;
  }
  uint32_t f = internForm(r);
  f = r.size() == 1 && leafTab[r[0]].kind == L_COLL ? (uint32_t)leafTab[r[0]].a : f;      // a collapsed operand is all that is left: it is the operand
  xorMemo.put(fa, fb, f);
  return (f << 1) | c;
}
// x simplified under the assumption that a is 1
static Bit assuming(Bit x, Bit a) {
  const Span l = formTab[x >> 1].l;
  for (size_t i = 0; i < l.size(); i++) {
    const Leaf &L = leafTab[l[i]];
    if (L.kind != L_AND) continue;
    Bit p = (Bit)L.a, q = (Bit)L.b;
    if ((p ^ a) > 1 && (q ^ a) > 1) continue;
    Bit r = p == a ? q : q == a ? p : 0;
    return xorRaw(xorRaw(x, leafBit(l[i])), r);
  }
  return x;
}
Bit andb(Bit a, Bit b) {
  if (a == 0 || b == 0) return 0;
  if (a == 1) return b;
  if (b == 1) return a;
  if (a == b) return a;
  if ((a ^ b) == 1) return 0;
  // absorption: x & (y ^ (z & x)) = x & (y ^ z),  x & (y ^ (z & ~x)) = x & y
  Bit b2 = assuming(b, a);
  if (b2 != b) return andb(a, b2);
  Bit a2 = assuming(a, b);
  if (a2 != a) return andb(a2, b);
  if (a > b) std::swap(a, b);
  if (uint32_t *p = leafMap[L_AND].find(a, b)) return leafBit(*p);
  int dm = dmInc(dmMax(bitDM(a), bitDM(b)));
  return leafBit(internLeaf(L_AND, a, b, dm, formTab[a >> 1].vars | formTab[b >> 1].vars, gfmul(bitSh(a), bitSh(b))));
}
Bit srcBit(int buf, const Aff &off, int bit, int inst) {
  int k = internKey(buf, K_BIT, off, bit, inst);
  if (uint32_t *p = leafMap[L_SRC].find(k, 0)) return leafBit(*p);
  // The first block of a hashed message meets an all-constant state, in which one round is linear in it.
  int dm = internDM({{k, internAff(Aff(buf == B_IN && off.isConst() && off.c < 8 ? 1 : 0))}});
  return leafBit(internLeaf(L_SRC, k, 0, dm, off.vars(), hmix(hmix(hmix(11, buf), off.hash()), bit)));
}
Bit opaqueBit(uint64_t tag, uint64_t h, int dm, uint32_t vars) { return leafBit(internLeaf(L_OPAQUE, tag, h, dm, vars, hmix(hmix(13, tag), h))); }
Bit substBit(Bit b, int var, const Aff &e) {
  uint32_t f = b >> 1;
  if (!(formTab[f].vars >> var & 1)) return b;
  Bit r = b & 1;
  auto ls = formTab[f].l;
  std::vector<uint32_t> out;
  for (uint32_t l : ls) {
    Leaf L = leafTab[l];
    if (!(L.vars >> var & 1)) { r = xorRaw(r, leafBit(l)); continue; }
    if (L.kind == L_SRC) { SrcKey k = keyTab[L.a]; r = xorRaw(r, srcBit(k.buf, k.idx.subst(var, e), k.bit, k.inst)); continue; }
    int ei = internAff(e);
    uint32_t nv = (L.vars & ~(1u << var)) | e.vars();
    uint32_t nl = internLeaf(L_SUBST, l, ((uint64_t)var << 32) | (uint32_t)ei, dmSubst(L.dm, var, e), nv, hmix(hmix(hmix(17, L.sh), var), e.hash()));
    r = xorRaw(r, leafBit(nl));
  }
  return r;
}
std::string bitStr(Bit b) {
  if (isC(b)) return b ? "1" : "0";
  std::string s;
  for (uint32_t l : formTab[b >> 1].l) {
    auto &L = leafTab[l];
    if (!s.empty()) s += "^";
    if (L.kind == L_SRC) { auto &k = keyTab[L.a]; s += std::string(bufName(k.buf)) + "[" + k.idx.str() + "]." + std::to_string(k.bit); }
    else { static const char *n[] = {"src", "and", "lin", "phi", "join", "sub", "op", "len"}; s += std::string(n[L.kind]) + std::to_string(l); }
  }
  if (b & 1) s += "^1";
  return s;
}
void domainInit() {
  affTab.clear();
  internAff(Aff(0));
  AFF_BAD = internAff(Aff::var(V_BAD));
  dmTab.clear(); dmIncMemo.clear();
  dmTab.push_back({}); dmIncMemo.push_back(0);
  formTab.clear();
  formTab.push_back({});
  formTab[0].dm = 0; formTab[0].vars = 0; formTab[0].sh = 0;
}

uint32_t *findLeaf(int kind, uint64_t a, uint64_t b) { return leafMap[kind].find(a, b); }

bool infeasible(const Cons &cs, const Aff *extra, int nextra) {
  static std::map<std::pair<uint64_t, uint64_t>, bool> memo;
  uint64_t a = 3, b = 5;
  auto mix = [&](uint64_t v) { a = hmix(a, v); b = hmix(b ^ 0x9E3779B97F4A7C15ull, v * 0xD6E8FEB86659FD93ull + 11); };
  auto add = [&](const Aff &x) { mix(x.c); mix(x.n); for (int i = 0; i < x.n; i++) { mix(x.t[i].first); mix(x.t[i].second); } };
  for (auto &c : cs) add(c);
  a = hmix(a, 77);
  for (int i = 0; i < nextra; i++) add(extra[i]);
  auto k = std::make_pair(a, b);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  if (memo.size() > 2000000) memo.clear();
  return memo[k] = infeasibleFM(cs, extra, nextra);
}
