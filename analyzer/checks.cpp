// Property checks evaluated on the abstract states.
#include "interp.h"

void Interp::liveDMs(State &s, std::set<int> &dms) {
  static std::vector<uint32_t> seenF, seenD; static uint32_t stamp = 0;
  stamp++; seenF.resize(formTab.size() + 1); seenD.resize(dmTab.size() + 1);
  auto bits = [&](const std::vector<Bit> &v) {
    for (Bit b : v) { uint32_t f = b >> 1; if (f && seenF[f] != stamp) { seenF[f] = stamp; int d = formTab[f].dm; if (seenD[d] != stamp) { seenD[d] = stamp; dms.insert(d); } } }
  };
  for (auto &f : s.frames) for (auto &v : f.env) if (v) {
    bits(v->b);
    for (auto &e : v->el) if (e) bits(e->b);
  }
  for (auto &m : s.mem) if (objs[m.first].role == R_LOCAL || objs[m.first].role == R_GLOBAL) bits(m.second->bits);
}
static bool decomp(const Aff &off, int R, Aff &blk, int &j) {
  for (int i = 0; i < off.n; i++) if (off.t[i].second % R) return false;
  int64_t c = off.c; j = (int)(((c % R) + R) % R);
  blk = Aff(0); for (int i = 0; i < off.n; i++) blk.addTerm(off.t[i].first, off.t[i].second / R);
  blk.c = (c - j) / R;
  return true;
}
static Aff lenOfBuf(State &s, int buf) { return buf == B_AD ? s.lenA : buf == B_C ? s.lenM : s.lenN; }
static const char *dropKind(int buf) { return buf == B_AD ? "DROP_AD" : buf == B_C ? "DROP_C" : "DROP_IN"; }
bool isTagKey(State &s, const SrcKey &k) { if (k.buf != B_C || k.type != K_BIT) return false; Aff d = k.idx - s.lenM; return d.isConst() && d.c >= 0; }
// a position before the input's first byte on every path of the state: left over from a join with other lengths
// or behind its last one
bool phantomKey(State &s, const SrcKey &k);
static bool phantom(State &s, const SrcKey &k) {
  if (k.type == K_BLOCK && (k.buf == B_AD || k.buf == B_C || k.buf == B_IN)) {
    Aff e = k.idx * (gcfg.hash ? 8 : gcfg.spec.R) - lenOfBuf(s, k.buf);
    if (proveGE0(s.cons, e)) return true;
  }
  if (k.idx.isConst() || k.idx.c >= 0) return false;
  return proveGE0(s.cons, -k.idx - Aff(1));
}
bool phantomKey(State &s, const SrcKey &k) { return phantom(s, k); }
namespace {
struct Blk { std::set<int> bits; bool block = false; std::vector<int> keys; };
struct Absorbed {
  std::map<Aff, Blk> blk;                       // by block index
  std::map<int, std::map<Aff, int>> perDM;      // dm -> block -> max depth id
  std::set<int> phantoms;
  bool ok = true;
};
}
static void collect(Interp &I, State &s, int buf, Absorbed &ab) {
  std::set<int> dms; I.liveDMs(s, dms);
  int R = gcfg.spec.R; if (gcfg.hash) R = 8;
  struct KI { uint32_t epoch = 0; int cls = 0; int blk = -1; bool counted = false, first = false; };   // cls 0 other, 1 tag, 2 phantom, 3 input bit, 4 undecomposable
  static std::vector<KI> tab; static uint32_t epoch = 0; epoch++;
  if (tab.size() < keyTab.size()) tab.resize(keyTab.size() + 1024);
  std::vector<std::pair<const Aff *, Blk *>> blks; std::vector<std::pair<int, int>> cur;
  for (int d : dms) {
    const DM &D = dmTab[d];
    if (!(D.mask >> buf & 1)) continue;
    bool hasN = D.mask >> B_N & 1, hasK = D.mask >> B_K & 1;
    cur.clear();
    for (auto &p : D.v) {
      KI &ki = tab[p.first];
      if (ki.epoch != epoch) {
        const SrcKey &k = keyTab[p.first];
        ki = KI(); ki.epoch = epoch;
        if (k.buf != buf) ki.cls = 0;
        else if (isTagKey(s, k)) ki.cls = 1;
        else if (phantom(s, k)) ki.cls = 2;
        else ki.cls = 3;
        if (ki.cls == 3 && buf == B_IN) ki.first = proveGE0(s.cons, Aff(7) - (k.type == K_BLOCK ? k.idx * 8 : k.idx));
      }
      if (ki.cls < 2) continue;
      if (ki.cls == 2) { if (!ki.counted) { ab.phantoms.insert(p.first); ki.counted = true; } continue; }
      bool pos = p.second == AFF_BAD || !(affTab[p.second] == Aff(0));
      if (buf == B_IN && pos && p.second != AFF_BAD && affTab[p.second] == Aff(1) && ki.first) pos = false;
      if (buf == B_IN ? !(pos || D.v.size() > 1) : !(hasN && (!hasK || pos))) continue;
      if (!ki.counted) {
        ki.counted = true;
        const SrcKey &k = keyTab[p.first];
        Aff b; int j = 0;
        if (k.type == K_BLOCK) b = k.idx; else if (!decomp(k.idx, R, b, j)) ki.cls = 4;
        if (ki.cls == 3) {
          auto it = ab.blk.find(b); if (it == ab.blk.end()) it = ab.blk.emplace(b, Blk()).first;
          Blk &B = it->second;
          ki.blk = -1; for (size_t i = 0; i < blks.size(); i++) if (blks[i].second == &B) ki.blk = i;
          if (ki.blk < 0) { ki.blk = blks.size(); blks.push_back({&it->first, &B}); }
          if (k.type == K_BLOCK) B.block = true; else B.bits.insert(j * 8 + k.bit);
          B.keys.push_back(p.first);
        }
      }
      if (ki.cls == 4) { ab.ok = false; continue; }
      int *dp = nullptr; for (auto &c : cur) if (c.first == ki.blk) dp = &c.second;
      if (!dp) cur.push_back({ki.blk, p.second});
      else if (*dp != p.second) { if (*dp == AFF_BAD || p.second == AFF_BAD) *dp = AFF_BAD; else { Aff df = affTab[p.second] - affTab[*dp]; if (!df.isConst()) *dp = AFF_BAD; else if (df.c > 0) *dp = p.second; } }
    }
    if (!cur.empty()) { auto &m = ab.perDM[d]; for (auto &c : cur) m[*blks[c.first].first] = c.second; }
  }
}
static std::string missing(const Blk &B, int nbytes) {
  std::string s; int n = 0;
  for (int j = 0; j < nbytes; j++) for (int b = 0; b < 8; b++) if (!B.bits.count(j * 8 + b)) { if (++n <= 6) s += (s.empty() ? "" : ", ") + std::string("byte ") + std::to_string(j) + " bit " + std::to_string(b); }
  if (n > 6) s += " and " + std::to_string(n - 6) + " more";
  return s;
}
// the last block of the input (per residue class of its length) and the number of bytes in it
static bool wantBlocks(State &s, int buf, std::set<std::pair<Aff, int>> &want, std::vector<Aff> &lens) {
  int R = gcfg.hash ? 8 : gcfg.spec.R;
  Aff len = lenOfBuf(s, buf);
  int L = buf == B_AD ? V_LA : buf == B_C ? V_LM : V_LN;
  int bi = L - V_LA;
  if (len.has(L)) {
    if (s.res[bi] != -2) return false;
    int mr = buf == B_IN ? 8 : gcfg.modR;
    for (int r = s.rlo[bi]; r <= s.rhi[bi]; r++) lens.push_back(len.subst(L, Aff::var(V_QA + bi, mr) + Aff(r)));
  } else lens.push_back(len);
  for (auto &l : lens) {
    Aff b; int j;
    if (!decomp(l, R, b, j)) return false;
    if (j > 0) want.insert({b, j}); else want.insert({b - Aff(1), R});
  }
  return true;
}
int Interp::completeness(State &s, int buf, std::string &why) {
  Absorbed ab; collect(*this, s, buf, ab);
  int R = gcfg.hash ? 8 : gcfg.spec.R;
  Aff len = lenOfBuf(s, buf);
  if (ab.blk.empty()) { if (proveEQ0(s.cons, len)) return 3; why = "none of its bytes has been absorbed"; return 0; }
  bool cov = false;
  for (auto &p : s.rd[buf]) if (proveGE0(s.cons, -p.first) && proveGE0(s.cons, p.second - len)) cov = true;
  if (!cov) { why = "the bytes read do not cover the whole input"; if (getenv("ISAPSA_DBG")) { std::string d; for (auto &c : s.cons) d += c.str() + ", "; d += " len " + len.str() + " read"; for (auto &p : s.rd[buf]) d += " [" + p.first.str() + "," + p.second.str() + ")"; fprintf(stderr, "cover: %s\n", d.c_str()); } return 2; }
  std::set<std::pair<Aff, int>> want; std::vector<Aff> lens;
  if (!wantBlocks(s, buf, want, lens)) { why = "length not resolved"; return 2; }
  for (auto &w : want) {
    bool found = false; std::string miss = "the last block";
    for (auto &e : ab.blk) {
      if (!(e.first == w.first) && !proveEQ0(s.cons, e.first - w.first)) continue;
      if (e.second.block) found = true;
      else { miss = missing(e.second, w.second); if (miss.empty()) found = true; else miss += " of the last block"; }
    }
    if (!found) {
      if (proveGE0(s.cons, -w.first - Aff(1)) && w.second == R) continue;   // only the empty input has this residue here
      why = miss + " (block " + w.first.str() + ") never reached the state"; if (getenv("ISAPSA_DBG") && !muted) { std::string d; for (auto &c : s.cons) d += c.str() + ", "; d += " len " + len.str() + " blocks"; for (auto &e : ab.blk) d += " " + e.first.str() + (e.second.block ? "B" : "b"); fprintf(stderr, "blk: %s\n", d.c_str()); } return 2;
    }
  }
  return 1;
}
std::map<int, int> Interp::coarsenMap(State &s, bool dropOld) {
  RawS rawGuard(curRaw, &s);
  std::map<int, int> m;
  int sH = gcfg.spec.sH, R = gcfg.hash ? 8 : gcfg.spec.R;
  for (int buf : {B_AD, B_C, B_IN}) {
    Absorbed ab; collect(*this, s, buf, ab);
    for (int k : ab.phantoms) m[k] = -1;
    if (ab.blk.empty() || !ab.ok) continue;
    std::vector<Aff> order;
    for (auto &e : ab.blk) order.push_back(e.first);
    bool cmp = true;
    for (auto &a : order) if (!(a - order[0]).isConst()) {
      cmp = false;
    }
    if (!cmp) continue;
    std::sort(order.begin(), order.end(), [&](const Aff &x, const Aff &y) { return (x - y).c < 0; });
    // depths: consecutive blocks are separated by exactly s_H rounds
    for (auto &d : ab.perDM) for (auto &x : d.second) for (auto &y : d.second) {
      int64_t gap = (y.first - x.first).c;
      if (gap <= 0) continue;
      bool bad = x.second == AFF_BAD || y.second == AFF_BAD;
      Aff df = bad ? Aff(0) : affTab[x.second] - affTab[y.second];
      if (bad || !proveEQ0(s.cons, df - Aff(gap * sH)))
        event("SCHED", true, std::string("blocks ") + x.first.str() + " and " + y.first.str() + " of " + bufName(buf) + " are absorbed " + (bad ? "an inconsistent number of" : df.str()) + " rounds apart, expected " + std::to_string(gap * sH));
    }
    for (size_t i = 0; i + 1 < order.size(); i++) if ((order[i + 1] - order[i]).c != 1)
      event(dropKind(buf), true, std::string("block(s) between ") + order[i].str() + " and " + order[i + 1].str() + " of " + bufName(buf) + " are never absorbed");
    if (!ab.blk[order[0]].block && !proveEQ0(s.cons, order[0])) {
      Blk &B = ab.blk[order[0]];
      (void)B;
      event(dropKind(buf), true, std::string("the block(s) before block ") + order[0].str() + " of " + bufName(buf) + " are never absorbed");
    }
    size_t last = order.size() - 1;
    for (size_t i = 0; i < last; i++) {
      Blk &B = ab.blk[order[i]];
      if (!B.block && (int)B.bits.size() != R * 8) event(dropKind(buf), true, missing(B, R) + " of block " + order[i].str() + " of " + bufName(buf) + " never reach the state");
    }
    auto isFull = [&](size_t i) { Blk &B = ab.blk[order[i]]; return B.block || (int)B.bits.size() == R * 8; };
    bool lastFull = isFull(last);
    std::string w;
    std::set<std::pair<Aff, int>> want; std::vector<Aff> wl;
    if (!wantBlocks(s, buf, want, wl)) want.clear();
    { auto w0 = want; for (auto &x : w0) if (x.second < R) want.insert({x.first - Aff(1), R}); }
    bool lastDone = lastFull || completeness(s, buf, w) == 1;
    for (size_t i = 0; i <= last; i++) {
      Blk &B = ab.blk[order[i]];
      bool keep = i == last || (!lastDone && i + 1 == last) ;
      if (lastDone) for (auto &w : want) if (proveEQ0(s.cons, order[i] - w.first)) keep = true;
      if (keep && i == last && !lastDone) continue;
      Aff name = order[i];
      for (auto &w : want) if (!(name == w.first) && proveEQ0(s.cons, name - w.first)) { name = w.first; break; }
      int to = keep || !dropOld ? internKey(buf, K_BLOCK, name, -1, 0) : -1;
      for (int k : B.keys) if (k != to) m[k] = to;
    }
  }
  return m;
}
void Interp::checkComplete(State &s, int buf, const char *when) {
  RawS rawGuard(curRaw, &s);
  std::string why;
  int c = completeness(s, buf, why);
  coarsenMap(s, true);
  if (c == 2 || c == 0) {
    if (getenv("ISAPSA_TRACE")) {
      Absorbed ab; collect(*this, s, buf, ab);
      fprintf(stderr, "INCOMPLETE %s len=%s res=%d [%d,%d]\n", bufName(buf), lenOfBuf(s, buf).str().c_str(), s.res[buf == B_AD ? 0 : buf == B_C ? 1 : 2], s.rlo[buf == B_AD ? 0 : 1], s.rhi[buf == B_AD ? 0 : 1]);
      for (auto &e : ab.blk) fprintf(stderr, "   blk %s block=%d bits=%zu\n", e.first.str().c_str(), (int)e.second.block, e.second.bits.size());
      for (auto &k : s.cons) fprintf(stderr, "   cons %s >= 0\n", k.str().c_str());
    }
    if (why == "length not resolved") { int L = buf == B_AD ? V_LA : buf == B_C ? V_LM : V_LN; if (lenOfBuf(s, buf).has(L)) throw SplitNeeded{L}; throw Undecided{"cannot relate the absorbed blocks to the input length"}; }
    event(dropKind(buf), true, std::string(bufName(buf)) + " is not completely absorbed before " + when + ": " + why);
  }
  // exactly the input, nothing behind it
  stats["complete_checks"]++;
}

// ------------------------------------------------------------------ numbers of blocks
// floor(len / R) + 1 padded blocks
bool Interp::nBlocks(State &s, int buf, Aff &n) {
  int R = gcfg.hash ? 8 : gcfg.spec.R, mr = buf == B_IN ? 8 : gcfg.modR;
  int L = buf == B_AD ? V_LA : buf == B_C ? V_LM : V_LN, bi = L - V_LA;
  Aff len = lenOfBuf(s, buf);
  std::vector<Aff> lens;
  if (len.has(L)) { if (s.res[bi] != -2) return false; for (int r = s.rlo[bi]; r <= s.rhi[bi]; r++) lens.push_back(len.subst(L, Aff::var(V_QA + bi, mr) + Aff(r))); }
  else lens.push_back(len);
  bool first = true;
  for (auto &l : lens) { Aff b; int j; if (!decomp(l, R, b, j)) return false; if (first) n = b + Aff(1), first = false; else if (!(n == b + Aff(1))) return false; }
  return true;
}
static int instGroup(int dm, int buf, std::map<int, std::map<int, int>> &g) {   // inst -> bit number (0..127) -> depth
  for (auto &p : dmTab[dm].v) {
    auto &k = keyTab[p.first]; if (k.buf != buf) continue;
    auto &m = g[k.inst];
    if (k.type == K_GROUP) { for (int i = 0; i < 128; i++) if (!m.count(i)) m[i] = p.second; }
    else if (k.idx.isConst()) m[(int)k.idx.c * 8 + 7 - k.bit] = p.second;   // absorption order: most significant bit first
  }
  return g.size();
}
void Interp::checkUninit(Bit b, const char *what) {
  uint32_t m = dmTab[bitDM(b)].mask;
  if (m >> B_ADDR & 1) event("ADDR_DEP", true, std::string(what) + " depends on the address of a buffer or object");
  if (m >> B_UNINIT & 1) {
    std::string from;
    for (auto &p : dmTab[bitDM(b)].v) if (keyTab[p.first].buf == B_UNINIT) { int64_t o = keyTab[p.first].idx.c; from = o >= 0 && o < (int64_t)objs.size() ? " (object '" + objs[o].name + "' of " + objs[o].fn + ")" : o == -1 ? " (bytes outside an object)" : ""; break; }
    event("UNINIT_OUT", true, std::string(what) + " depends on uninitialised memory" + from);
  }
}
void Interp::checkKs(State &s, const Aff &off, int bit, Bit ks) {
  RawS rawGuard(curRaw, &s);
  stats["keystream_bits"]++;
  if (!muted) for (Function *g : callStack) ksFns.insert(g->getName().str());
  checkUninit(ks, gcfg.decrypt ? "a plaintext byte" : "a ciphertext byte");
  if (isC(ks)) { event("KS_CONST", true, "output byte " + off.str() + " bit " + std::to_string(bit) + " is not encrypted (keystream bit is constant)"); return; }
  int dm = bitDM(ks);
  std::string key = off.str() + "." + std::to_string(bit);
  ksMap[key].insert(bitSh(ks));
  uint32_t mask = dmTab[dm].mask & ~(1u << B_UNINIT);
  if (mask & ~((1u << B_K) | (1u << B_N))) {
    std::string d; for (int b = 0; b < B_NUM; b++) if ((mask >> b & 1) && b != B_K && b != B_N) d += std::string(d.empty() ? "" : ", ") + bufName(b);
    event("KS_DEP", true, "output byte " + off.str() + " is not the input byte at the same position XOR a keystream of key and nonce: it also depends on " + d);
    if (getenv("ISAPSA_TRACE")) fprintf(stderr, "  ks = %s dm %s\n", bitStr(ks).c_str(), dmStr(dm).c_str());
    return;
  }
  Aff j; int jj;
  if (!decomp(off, gcfg.spec.R, j, jj)) { Aff fx; if (pinValue(s, off, fx)) decomp(fx, gcfg.spec.R, j, jj); else throw Undecided{"cannot relate the output position " + off.str() + " to a keystream block"}; }
  auto memo = std::make_tuple(dm, internAff(j), 0);
  if (dmChecked.count(memo)) return;
  bool good = true;
  Aff e = (j + Aff(1)) * gcfg.spec.sE;
  int64_t rk = 2 * gcfg.spec.sK + 127 * gcfg.spec.sB;
  auto same = [&](int id, const Aff &want) { return id != AFF_BAD && (affTab[id] == want || proveEQ0(s.cons, affTab[id] - want)); };
  auto dstr = [&](int id) { return id == AFF_BAD ? std::string("an inconsistent number of") : affTab[id].str(); };
  std::map<int, std::map<int, int>> gk, gn;
  instGroup(dm, B_K, gk); instGroup(dm, B_N, gn);
  std::set<int> kb; for (auto &g : gk) for (auto &x : g.second) kb.insert(x.first);
  if (kb.size() != 128) { good = false; event("KS_KEY", true, "keystream block " + j.str() + " depends on only " + std::to_string(kb.size()) + " of the 128 key bits"); }
  for (auto &g : gk) { bool bad = false; for (auto &x : g.second) if (!bad && !same(x.second, e + Aff(rk))) { bad = true; good = false; event("KS_SCHED", true, "keystream block " + j.str() + " is " + dstr(x.second) + " rounds away from the key, expected " + (e + Aff(rk)).str()); } }
  bool haveRk = false, haveDir = false;
  for (auto &g : gn) {
    if (g.second.size() != 128) { good = false; event("KS_NONCE", true, "keystream block " + j.str() + " depends on only " + std::to_string(g.second.size()) + " of the 128 nonce bits at one of the places where the nonce is used"); continue; }
    bool dir = true, rkp = true;
    for (auto &x : g.second) { if (!same(x.second, e)) dir = false; if (!same(x.second, e + Aff((127 - x.first) * gcfg.spec.sB + gcfg.spec.sK))) rkp = false; }
    if (dir) haveDir = true;
    if (rkp) haveRk = true;
    if (!dir && !rkp) {
      good = false;
      if (getenv("ISAPSA_TRACE")) { std::string c; for (auto &x : s.cons) c += x.str() + " | "; fprintf(stderr, "  inst %d dm %s\n cons %s\n", g.first, dmStr(dm).c_str(), c.c_str()); }
      int b0 = 0, d0 = g.second.begin()->second; for (auto &x : g.second) if (!same(x.second, e + Aff((127 - x.first) * gcfg.spec.sB + gcfg.spec.sK))) { b0 = x.first; d0 = x.second; break; }
      event("KS_SCHED", true, "keystream block " + j.str() + " is " + dstr(d0) + " rounds away from nonce bit " + std::to_string(b0) + ", expected " + e.str() + " (nonce in the state) or " + (e + Aff((127 - b0) * gcfg.spec.sB + gcfg.spec.sK)).str() + " (re-keying)");
    }
  }
  if (gn.empty()) { good = false; event("KS_NONCE", true, "keystream block " + j.str() + " does not depend on the nonce"); }
  else if (gn.size() > 1 && good && (!haveRk || !haveDir)) { good = false; event("KS_NONCE", true, std::string("the nonce is not used ") + (haveRk ? "in the encryption state" : "to derive the session key")); }
  else if (gn.size() == 1 && good && !haveRk) { good = false; event("KS_NONCE", true, "the nonce is not used to derive the session key"); }
  if (good) dmChecked.insert(memo);
}
void Interp::checkTagDM(State &s, int idx, int bit, Bit t) {
  stats["tag_bits"]++;
  checkUninit(t, "a tag bit");
  if (isC(t)) { event("TAG_CONST", true, "tag byte " + std::to_string(idx) + " bit " + std::to_string(bit) + " is constant"); return; }
  int dm = bitDM(t);
  Aff nA, nC;
  if (!nBlocks(s, B_AD, nA)) throw SplitNeeded{V_LA};
  if (!nBlocks(s, B_C, nC)) throw SplitNeeded{V_LM};
  auto memo = std::make_tuple(dm, internAff(nA), 100000 + internAff(nC));
  if (dmChecked.count(memo)) return;
  bool good = true;
  auto ev = [&](const char *k, const std::string &d) { good = false; event(k, true, d); };
  int sH = gcfg.spec.sH; int64_t rk = 127 * gcfg.spec.sB + gcfg.spec.sK;
  auto same = [&](int id, const Aff &want) { return id != AFF_BAD && (affTab[id] == want || proveEQ0(s.cons, affTab[id] - want)); };
  auto dstr = [&](int id) { return id == AFF_BAD ? std::string("an inconsistent number of") : affTab[id].str(); };
  std::map<int, std::map<int, int>> gk, gn;
  instGroup(dm, B_K, gk); instGroup(dm, B_N, gn);
  std::set<int> kb; for (auto &g : gk) for (auto &x : g.second) kb.insert(x.first);
  if (kb.size() != 128) ev("TAG_KEY", "a tag bit depends on only " + std::to_string(kb.size()) + " of the 128 key bits");
  for (auto &g : gk) for (auto &x : g.second) if (!same(x.second, Aff(gcfg.spec.sK + rk + sH))) { ev("TAG_SCHED", "the tag is " + dstr(x.second) + " rounds away from key bit " + std::to_string(x.first) + ", expected " + std::to_string(gcfg.spec.sK + rk + sH)); break; }
  if (gn.empty()) ev("TAG_NONCE", "the tag does not depend on the nonce");
  Aff base = Aff(rk + sH);
  for (auto &g : gn) {
    if (g.second.size() != 128) { ev("TAG_NONCE", "a tag bit depends on only " + std::to_string(g.second.size()) + " of the 128 nonce bits"); continue; }
    Aff want = (nA + nC + Aff(1)) * sH + Aff(rk);
    want = want + Aff(sH);
    for (auto &x : g.second) if (!same(x.second, want)) { ev("TAG_SCHED", "the tag is " + dstr(x.second) + " rounds away from nonce bit " + std::to_string(x.first) + ", expected " + want.str()); break; }
  }
  for (int buf : {B_AD, B_C}) {
    for (auto &p : dmTab[dm].v) {
      SrcKey k = keyTab[p.first]; if (k.buf != buf || isTagKey(s, k) || phantom(s, k)) continue;
      Aff b; int j; if (k.type == K_BLOCK) b = k.idx; else if (!decomp(k.idx, gcfg.spec.R, b, j)) throw Undecided{"position of an absorbed byte"};
      Aff want = (buf == B_AD ? (nA - b + nC) : (nC - b)) * sH + base;
      if (!same(p.second, want)) { ev("TAG_SCHED", std::string("the tag is ") + dstr(p.second) + " rounds away from block " + b.str() + " of " + bufName(buf) + ", expected " + want.str()); break; }
    }
    // everything absorbed is still visible in the tag
    Absorbed ab; 
    for (auto &p : dmTab[dm].v) { SrcKey k = keyTab[p.first]; if (k.buf != buf || isTagKey(s, k) || phantom(s, k)) continue; Aff b; int j = 0; if (k.type == K_BLOCK) { ab.blk[k.idx].block = true; } else if (decomp(k.idx, gcfg.spec.R, b, j)) ab.blk[b].bits.insert(j * 8 + k.bit); }
    Aff len = lenOfBuf(s, buf);
    if (ab.blk.empty() && !proveEQ0(s.cons, len)) { bool pos = true; if (pos) ev(buf == B_AD ? "DROP_AD" : "DROP_C", std::string("the tag does not depend on ") + bufName(buf)); }
    if (gcfg.fixA >= 0 && len.isConst()) {
      for (int64_t o = 0; o < len.c; o++) { auto it = ab.blk.find(Aff(o / gcfg.spec.R)); int j = o % gcfg.spec.R; for (int bb = 0; bb < 8; bb++) if (it == ab.blk.end() || (!it->second.block && !it->second.bits.count(j * 8 + bb))) { ev(buf == B_AD ? "DROP_AD" : "DROP_C", std::string("byte ") + std::to_string(o) + " bit " + std::to_string(bb) + " of " + bufName(buf) + " does not reach the tag"); o = len.c; break; } }
    }
  }
  if (good) dmChecked.insert(memo);
}
void Interp::checkHashDM(State &s, const Aff &off, int bit, Bit t) {
  stats["hash_bits"]++;
  checkUninit(t, "a hash output byte");
  Aff nI;
  if (!nBlocks(s, B_IN, nI)) throw SplitNeeded{V_LN};
  if (!off.isConst()) throw Undecided{"hash output position"};
  int64_t j = off.c / 8;
  if (isC(t)) { if (!proveEQ0(s.cons, s.lenN)) event("DROP_IN", true, "the hash output does not depend on the message"); return; }
  int dm = bitDM(t);
  auto memo = std::make_tuple(dm, internAff(nI), (int)(200000 + j));
  if (dmChecked.count(memo)) return;
  bool good = true;
  bool any = false;
  for (auto &p : dmTab[dm].v) {
    SrcKey k = keyTab[p.first]; if (k.buf != B_IN) { if (k.buf != B_UNINIT) { good = false; event("HASH_DEP", true, std::string("the hash output depends on ") + bufName(k.buf)); } continue; }
    if (phantom(s, k)) continue;
    any = true;
    Aff b; int jj; if (k.type == K_BLOCK) b = k.idx; else if (!decomp(k.idx, 8, b, jj)) throw Undecided{"position of a hashed byte"};
    Aff want = (nI - b + Aff(j)) * 12;
    bool ok = p.second != AFF_BAD && (affTab[p.second] == want || proveEQ0(s.cons, affTab[p.second] - want));
    if (!ok) { good = false; event("HASH_SCHED", true, "output block " + std::to_string(j) + " is " + (p.second == AFF_BAD ? std::string("an inconsistent number of") : affTab[p.second].str()) + " rounds away from message block " + b.str() + ", expected " + want.str()); break; }
  }
  if (!any && !proveEQ0(s.cons, s.lenN)) { good = false; event("DROP_IN", true, "the hash output does not depend on the message"); }
  if (good) dmChecked.insert(memo);
}

// ------------------------------------------------------------------ verification of the tag
// Value number of a bit after replacing the received tag by the tag that encryption would have produced.
bool Interp::shSubst(State &s, Bit b, uint64_t &h) {
  std::function<bool(uint32_t, uint64_t &)> form, leaf;
  leaf = [&](uint32_t l, uint64_t &o) -> bool {
    auto it = shMemo.find(l); if (it != shMemo.end()) { o = it->second; return true; }
    Leaf L = leafTab[l];
    bool dep = false;
    for (auto &p : dmTab[L.dm].v) if (isTagKey(s, keyTab[p.first])) { dep = true; break; }
    if (!dep) { o = L.sh; shMemo[l] = o; return true; }
    if (L.kind == L_SRC) {
      SrcKey k = keyTab[L.a]; int i = (int)(k.idx - s.lenM).c;
      auto q = encTags.find({i, k.bit}); if (q == encTags.end() || q->second.size() != 1) return false;
      o = *q->second.begin(); shMemo[l] = o; return true;
    }
    if (L.kind == L_COLL) { if (!form((uint32_t)L.a, o)) return false; shMemo[l] = o; return true; }
    if (L.kind == L_AND) { uint64_t x, y; if (!form((uint32_t)(L.a >> 1), x) || !form((uint32_t)(L.b >> 1), y)) return false; o = gfmul(x ^ (L.a & 1), y ^ (L.b & 1)); shMemo[l] = o; return true; }
    return false;
  };
  form = [&](uint32_t f, uint64_t &o) -> bool { o = 0; auto ls = formTab[f].l; for (uint32_t l : ls) { uint64_t x; if (!leaf(l, x)) return false; o ^= x; } return true; };
  if (!form(b >> 1, h)) return false;
  h ^= b & 1;
  return true;
}
bool Interp::verified(State &s, std::string &why, bool rec) {
  if (s.verdict && !rec) return true;   // path facts only grow
  if (s.facts.empty()) { why = "no comparison with the received tag"; return false; }
  std::set<int> pin; std::vector<Bit> other;
  for (Bit f : s.facts) {
    const Form &F = formTab[f >> 1];
    int found = -1; uint32_t src = 0; int cnt = 0;
    for (uint32_t l : F.l) if (leafTab[l].kind == L_SRC) { SrcKey k = keyTab[leafTab[l].a]; if (isTagKey(s, k)) { cnt++; src = l; found = (int)(k.idx - s.lenM).c * 8 + k.bit; } }
    if (cnt != 1) { other.push_back(f); continue; }
    Bit rest = xorRaw(f, leafBit(src));
    bool tagIn = false;
    for (auto &p : dmTab[bitDM(rest)].v) if (isTagKey(s, keyTab[p.first])) { tagIn = true; break; }
    if (tagIn || isC(rest)) { other.push_back(f); continue; }
    uint32_t need = (1u << B_K);
    if ((dmTab[bitDM(rest)].mask & need) != need) continue;
    pin.insert(found);
    if (rec) {
      Bit T = notb(rest);
      tagMap[std::to_string(found)].insert(bitSh(T));
      checkTagDM(s, found / 8, found % 8, T);
    }
  }
  if (pin.size() == 128 || s.verdict) { s.verdict = true; return true; }
  if (other.size() >= 128 && encTags.empty()) needEnc = true;
  if (other.size() >= 128 && !encTags.empty()) {
    std::set<uint64_t> okFacts;
    shMemo.clear();
    for (Bit f : other) {
      uint64_t h;
      int dm = bitDM(f); std::set<int> tb; for (auto &p : dmTab[dm].v) if (isTagKey(s, keyTab[p.first])) tb.insert(p.first);
      if (tb.size() != 128) continue;
      const Form &F = formTab[f >> 1]; if (F.l.size() == 1 && leafTab[F.l[0]].kind == L_AND && !(f & 1)) continue;   // the conjunction itself
      if (shSubst(s, f, h) && h == 1) okFacts.insert(bitSh(f));
    }
    if (okFacts.size() >= 128) { stats["indirect_verdicts"]++; s.verdict = true; return true; }
    why = "only " + std::to_string(okFacts.size()) + " of the 128 transformed tag bits are compared with those of the recomputed tag";
    return false;
  }
  std::string l; int n = 0;
  for (int i = 0; i < 128; i++) if (!pin.count(i)) { if (++n <= 4) l += (l.empty() ? "" : ", ") + std::string("byte ") + std::to_string(i / 8) + " bit " + std::to_string(i % 8); }
  why = "received tag " + l + (n > 4 ? " and " + std::to_string(n - 4) + " more bits" : "") + " not compared";
  return false;
}
// ------------------------------------------------------------------ outputs
void Interp::outByte(State &s, int role, const Aff &off, const Bit *b) {
  if (role == R_OUT) {
    if (!s.outStarted) { s.outStarted = true; if (proveEQ0(s.cons, s.lenN)) {} else checkComplete(s, B_IN, "the first output block"); }
    for (int i = 0; i < 8; i++) { checkHashDM(s, off, i, b[i]); ksMap[off.str() + "." + std::to_string(i)].insert(bitSh(b[i])); }
    return;
  }
  if (role == R_C) {
    if (proveGE0(s.cons, off - s.lenM)) {
      Aff d = off - s.lenM; Aff k;
      if (!pinValue(s, d, k) || k.c > 15) { int w; if (needSplit(s, d, w)) throw SplitNeeded{w}; throw Undecided{"tag position"}; }
      for (int i = 0; i < 8; i++) { checkTagDM(s, (int)k.c, i, b[i]); tagMap[std::to_string(k.c * 8 + i)].insert(bitSh(b[i])); encTags[{(int)k.c, i}].insert(bitSh(b[i])); }
      return;
    }
    if (!proveGE0(s.cons, s.lenM - off - Aff(1))) { int w; if (needSplit(s, off - s.lenM, w)) throw SplitNeeded{w}; throw Undecided{"cannot tell ciphertext from tag at offset " + off.str()}; }
  }
  int in = role == R_C ? B_M : B_C;
  for (int i = 0; i < 8; i++) {
    Bit m = srcBit(in, off, i, 0);
    Bit ks = xorRaw(b[i], m);
    checkKs(s, off, i, ks);
  }
}
void Interp::finish(State &s0, const VP &ret0) {
  std::vector<std::pair<SP, VP>> work{{std::make_shared<State>(s0), ret0}};
  while (!work.empty()) {
    SP sp = work.back().first; VP ret = work.back().second; work.pop_back();
    State &s = *sp; curS = sp;
    stats["return_paths"]++;
    if (ret && !ret->num) {
      // resolve a data-dependent return value under the path facts
      auto x = bitsOf(ret); bool forked = false, changed = false;
      for (auto &b : x) { int v = factValue(s, b); if (v >= 0 && !isC(b)) { b = v; changed = true; } }
      for (auto &b : x) if (!isC(b)) {
        if (dmTab[bitDM(b)].mask >> B_UNINIT & 1 || dmTab[bitDM(b)].mask >> B_ADDR & 1) { checkUninit(b, "the return value"); }
        for (int v = 0; v < 2; v++) { SP c = std::make_shared<State>(s); if (assumeTrue(*c, v ? b : notb(b))) { auto y = x; work.push_back({c, mkBits(ret->w, y)}); } }
        forked = true; break;
      }
      if (forked) { if (work.size() > 200) throw Undecided{"return value"}; continue; }
      if (changed) ret = mkBits(ret->w, x);
    }
    int64_t rv = 99; bool konst = ret && ret->num && ret->n.isConst(); if (konst) rv = ret->n.c;
    auto lenOut = [&](const Aff &want) {
      for (auto &m : s.mem) if (objs[m.first].role == R_LENP) {
        auto sl = m.second->slots.find(0);
        if (sl == m.second->slots.end() || sl->second->w != 64 || !sl->second->num || !(sl->second->n == want || proveEQ0(s.cons, sl->second->n - want)))
          event("LENOUT", true, "the length output is " + (sl == m.second->slots.end() ? std::string("not a complete 64-bit value") : !sl->second->num ? std::string("not a function of the lengths") : std::to_string(sl->second->w) + "-bit " + sl->second->n.str()) + ", expected " + want.str());
        return;
      }
      event("LENOUT", true, "the length output is not written, expected " + want.str());
    };
    auto covers = [&](Ivs &iv, const Aff &end, const char *what) {
      Ivs v; for (auto &p : iv) if (!proveEQ0(s.cons, p.second - p.first)) v.push_back(p);
      if (proveEQ0(s.cons, end)) return;
      if (v.size() == 1 && proveEQ0(s.cons, v[0].first) && proveGE0(s.cons, v[0].second - end)) return;
      if (v.empty() && proveGE0(s.cons, -end)) return;
      std::string d; for (auto &p : v) d += "[" + p.first.str() + "," + p.second.str() + ") ";
      event("OUT_INCOMPLETE", true, std::string(what) + ": bytes written are " + (d.empty() ? "none" : d) + "of [0," + end.str() + ")");
    };
    if (gcfg.hash) {
      if (!konst || rv != 0) event("RET", true, "the hash function does not return 0");
      covers(s.wrOut, Aff(32), "hash output");
      Aff nI; 
      stats["hash_pads"] += s.padlog.size();
      bool sure = proveGE0(s.cons, s.lenN - Aff(8));
      if (sure && s.padlog.size() != 1) event("HASH_PAD", true, "the message is padded by " + std::to_string(s.padlog.size()) + " single 1-bits instead of exactly one");
      continue;
    }
    if (gcfg.shortLen >= 0) {
      if (!konst || rv != -1) event("SHORT", true, "a ciphertext of " + std::to_string(gcfg.shortLen) + " bytes is not rejected with -1");
      continue;
    }
    auto pads = [&]() {
      Aff nA, nC;
      if (!nBlocks(s, B_AD, nA) || !nBlocks(s, B_C, nC)) throw Undecided{"block numbers at return"};
      std::vector<Aff> want{nA * gcfg.spec.sH, (nA + Aff(1)) * gcfg.spec.sH, (nA + nC) * gcfg.spec.sH};
      std::vector<Aff> have = s.padlog;
      static const char *what[] = {"padding of the associated data", "domain separation", "padding of the ciphertext"};
      stats["padding_checks"]++;
      for (int i = 0; i < 3; i++) {
        bool f = false;
        for (size_t j = 0; j < have.size(); j++) if (proveEQ0(s.cons, have[j] - want[i])) { have.erase(have.begin() + j); f = true; break; }
        if (!f) event("PAD", true, std::string("missing ") + what[i] + " (expected one constant bit " + want[i].str() + " rounds after the nonce)");
      }
      for (auto &h : have) event("PAD", true, "unexpected constant bit injected into the MAC state " + h.str() + " rounds after the nonce");
    };
    if (gcfg.encrypt) {
      if (!konst || rv != 0) event("RET", true, "encryption does not return 0");
      lenOut(s.lenM + Aff(16));
      covers(s.wr[B_C], s.lenM + Aff(16), "ciphertext");
      pads();
      continue;
    }
    std::string why;
    bool ver = verified(s, why, false);
    if (konst && rv == 0) {
      if (!ver) event("ACCEPT", true, "decryption returns 0 although the tag is not verified on this path: " + why);
      else verified(s, why, true);
      lenOut(s.lenM);
      covers(s.wr[B_M], s.lenM, "plaintext");
      pads();
    } else if (konst && rv == -1) {
      if (ver) event("REJECT", true, "decryption returns -1 on a path where every tag bit matches");
    } else event("RET", true, "decryption returns a value other than 0 or -1");
  }
}
