// Values, memory objects, XOR/AND hooks.
#include "interp.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"

static int64_t sext64(int64_t x, uint32_t w) { if (w >= 64) return x; uint64_t m = (uint64_t)x << (64 - w); return (int64_t)m >> (64 - w); }
VP mkNum(uint32_t w, const Aff &n0) {
  auto v = std::make_shared<Val>(); v->w = w; v->num = true; v->n = n0;
  if (n0.isConst()) v->n.c = sext64(n0.c, w);
  return v;
}
VP mkBits(uint32_t w, std::vector<Bit> b) {
  auto v = std::make_shared<Val>(); v->w = w;
  if (b.size() != w) DIE("mkBits width %u vs %zu", w, b.size());
  if (w <= 64) {
    bool allc = true; uint64_t x = 0;
    for (uint32_t i = 0; i < w; i++) { if (!isC(b[i])) { allc = false; break; } x |= (uint64_t)b[i] << i; }
    if (allc) { v->num = true; v->n = Aff(sext64((int64_t)x, w)); }
  }
  v->b = std::move(b);
  return v;
}
VP mkPtr(int obj, const Aff &off) { auto v = std::make_shared<Val>(); v->k = Val::PTR; v->w = gcfg.ptrBits; v->obj = obj; v->num = true; v->n = off; return v; }
VP mkPtrUnknown(int obj, std::vector<Bit> deps) { auto v = std::make_shared<Val>(); v->k = Val::PTR; v->w = gcfg.ptrBits; v->obj = obj; v->num = false; v->b = std::move(deps); return v; }
std::vector<Bit> bitsOf(const VP &v) {
  if (v->k == Val::AGG) { std::vector<Bit> r; for (auto &e : v->el) { auto x = bitsOf(e); r.insert(r.end(), x.begin(), x.end()); } return r; }
  if (v->k == Val::PTR) {
    std::vector<Bit> r(v->w);
    static int dmAddr = internDM({{internKey(B_ADDR, K_BLOCK, Aff(0), 0, 0), internAff(Aff(0))}});
    int dm = v->obj == -1 ? 0 : dmAddr; for (Bit b : v->b) dm = dmMax(dm, bitDM(b));
    for (uint32_t i = 0; i < v->w; i++) r[i] = v->obj == -1 && v->n.isConst() ? (i < 64 ? (uint64_t)v->n.c >> i & 1 : 0) : opaqueBit(hmix(0x505452, v->obj), hmix(v->n.hash(), i), dm, v->n.vars());
    return r;
  }
  if (!v->b.empty()) return v->b;
  std::vector<Bit> r(v->w);
  if (!v->num) DIE("value without bits");
  if (v->n.isConst()) { for (uint32_t i = 0; i < v->w; i++) r[i] = i < 64 ? (uint64_t)v->n.c >> i & 1 : (v->n.c < 0); return r; }
  int a = internAff(v->n);
  for (uint32_t i = 0; i < v->w; i++) r[i] = leafBit(internLeaf(L_LEN, a, i, 0, v->n.vars(), hmix(hmix(19, v->n.hash()), i)));
  return r;
}
bool Interp::dataDepBit(Bit b) { return (dmTab[bitDM(b)].mask & ~(1u << B_ADDR)) != 0; }
bool Interp::dataDep(const VP &v) { if (v->num) return false; if (v->k == Val::AGG) { for (auto &e : v->el) if (dataDep(e)) return true; return false; } for (Bit b : v->b) if (dataDepBit(b)) return true; return false; }

static std::vector<int> keyDepthMemo, nonceDepthMemo;
static int depthOf(int dm, int buf, std::vector<int> &memo) {
  if ((size_t)dm >= memo.size()) memo.resize(std::max<size_t>(dm + 1, memo.size() * 2), -2);
  if (memo[dm] != -2) return memo[dm];
  int best = -1;
  for (auto &p : dmTab[dm].v) {
    if (keyTab[p.first].buf != buf) continue;
    if (best < 0) best = p.second;
    else if (best == AFF_BAD || p.second == AFF_BAD) best = AFF_BAD;
    else { Aff d = affTab[p.second] - affTab[best]; if (!d.isConst()) best = AFF_BAD; else if (d.c > 0) best = p.second; }
  }
  memo[dm] = best;
  return best;
}
int Interp::keyDepth(int dm) { return depthOf(dm, B_K, keyDepthMemo); }
int Interp::nonceDepth(int dm) { return depthOf(dm, B_N, nonceDepthMemo); }

// Called for every bit XOR: watches the long-term key meeting other data before re-keying is complete.
Bit Interp::xorHook(State &s, Bit a, Bit b) {
  if (isC(a) || isC(b)) return xorRaw(a, b);
  uint32_t ma = dmTab[bitDM(a)].mask, mb = dmTab[bitDM(b)].mask;
  if ((ma ^ mb) >> B_K & 1) {
    Bit kb = (ma >> B_K & 1) ? a : b, ub = (ma >> B_K & 1) ? b : a;
    uint32_t mu = dmTab[bitDM(ub)].mask;
    if (mu & ~((1u << B_UNINIT) | (1u << B_ADDR))) {   // unused vector lanes hold leftovers; P16 follows those
      int kd = keyDepth(bitDM(kb));
      int total = 2 * gcfg.spec.sK + 127 * gcfg.spec.sB;
      bool early = kd != AFF_BAD && !proveGE0(s.cons, affTab[kd] - Aff(total));
      if (early) {
        int inst = 0;
        for (auto &p : dmTab[bitDM(kb)].v) if (keyTab[p.first].buf == B_K) inst = keyTab[p.first].inst;
        const Form &f = formTab[ub >> 1];
        bool direct = f.l.size() == 1 && leafTab[f.l[0]].kind == L_SRC && keyTab[leafTab[f.l[0]].a].buf == B_N;
        int cls = direct ? 0 : 1;
        auto key = std::make_tuple(inst, cls, kd);
        auto it = s.inj.find(key);
        stats["rekey_injections"]++;
        int64_t d = affTab[kd].isConst() ? affTab[kd].c : -1;
        int64_t rel = d - gcfg.spec.sK;
        if (d < 0 || rel < 0 || rel % gcfg.spec.sB != 0 || rel / gcfg.spec.sB > 127)
          event("REKEY_TIME", true, "data is combined with the long-term key state after " + affTab[kd].str() + " rounds; the schedule absorbs bit i after s_K + i*s_B rounds only");
        else if (direct) {
          const SrcKey &k = keyTab[leafTab[f.l[0]].a];
          int64_t i = rel / gcfg.spec.sB;
          if (!(k.idx == Aff(i / 8) && k.bit == 7 - i % 8))
            event("REKEY_ORDER", true, "re-keying step " + std::to_string(i) + " absorbs nonce byte " + k.idx.str() + " bit " + std::to_string(k.bit) + " instead of byte " + std::to_string(i / 8) + " bit " + std::to_string(7 - i % 8));
        }
        if (it == s.inj.end()) {
          if (cls == 1) {
            bool first = true;
            for (auto &e : s.inj) { if (std::get<1>(e.first) == 1 && std::get<0>(e.first) == inst) { first = false; if (e.second == ub && rel / gcfg.spec.sB >= 0) event("REKEY_ORDER", true, "the same MAC state bit is absorbed twice during re-keying"); } }
            if (first && !gcfg.hash) { checkComplete(s, B_AD, "MAC finalisation"); checkComplete(s, B_C, "MAC finalisation"); }
          }
          s.inj[key] = ub;
        } else if (it->second != ub)
          event("REKEY_RATE", true, "more than one data bit is absorbed into the long-term key state after " + affTab[kd].str() + " rounds");
      }
    }
  }
  return xorRaw(a, b);
}
Bit Interp::andHook(State &s, Bit a, Bit b) {
  if (!isC(a) && !isC(b)) {
    uint32_t ma = dmTab[bitDM(a)].mask, mb = dmTab[bitDM(b)].mask;
    if ((ma ^ mb) >> B_K & 1) {
      Bit kb = (ma >> B_K & 1) ? a : b; uint32_t mu = (ma >> B_K & 1) ? mb : ma;
      if (mu & ~((1u << B_UNINIT) | (1u << B_ADDR))) {
        int kd = keyDepth(bitDM(kb));
        int total = 2 * gcfg.spec.sK + 127 * gcfg.spec.sB;
        if (kd != AFF_BAD && !proveGE0(s.cons, affTab[kd] - Aff(total)))
          event("REKEY_MIX", true, "long-term key state is combined non-linearly with data that is not derived from the key after " + affTab[kd].str() + " rounds");
      }
    }
  }
  return andb(a, b);
}
// Input bits meeting state bits: each state bit takes one input bit, each input bit goes to one state bit.
void Interp::checkSmear(State &s, const std::vector<Bit> &x, const std::vector<Bit> &y, uint32_t w) {
  const uint32_t IN = 1u << B_AD | 1u << B_C | 1u << B_M | 1u << B_IN, SEC = 1u << B_K | 1u << B_N;
  std::vector<uint32_t> used;
  for (uint32_t i = 0; i < w; i++) {
    if (isC(x[i]) || isC(y[i])) continue;
    uint32_t my = dmTab[bitDM(y[i])].mask;
    if (!my || (my & ~IN)) continue;
    if (my == 1u << B_C) {                      // the received tag only has to be compared
      bool tag = false;
      for (auto &p : dmTab[bitDM(y[i])].v) { const SrcKey &k = keyTab[p.first]; if (k.type == K_BIT) { Aff d = k.idx - s.lenM; if (d.isConst() && d.c >= 0) tag = true; } }
      if (tag) continue;
    }
    uint32_t mx = dmTab[bitDM(x[i])].mask;
    if (!gcfg.hash && !(mx & SEC)) continue;
    const Span l = formTab[y[i] >> 1].l;
    bool pure = true;
    for (uint32_t q : l) if (leafTab[q].kind != L_SRC) pure = false;
    if (gcfg.hash) {
      if (!pure) continue;
      bool old = false;                       // the permutation's own mixing: bits of a block the state already holds
      for (uint32_t q : formTab[x[i] >> 1].l) if (leafTab[q].kind != L_SRC) old = true;
      if (!old) continue;
      for (auto &p : dmTab[bitDM(x[i])].v) for (uint32_t q : l) {
        const SrcKey &a = keyTab[p.first], &b = keyTab[leafTab[q].a];
        if (a.buf != B_IN) continue;
        Aff ba = a.type == K_BLOCK ? a.idx * 8 : a.idx, d = ba - b.idx;
        if (!d.isConst() ? false : d.c > -8 && d.c < 8) old = false;
      }
      if (!old) continue;
    }
    stats["injected_bits"]++;
    int b = 0; while (!(my >> b & 1)) b++;
    if (!pure) event("SMEAR", true, std::string("bits of ") + bufName(b) + " are combined non-linearly before they are added to the state");
    else if (l.size() > 1) event("SMEAR", true, "one state bit receives " + std::to_string(l.size()) + " bits of " + bufName(b) + " at once");
    else used.push_back(l.begin()[0]);
  }
  if (used.size() < 2) return;
  std::sort(used.begin(), used.end());
  for (size_t i = 0; i + 1 < used.size(); i++) if (used[i] == used[i + 1]) {
    const SrcKey &k = keyTab[leafTab[used[i]].a];
    event("SMEAR", true, std::string("byte ") + k.idx.str() + " bit " + std::to_string(k.bit) + " of " + bufName(k.buf) + " is added to several state bits at once");
    return;
  }
}
VP Interp::xorVal(State &s, const VP &a, const VP &b, uint32_t w, uint32_t elw) {
  if (a->num && b->num && w <= 64) {
    if (a->n.isConst() && b->n.isConst()) return mkNum(w, Aff(a->n.c ^ b->n.c));
    if (b->n.isConst() && b->n.c == 0) return a;
    if (a->n.isConst() && a->n.c == 0) return b;
    if (b->n.isConst() && b->n.c == -1) return mkNum(w, Aff(-1) - a->n);
    if (a->n == b->n) return mkNum(w, Aff(0));
  }
  auto x = bitsOf(a), y = bitsOf(b);
  std::vector<Bit> r(w);
  int ones = 0, pos = -1, consts = 0;
  for (uint32_t i = 0; i < w; i++) {
    r[i] = xorHook(s, x[i], y[i]);
    if (isC(y[i]) && !isC(x[i])) { consts++; if (y[i]) { ones++; pos = i; } }
    else if (isC(x[i]) && !isC(y[i])) { consts++; if (x[i]) { ones++; pos = i; } }
  }
  checkSmear(s, x, y, w); checkSmear(s, y, x, w);
  if (ones == 1 && w > 1) {
    bool fromX = !isC(x[pos]);
    Bit t = fromX ? x[pos] : y[pos];
    int mainbuf = gcfg.hash ? B_IN : B_N;
    uint32_t m = dmTab[bitDM(t)].mask;
    if ((m >> mainbuf & 1) && !(m >> B_K & 1) && !gcfg.hash) {
      // is this a state bit (not raw nonce)?  time = rounds since the nonce was loaded
      int nd = nonceDepth(bitDM(t));
      const Aff &d = affTab[nd];
      bool multiple = nd != AFF_BAD;
      if (multiple) { for (int i = 0; i < d.n; i++) if (d.t[i].second % gcfg.spec.sH) multiple = false; if (((d.c % gcfg.spec.sH) + gcfg.spec.sH) % gcfg.spec.sH) multiple = false; }
      bool zero = d.isConst() && d.c == 0;
      if ((multiple && !zero) || nd == AFF_BAD) { s.padlog.push_back(nd == AFF_BAD ? Aff::var(V_BAD) : d); std::sort(s.padlog.begin(), s.padlog.end()); stats["constant_injections"]++; }
    } else if (gcfg.hash && (m >> B_IN & 1)) {
      // hash padding: time relative to the newest absorbed block
      Aff best(0); bool have = false, bad = false;
      for (auto &p : dmTab[bitDM(t)].v) if (keyTab[p.first].buf == B_IN) { if (p.second == AFF_BAD) { bad = true; continue; } if (!have || (affTab[p.second] - best).c < 0) best = affTab[p.second], have = true; }
      if (!bad && have && best.isConst() && best.c > 0 && best.c % gcfg.spec.sH == 0) { s.padlog.push_back(best); stats["constant_injections"]++; }
    }
  }
  return mkBits(w, std::move(r));
}
VP Interp::andVal(State &s, const VP &a, const VP &b, uint32_t w) {
  if (w <= 64 && a->num && b->num) {
    if (a->n.isConst() && b->n.isConst()) return mkNum(w, Aff(a->n.c & b->n.c));
    for (int sw = 0; sw < 2; sw++) {
      const VP &l = sw ? b : a, &m = sw ? a : b;
      if (!m->n.isConst() || l->n.isConst()) continue;
      uint64_t mk = (uint64_t)m->n.c; if (w < 64) mk &= ((uint64_t)1 << w) - 1;
      uint64_t full = w < 64 ? ((uint64_t)1 << w) - 1 : ~0ull;
      if (mk == full) return l;
      if (mk == 0) return mkNum(w, Aff(0));
      bool low = (mk & (mk + 1)) == 0, high = ((~mk & full) & ((~mk & full) + 1)) == 0;
      uint64_t lowmask = low ? mk : (~mk & full);
      if (low || high) {
        int64_t mod = (int64_t)(lowmask + 1);
        bool ok = true;
        for (int i = 0; i < l->n.n; i++) if (mod == 0 || l->n.t[i].second % mod) ok = false;
        if (ok) { int64_t rem = l->n.c & (int64_t)lowmask; return low ? mkNum(w, Aff(rem)) : mkNum(w, l->n - Aff(rem)); }
        int which; if (needSplit(s, l->n, which)) throw SplitNeeded{which};
        // low mask that provably does not cut anything off (or cuts: reported as truncation)
        if (low) {
          Aff v; VP lv = l;
          if (inRange(s, lv, false, v) && proveGE0(s.cons, Aff((int64_t)lowmask) - v)) return mkNum(w, v);
          if (lowmask >= 0xff) { event("TRUNC", true, "length or offset " + l->n.str() + " is truncated by a mask" + whichLen(s, l->n)); return mkNum(w, l->n); }
        }
      }
    }
  }
  auto x = bitsOf(a), y = bitsOf(b);
  std::vector<Bit> r(w);
  for (uint32_t i = 0; i < w; i++) r[i] = andHook(s, x[i], y[i]);
  return mkBits(w, std::move(r));
}
VP Interp::orVal(State &s, const VP &a, const VP &b, uint32_t w) {
  if (w <= 64 && a->num && b->num) {
    if (a->n.isConst() && b->n.isConst()) return mkNum(w, Aff(a->n.c | b->n.c));
    if (b->n.isConst() && b->n.c == 0) return a;
    if (a->n.isConst() && a->n.c == 0) return b;
  }
  auto x = bitsOf(a), y = bitsOf(b);
  std::vector<Bit> r(w);
  auto raw = [&](Bit b) -> int {   // a single input bit, not negated
    if (isC(b) || (b & 1)) return -1;
    const Form &f = formTab[b >> 1];
    if (f.l.size() != 1 || leafTab[f.l[0]].kind != L_SRC) return -1;
    const SrcKey &k = keyTab[leafTab[f.l[0]].a];
    if (k.buf == B_UNINIT || k.buf == B_MISC || k.buf == B_ADDR || isTagKey(s, k)) return -1;
    return f.l[0];
  };
  bool two = false;
  for (uint32_t i = 0; i < w; i++) {
    if (!two && !gcfg.hash) { int p = raw(x[i]), q = p < 0 ? -1 : raw(y[i]); if (p >= 0 && q >= 0) { stats["joined_words"]++;
      int np = 0, nq = 0; if (p != q) for (uint32_t j = 0; j < w; j++) { np += raw(x[j]) == p; nq += raw(y[j]) == q; }
      if (np > 1 || nq > 1) {
      const SrcKey &a = keyTab[leafTab[p].a], &b = keyTab[leafTab[q].a]; two = true;
      event("SMEAR", true, "a replicated input bit is joined with another by OR: byte " + a.idx.str() + " bit " + std::to_string(a.bit) + " of " + bufName(a.buf) + " and byte " + b.idx.str() + " bit " + std::to_string(b.bit) + " of " + bufName(b.buf));
    } } }
    r[i] = notb(andHook(s, notb(x[i]), notb(y[i])));
  }
  return mkBits(w, std::move(r));
}
VP Interp::opaque(uint32_t w, const char *tag, const std::vector<VP> &ops) {
  uint64_t h = hstr(tag); int dm = 0; uint32_t vars = 0;
  for (auto &o : ops) for (Bit b : bitsOf(o)) { h = hmix(h, bitSh(b)); dm = dmMax(dm, bitDM(b)); vars |= formTab[b >> 1].vars; }
  dm = dmInc(dm);
  std::vector<Bit> r(w);
  for (uint32_t i = 0; i < w; i++) r[i] = opaqueBit(h, i, dm, vars);
  return mkBits(w, r);
}

static bool allDiv(const Aff &a, int64_t d) { for (int i = 0; i < a.n; i++) if (a.t[i].second % d) return false; return true; }
VP Interp::binop(State &s, unsigned opc, const VP &a, const VP &b, uint32_t w, uint32_t elw) {
  if (a->k == Val::PTR || b->k == Val::PTR) {
    if (opc == Instruction::Sub && a->k == Val::PTR && b->k == Val::PTR && a->obj == b->obj && a->num && b->num) return mkNum(w, a->n - b->n);
    if (opc == Instruction::Add && a->k == Val::PTR && b->k == Val::INT && a->num && b->num) return mkPtr(a->obj, a->n + b->n);
    if (opc == Instruction::Add && b->k == Val::PTR && a->k == Val::INT && a->num && b->num) return mkPtr(b->obj, a->n + b->n);
    if (opc == Instruction::Sub && a->k == Val::PTR && b->k == Val::INT && a->num && b->num) return mkPtr(a->obj, a->n - b->n);
    // bits of an address are unknown, and labelled as such
    stats["address_bits_used"]++;
    bool pow2 = b->num && b->n.isConst() && b->n.c > 0 && (b->n.c & (b->n.c - 1)) == 0;
    auto ints = [&](const VP &v) { return v->k == Val::PTR ? mkBits(w, [&] { auto x = bitsOf(v); x.resize(w, 0); return x; }()) : v; };
    if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) return binop(s, opc, ints(a), ints(b), w, w);
    if (opc == Instruction::URem && pow2) return binop(s, Instruction::And, ints(a), mkNum(w, Aff(b->n.c - 1)), w, w);
    if ((opc == Instruction::Shl || opc == Instruction::LShr) && b->num) return binop(s, opc, ints(a), b, w, w);
    return opaque(w, "ptrarith", {a, b});
  }
  if (w != elw) {  // vector: elementwise
    std::vector<Bit> r;
    auto x = bitsOf(a), y = bitsOf(b);
    if (opc == Instruction::Xor) return xorVal(s, a, b, w, elw);
    if (opc == Instruction::And) return andVal(s, a, b, w);
    if (opc == Instruction::Or) return orVal(s, a, b, w);
    for (uint32_t i = 0; i < w; i += elw) {
      VP e = binop(s, opc, mkBits(elw, std::vector<Bit>(x.begin() + i, x.begin() + i + elw)), mkBits(elw, std::vector<Bit>(y.begin() + i, y.begin() + i + elw)), elw, elw);
      auto z = bitsOf(e); r.insert(r.end(), z.begin(), z.end());
    }
    return mkBits(w, std::move(r));
  }
  bool an = a->num, bn = b->num;
  auto constU = [&](const VP &v) -> uint64_t { uint64_t x = (uint64_t)v->n.c; if (w < 64) x &= ((uint64_t)1 << w) - 1; return x; };
  bool bc = bn && b->n.isConst(), ac = an && a->n.isConst();
  switch (opc) {
  case Instruction::Xor: return xorVal(s, a, b, w, elw);
  case Instruction::And: return andVal(s, a, b, w);
  case Instruction::Or: return orVal(s, a, b, w);
  case Instruction::Add:
  case Instruction::Sub: {
    bool sub = opc == Instruction::Sub;
    if (an && bn) return mkNum(w, sub ? a->n - b->n : a->n + b->n);
    // indicator sums
    if (!sub && (a->hasInd || ac) && (b->hasInd || bc)) {
      auto bits = bitsOf(a);
      auto v = std::make_shared<Val>();
      v->w = w; v->hasInd = true;
      v->indc = (a->hasInd ? a->indc : a->n.c) + (b->hasInd ? b->indc : b->n.c);
      if (a->hasInd) v->inds = a->inds;
      if (b->hasInd) v->inds.insert(v->inds.end(), b->inds.begin(), b->inds.end());
      VP o = opaque(w, "indsum", {a, b});
      v->b = o->b;
      return v;
    }
    auto x = bitsOf(a), y = bitsOf(b);
    std::vector<Bit> r(w);
    Bit c = sub ? 1 : 0;
    for (uint32_t i = 0; i < w; i++) {
      Bit yy = sub ? notb(y[i]) : y[i];
      Bit t = xorHook(s, x[i], yy);
      r[i] = xorHook(s, t, c);
      // majority carry
      c = orb(andHook(s, x[i], yy), andHook(s, c, t));
    }
    VP rv = mkBits(w, std::move(r));
    if (sub && (a->hasInd) && bc) { auto v = std::make_shared<Val>(*rv); if (!v->num) { v->hasInd = true; v->inds = a->inds; v->indc = a->indc - b->n.c; } return v; }
    return rv;
  }
  case Instruction::Mul: {
    if (an && bn && (a->n.isConst() || b->n.isConst())) return a->n.isConst() ? mkNum(w, b->n * a->n.c) : mkNum(w, a->n * b->n.c);
    if (bc || ac) {
      uint64_t m = bc ? constU(b) : constU(a); const VP &o = bc ? a : b;
      VP acc = mkNum(w, Aff(0));
      int pop = __builtin_popcountll(m);
      if (pop <= 4) { for (uint32_t i = 0; i < w; i++) if (m >> i & 1) acc = binop(s, Instruction::Add, acc, binop(s, Instruction::Shl, o, mkNum(w, Aff(i)), w, w), w, w); return acc; }
    }
    if (dataDep(a) || dataDep(b)) stats["data_mul"]++;
    return opaque(w, "mul", {a, b});
  }
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr: {
    if (bc) {
      uint64_t k = constU(b);
      if (k >= w) { event("SHIFT_RANGE", true, "shift amount " + std::to_string(k) + " is not smaller than the operand width " + std::to_string(w)); return opaque(w, "badshift", {a, b}); }
      if (an && !a->n.isConst()) {
        if (opc == Instruction::Shl) return mkNum(w, a->n * ((int64_t)1 << k));
        int64_t d = (int64_t)1 << k;
        Aff v;
        if (allDiv(a->n, d)) { if (inRange(s, a, opc == Instruction::AShr, v)) { Aff r(0); for (int i = 0; i < v.n; i++) r.addTerm(v.t[i].first, v.t[i].second / d); r.c = (int64_t)floordiv(v.c, d); return mkNum(w, r); } }
        int which; if (needSplit(s, a->n, which)) throw SplitNeeded{which};
      }
      auto x = bitsOf(a); std::vector<Bit> r(w, 0);
      for (uint32_t i = 0; i < w; i++) {
        if (opc == Instruction::Shl) r[i] = i >= k ? x[i - k] : 0;
        else r[i] = i + k < w ? x[i + k] : (opc == Instruction::AShr ? x[w - 1] : 0);
      }
      return mkBits(w, std::move(r));
    }
    int which; if (bn && needSplit(s, b->n, which)) throw SplitNeeded{which};
    if (dataDep(b)) event("VAR_SHIFT", true, "shift amount depends on data");
    else if (bn) throw Undecided{"shift by a symbolic length"};
    return opaque(w, "shift", {a, b});
  }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    bool sg = opc == Instruction::SDiv || opc == Instruction::SRem;
    bool rem = opc == Instruction::URem || opc == Instruction::SRem;
    if (an && bc && b->n.c != 0) {
      if (a->n.isConst()) {
        if (sg) return mkNum(w, Aff(rem ? a->n.c % b->n.c : a->n.c / b->n.c));
        uint64_t x = constU(a), y = constU(b); return mkNum(w, Aff((int64_t)(rem ? x % y : x / y)));
      }
      int64_t d = sg ? b->n.c : (int64_t)constU(b);
      if (d > 0) {
        Aff v;
        if (allDiv(a->n, d)) {
          if (inRange(s, a, sg, v)) {
            if (sg && !proveGE0(s.cons, v)) throw Undecided{"signed division of a length that may be negative"};
            Aff q(0); for (int i = 0; i < v.n; i++) q.addTerm(v.t[i].first, v.t[i].second / d);
            int64_t fl = (int64_t)floordiv(v.c, d);
            if (rem) return mkNum(w, Aff(v.c - fl * d));
            q.c = fl; return mkNum(w, q);
          }
        }
        int which; if (needSplit(s, a->n, which)) throw SplitNeeded{which};
        if (inRange(s, a, sg, v) && proveGE0(s.cons, v) && proveGE0(s.cons, Aff(d - 1) - v)) return rem ? mkNum(w, v) : mkNum(w, Aff(0));
        throw Undecided{"division of " + a->n.str() + " by " + std::to_string(d)};
      }
    }
    if (dataDep(a) || dataDep(b)) event("DATA_DIV", true, "operand of a division or remainder depends on data");
    if (bc && b->n.c > 0 && (b->n.c & (b->n.c - 1)) == 0 && !sg) {
      int k = __builtin_ctzll(b->n.c); auto x = bitsOf(a); std::vector<Bit> r(w, 0);
      for (uint32_t i = 0; i < w; i++) r[i] = rem ? ((int)i < k ? x[i] : 0) : (i + k < w ? x[i + k] : 0);
      return mkBits(w, r);
    }
    return opaque(w, rem ? "rem" : "div", {a, b});
  }
  }
  return opaque(w, "op", {a, b});
}

// which input's length an expression over lengths and loop counters follows
std::string whichLen(State &s, const Aff &e) {
  bool in[3] = {false, false, false};
  auto direct = [&](const Aff &x) { for (int i = 0; i < 3; i++) if (x.has(V_LA + i) || x.has(V_QA + i)) in[i] = true; };
  direct(e);
  for (int t = V_T0; t < V_BAD; t++) if (e.has(t)) for (auto &c : s.cons) if (c.has(t)) direct(c);
  std::string r; const char *n[] = {"ad", "m", "in"};
  for (int i = 0; i < 3; i++) if (in[i]) r += std::string(r.empty() ? "" : ",") + n[i];
  return " (length of: " + (r.empty() ? "?" : r) + ")";
}
VP Interp::castTo(State &s, unsigned opc, const VP &a, Type *from, Type *to) {
  if (to->isPointerTy()) {
    if (a->k == Val::PTR) return a;
    if (a->num && a->n.isConst() && a->n.c == 0) return mkPtr(-1, Aff(0));
    return mkPtrUnknown(-2, bitsOf(a));
  }
  if (from->isPointerTy() && !to->isPointerTy()) { if (opc == Instruction::PtrToInt) return a; return mkBits(DL.getTypeSizeInBits(to), bitsOf(a)); }
  uint32_t tw = DL.getTypeSizeInBits(to), fw = DL.getTypeSizeInBits(from);
  if (opc == Instruction::BitCast) {
    if (a->num && from->isIntegerTy() && to->isIntegerTy()) return a;
    return mkBits(tw, bitsOf(a));
  }
  if (to->isVectorTy()) {
    uint32_t te = DL.getTypeSizeInBits(to->getScalarType()), fe = DL.getTypeSizeInBits(from->getScalarType());
    auto x = bitsOf(a); std::vector<Bit> r;
    for (uint32_t e = 0; e * fe < fw; e++) for (uint32_t i = 0; i < te; i++) r.push_back(i < fe ? x[e * fe + i] : (opc == Instruction::SExt ? x[e * fe + fe - 1] : 0));
    return mkBits(tw, r);
  }
  if (a->k == Val::PTR) return a;
  switch (opc) {
  case Instruction::Trunc:
    if (a->num) return mkNum(tw, a->n);
    { auto x = bitsOf(a); x.resize(tw);
      VP r = mkBits(tw, x);
      if (a->hasInd && (int64_t)a->inds.size() + std::abs(a->indc) < ((int64_t)1 << std::min(tw, 40u))) { auto v = std::make_shared<Val>(*r); if (!v->num) { v->hasInd = true; v->inds = a->inds; v->indc = a->indc; } return v; }
      return r; }
  case Instruction::ZExt:
  case Instruction::SExt: {
    bool sg = opc == Instruction::SExt;
    if (a->num) {
      if (a->n.isConst()) { int64_t c = a->n.c; if (!sg && fw < 64) c &= ((int64_t)1 << fw) - 1; return mkNum(tw, Aff(c)); }
      Aff v;
      int which; if (needSplit(s, a->n, which) ) { if (!inRange(s, a, sg, v)) throw SplitNeeded{which}; return mkNum(tw, v); }
      if (inRange(s, a, sg, v)) return mkNum(tw, v);
      event("TRUNC", true, "length or counter " + a->n.str() + " does not fit its " + std::to_string(fw) + "-bit type for every input length" + whichLen(s, a->n));
      return mkNum(tw, a->n);
    }
    auto x = bitsOf(a);
    Bit top = sg ? x[fw - 1] : 0;
    std::vector<Bit> r = x; r.resize(tw, top);
    VP rv = mkBits(tw, r);
    if (fw == 1 && !rv->num) { auto v = std::make_shared<Val>(*rv); v->hasInd = !sg; v->inds = {x[0]}; v->indc = 0; return v; }
    if (a->hasInd && !rv->num) { auto v = std::make_shared<Val>(*rv); v->hasInd = true; v->inds = a->inds; v->indc = a->indc; return v; }
    return rv;
  }
  }
  return opaque(tw, "cast", {a});
}

// value interpreted as signed/unsigned integer of its width
bool Interp::inRange(State &s, const VP &v, bool sgn, Aff &out) {
  Aff a = v->n; uint32_t w = v->w;
  if (a.isConst()) { int64_t c = sext64(a.c, w); if (!sgn && c < 0 && w < 64) c += (int64_t)1 << w; if (!sgn && c < 0 && w == 64) { return false; } out = Aff(c); return true; }
  if (sgn) {
    int64_t hi = w >= 64 ? (int64_t)1 << 61 : ((int64_t)1 << (w - 1)) - 1;
    int64_t lo = -hi;
    if (proveGE0(s.cons, a - Aff(lo)) && proveGE0(s.cons, Aff(hi) - a)) { out = a; return true; }
    return false;
  }
  if (w >= 64) { if (proveGE0(s.cons, a) && proveGE0(s.cons, Aff((int64_t)1 << 61) - a)) { out = a; return true; } return false; }
  int64_t hi = ((int64_t)1 << w) - 1;
  if (proveGE0(s.cons, a) && proveGE0(s.cons, Aff(hi) - a)) { out = a; return true; }
  Aff b = a + Aff(hi + 1);
  if (proveGE0(s.cons, b) && proveGE0(s.cons, Aff(hi) - b)) { out = b; return true; }
  return false;
}
bool Interp::needSplit(State &s, const Aff &e, int &which) {
  for (int v : {V_LA, V_LM, V_LN}) if (e.has(v)) { which = v; return true; }
  return false;
}
