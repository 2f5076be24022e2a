// Memory model: local objects with per-bit contents, caller buffers with symbolic lengths.
#include "interp.h"

std::string Interp::loc(const Instruction *I) {
  if (!asmLoc.empty()) return asmLoc;
  if (!I) return "?";
  if (DILocation *d = I->getDebugLoc()) {
    const DILocation *o = d;
    std::string f = o->getFilename().str();
    size_t p = f.find("/repo/"); if (p != std::string::npos) f = f.substr(p + 6);
    return f + ":" + std::to_string(o->getLine());
  }
  for (const Instruction *p = I; p; p = p->getPrevNode()) if (p != I && p->getDebugLoc()) return loc(p);
  for (const Instruction *p = I->getNextNode(); p; p = p->getNextNode()) if (p->getDebugLoc()) return loc(p);
  return I->getFunction()->getName().str();
}
void Interp::event(const char *kind, bool definite, const std::string &detail) {
  bool stop = gcfg.shortLen >= 0 && (!strcmp(kind, "OOB") || !strcmp(kind, "RELEASE") || !strcmp(kind, "DANGLING"));
  if (muted && !stop) return;
  std::string fn = !asmFn.empty() ? asmFn : curI ? curI->getFunction()->getName().str() : "?";
  std::string l = loc(curI);
  std::string key = std::string(kind) + "|" + fn + "|" + l;
  if (!strcmp(kind, "TRUNC")) { size_t p = detail.rfind(" (length of"); if (p != std::string::npos) key += detail.substr(p); }
  auto it = eventIdx.find(key);
  if (it != eventIdx.end()) { events[it->second].count++; events[it->second].definite |= definite; return; }
  eventIdx[key] = events.size();
  events.push_back({kind, fn, l, detail, definite, 1, gcfg.root});
  eventWitness(events.back());
  if (getenv("ISAPSA_TRACE")) fprintf(stderr, "EVENT %s %s %s: %s\n", kind, fn.c_str(), l.c_str(), detail.c_str());
  if (stop) throw StopRoot{};
}
// smallest input lengths that take the current path (with evCons), by constraint queries only
void Interp::eventWitness(Event &e) {
  const State *cS = curRaw ? curRaw : curS.get();
  if (!cS) return;
  Cons cs = cS->cons; for (auto &x : evCons) cs.push_back(x);
  auto low = [&](const Aff &len) -> int {
    if (len.isConst()) return (int)std::min<int64_t>(len.c, 1 << 20);
    auto can = [&](int64_t hi) { Aff x = Aff(hi) - len; return !infeasible(cs, &x, 1); };
    if (!can(4096)) return -1;
    int64_t lo = 0, hi = 4096;
    while (lo < hi) { int64_t mid = (lo + hi) / 2; if (can(mid)) hi = mid; else lo = mid + 1; }
    int64_t g = 0; for (int i = 0; i < len.n; i++) g = std::__gcd(g, std::abs(len.t[i].second));
    if (g > 1) while ((lo - len.c) % g) lo++;
    return (int)lo;
  };
  const Aff &a = gcfg.hash ? cS->lenN : cS->lenA;
  e.wa = low(a);
  if (gcfg.hash) { e.wm = -2; return; }
  if (e.wa >= 0 && !a.isConst()) { cs.push_back(a - Aff(e.wa)); cs.push_back(Aff(e.wa) - a); }
  e.wm = low(cS->lenM);
}
int Interp::instOf(const std::vector<std::string> &cs) {
  auto it = instIds.find(cs);
  if (it != instIds.end()) return it->second;
  int id = instTab.size(); instTab.push_back(cs); instIds[cs] = id; return id;
}

int Interp::newObj(State &s, const ObjDesc &d, bool uninit) {
  // objects are identified by their call string and declaration, so that paths agree on their identity
  auto key = std::make_tuple(d.origin, d.role, d.size, d.site);
  auto it = objIdx.find(key);
  if (it != objIdx.end()) {
    int i = it->second;
    if (d.role == R_LOCAL) {
      OSP &t = fresh[{i, uninit}];
      if (!t) {
        t = std::make_shared<ObjState>();
        int dm = internDM({{internKey(B_UNINIT, K_BLOCK, Aff((int64_t)i), 0, 0), internAff(Aff(0))}});
        for (int64_t b = 0; b < d.size * 8; b++) t->bits.push_back(uninit ? opaqueBit(0x554E494E, hmix(hstr(d.name + d.site), b), dm, 0) : 0);
      }
      s.mem[i] = std::make_shared<ObjState>(*t);
    }
    return i;
  }
  objIdx[key] = objs.size();
  objs.push_back(d);
  int id = objs.size() - 1;
  if (d.role == R_LOCAL) return newObj(s, d, uninit);
  return id;
}
static void constBits(const DataLayout &DL, const Constant *c, std::vector<Bit> &out, uint64_t byteOff, bool &ok) {
  Type *T = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { for (unsigned i = 0; i < ci->getBitWidth(); i++) out[byteOff * 8 + i] = ci->getValue()[i]; return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL.getTypeStoreSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) constBits(DL, cd->getElementAsConstant(i), out, byteOff + i * es, ok);
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      uint64_t o;
      if (auto *st = dyn_cast<StructType>(T)) o = DL.getStructLayout(st)->getElementOffset(i);
      else if (auto *at = dyn_cast<ArrayType>(T)) o = i * DL.getTypeAllocSize(at->getElementType());
      else o = i * DL.getTypeStoreSize(cast<VectorType>(T)->getElementType());
      constBits(DL, ca->getOperand(i), out, byteOff + o, ok);
    }
    return;
  }
  ok = false;
}
int Interp::globalObj(State &s, const GlobalVariable *G) {
  int id;
  auto it = gobj.find(G);
  if (it == gobj.end()) {
    ObjDesc d; d.name = G->getName().str(); d.role = G->isConstant() ? R_CONST : R_GLOBAL;
    d.size = DL.getTypeAllocSize(G->getValueType()); d.origin = G; d.isStatic = true;
    objs.push_back(d); id = objs.size() - 1; gobj[G] = id;
  } else id = it->second;
  if (!s.mem.count(id)) {
    auto o = std::make_shared<ObjState>();
    o->bits.assign(objs[id].size * 8, 0);
    if (G->hasInitializer()) {
      bool ok = true;
      constBits(DL, G->getInitializer(), o->bits, 0, ok);
      if (!ok) {
        // tables of pointers
        if (auto *ca = dyn_cast<ConstantAggregate>(G->getInitializer()))
          for (unsigned i = 0; i < ca->getNumOperands(); i++) if (ca->getOperand(i)->getType()->isPointerTy()) o->slots[i * gcfg.ptrBits / 8] = constVal(s, ca->getOperand(i));
      }
    }
    if (objs[id].role == R_GLOBAL && !(G->hasInitializer() && globalNeverWritten(G))) {
      int dm = internDM({{internKey(B_MISC, K_BLOCK, Aff(id), 0, 0), internAff(Aff(0))}});
      for (size_t b = 0; b < o->bits.size(); b++) o->bits[b] = opaqueBit(0x474C4F42, hmix(hstr(objs[id].name), b), dm, 0);
    }
    s.mem[id] = o;
  }
  return id;
}
// A non-const object of internal or external linkage that no instruction in the program stores to or lets escape.
bool Interp::globalNeverWritten(const GlobalVariable *G) {
  std::vector<const Value *> work{G}; std::set<const Value *> seen;
  while (!work.empty()) {
    const Value *v = work.back(); work.pop_back();
    if (!seen.insert(v).second) continue;
    for (const User *u : v->users()) {
      if (isa<GetElementPtrInst>(u) || isa<ConstantExpr>(u) || isa<BitCastInst>(u)) work.push_back(u);
      else if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
      else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawDest() == v) return false; }
      else return false;
    }
  }
  return true;
}
Aff Interp::extent(State &s, int role) {
  switch (role) {
  case R_K: case R_N: return Aff(16);
  case R_AD: return s.lenA;
  case R_M: return s.lenM;
  case R_C: return gcfg.shortLen >= 0 ? Aff(gcfg.shortLen) : s.lenM + Aff(16);
  case R_IN: return s.lenN;
  case R_OUT: return Aff(32);
  case R_LENP: return Aff(8);
  default: return Aff(0);
  }
}
bool Interp::sizeOfObj(State &s, int o, Aff &sz) {
  if (o < 0) return false;
  if (objs[o].role == R_LOCAL || objs[o].role == R_CONST || objs[o].role == R_GLOBAL) { sz = Aff(objs[o].size); return true; }
  sz = extent(s, objs[o].role);
  return true;
}
// Try to exhibit integers satisfying the constraints and e < 0 (so that an unproved bound is a real violation).
bool Interp::witness(const Cons &cs, const Aff &e, std::string &w) {
  uint32_t used = e.vars();
  for (auto &c : cs) used |= c.vars();
  std::vector<int> vs; for (int v = 0; v < V_NUM; v++) if (used >> v & 1) vs.push_back(v);
  if (vs.size() > 6) return false;
  std::vector<int64_t> val(V_NUM, 0);
  int64_t lim = vs.size() <= 2 ? 40 : vs.size() <= 4 ? 12 : 5;
  auto ev = [&](const Aff &a) { int64_t x = a.c; for (int i = 0; i < a.n; i++) x += a.t[i].second * val[a.t[i].first]; return x; };
  std::function<bool(size_t)> rec = [&](size_t i) -> bool {
    if (i == vs.size()) { for (auto &c : cs) if (ev(c) < 0) return false; return ev(e) < 0; }
    for (int64_t x = 0; x <= lim; x++) { val[vs[i]] = x; if (rec(i + 1)) return true; }
    return false;
  };
  if (!rec(0)) return false;
  w.clear();
  for (int v : vs) w += std::string(w.empty() ? "" : ", ") + varName(v) + "=" + std::to_string(val[v]);
  return true;
}
bool Interp::checkBounds(State &s, const VP &p, const Aff &off, uint64_t n, bool write) {
  if (!asmLoc.empty() || !curI) accessSites.insert((curI ? curI->getFunction()->getName().str() : asmFn) + ":" + loc(curI));
  else if (accessInsts.insert(curI).second) accessSites.insert(curI->getFunction()->getName().str() + ":" + loc(curI));
  nAcc++;
  const char *what = write ? "write" : "read";
  if (p->obj < 0) { event("OOB", true, std::string(what) + (p->obj == -1 ? " through a null pointer" : " through a pointer of unknown origin")); return false; }
  Aff sz; sizeOfObj(s, p->obj, sz);
  Aff hi = sz - off - Aff((int64_t)n);
  if (proveGE0(s.cons, off) && proveGE0(s.cons, hi)) return true;
  int which;
  if (needSplit(s, off, which) || needSplit(s, hi, which)) throw SplitNeeded{which};
  Aff bad = proveGE0(s.cons, off) ? hi : off;
  std::string w;
  std::string d = std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " + off.str() + " of " + objs[p->obj].name + " (size " + sz.str() + ")";
  evCons = {-bad - Aff(1)}; struct Clr { Cons &c; ~Clr() { c.clear(); } } clr{evCons};
  if (bad.isConst() || witness(s.cons, bad, w)) { event("OOB", true, d + (w.empty() ? "" : ", e.g. for " + w)); return false; }
  throw Undecided{"cannot bound " + d};
}
void Interp::addIv(State &s, Ivs &iv, const Aff &off, int64_t n, bool &overlap) {
  Aff lo = off, hi = off + Aff(n);
  overlap = false;
  for (auto &p : iv) if (proveGE0(s.cons, lo - p.first) && proveGE0(s.cons, p.second - hi)) { overlap = true; return; }
  bool done = false;
  for (auto &p : iv) {
    if (proveGE0(s.cons, lo - p.first) && proveGE0(s.cons, p.second - lo)) { if (!proveEQ0(s.cons, p.second - lo)) overlap = true; p.second = hi; done = true; break; }
    if (proveGE0(s.cons, p.second - hi) && proveGE0(s.cons, hi - p.first)) { if (!proveEQ0(s.cons, hi - p.first)) overlap = true; p.first = lo; done = true; break; }
  }
  if (!done) { iv.push_back({lo, hi}); std::sort(iv.begin(), iv.end()); }
  for (size_t i = 0; i < iv.size(); i++) for (size_t j = 0; j < iv.size(); j++) if (i != j && proveGE0(s.cons, iv[i].second - iv[j].first) && proveGE0(s.cons, iv[j].first - iv[i].first)) {
    if (proveGE0(s.cons, iv[j].second - iv[i].second)) iv[i].second = iv[j].second;
    else if (!proveGE0(s.cons, iv[i].second - iv[j].second)) continue;
    iv.erase(iv.begin() + j); i = j = 0; if (iv.size() < 2) return;
  }
  if (iv.size() > 40) throw Undecided{"too many disjoint access intervals on a buffer"};
}
void Interp::noteRead(State &s, int buf, const Aff &off, int64_t n) {
  if (buf != B_AD && buf != B_C && buf != B_IN) return;
  bool ov; addIv(s, s.rd[buf], off, n, ov);
}
// Caller buffers have no known alignment: an access that assumes one is not portable.
void Interp::checkAlign(const VP &p, unsigned align) {
  if (p->obj < 0 || !p->num) return;
  int r = objs[p->obj].role;
  if (r != R_K && r != R_N && r != R_AD && r != R_M && r != R_C && r != R_IN && r != R_OUT) return;
  stats["caller_accesses"]++;
  if (!align) { if (auto *L = dyn_cast_or_null<LoadInst>(curI)) align = L->getAlign().value(); else if (auto *S = dyn_cast_or_null<StoreInst>(curI)) align = S->getAlign().value(); }
  if (align > 1) event("ALIGN", true, "accesses " + objs[p->obj].name + " assuming an alignment of " + std::to_string(align));
}
static int roleBuf(int role) { switch (role) { case R_K: return B_K; case R_N: return B_N; case R_AD: return B_AD; case R_M: return B_M; case R_C: return B_C; case R_IN: return B_IN; default: return B_MISC; } }

// load of `bits` bits
VP Interp::load(State &s, const VP &p, uint32_t bits, bool wantPtr, bool &dead, unsigned align) {
  uint64_t n = (bits + 7) / 8;
  if (!p->num) {
    if (dataDepBits(p->b)) event("DATA_ADDR", true, "address of a load from " + (p->obj >= 0 ? objs[p->obj].name : std::string("unknown object")) + " depends on data");
    else throw Undecided{"load address not understood"};
    return opaque(bits, "tblload", {p});
  }
  checkAlign(p, align);
  if (p->obj >= 0 && objs[p->obj].role == R_GLOBAL && !globalNeverWritten((const GlobalVariable *)objs[p->obj].origin)) event("GLOBAL_READ", true, "reads the mutable static object '" + objs[p->obj].name + "'");
  if (!checkBounds(s, p, p->n, n, false)) {
    if (wantPtr) return mkPtrUnknown(-2, {});
    int dm = internDM({{internKey(B_UNINIT, K_BLOCK, Aff(-1), 0, 0), internAff(Aff(0))}});
    std::vector<Bit> r(bits);
    // bytes inside the object keep their provenance, the others are unknown
    int role = p->obj >= 0 ? objs[p->obj].role : -1;
    bool stream = role == R_AD || role == R_M || role == R_C || role == R_IN;
    Aff sz; if (p->obj >= 0) sizeOfObj(s, p->obj, sz);
    for (uint32_t i = 0; i < bits; i++) {
      Aff o = p->n + Aff(i / 8);
      if (stream && proveGE0(s.cons, o) && proveGE0(s.cons, sz - o - Aff(1))) r[i] = srcBit(roleBuf(role), o, i % 8, 0);
      else r[i] = opaqueBit(0x4F4F42, hmix(p->n.hash(), i), dm, p->n.vars());
    }
    return mkBits(bits, r);
  }
  ObjDesc &d = objs[p->obj];
  Aff off = p->n;
  switch (d.role) {
  case R_LOCAL: case R_CONST: case R_GLOBAL: {
    if (!off.isConst()) { int which; if (needSplit(s, off, which)) throw SplitNeeded{which}; 
      Aff fix; if (pinValue(s, off, fix)) off = fix; else throw Undecided{"load at symbolic offset " + off.str() + " of local object " + d.name}; }
    if (d.role == R_GLOBAL || d.role == R_CONST) globalObj(s, (const GlobalVariable *)d.origin);
    auto it = s.mem.find(p->obj);
    if (it == s.mem.end()) { event("DANGLING", true, "access to a local object outside its lifetime: " + d.name); dead = true; return mkNum(bits, Aff(0)); }
    auto &o = *it->second;
    auto sl = o.slots.find((int)off.c);
    if (sl != o.slots.end()) {
      if (sl->second->k == Val::PTR && bits == sl->second->w) return sl->second;
      if (sl->second->k == Val::INT && sl->second->w == bits) return sl->second;
      if (sl->second->k == Val::INT && sl->second->w > bits && sl->second->num) return mkNum(bits, sl->second->n);
    }
    if (wantPtr) return mkPtrUnknown(-2, {});
    std::vector<Bit> r(o.bits.begin() + off.c * 8, o.bits.begin() + off.c * 8 + bits);
    return mkBits(bits, std::move(r));
  }
  case R_K: case R_N: {
    if (!off.isConst()) { Aff fix; if (pinValue(s, off, fix)) off = fix; else throw Undecided{"symbolic offset into the key or nonce"}; }
    std::vector<Bit> r(bits);
    for (uint32_t i = 0; i < bits; i++) r[i] = srcBit(roleBuf(d.role), off + Aff(i / 8), i % 8, s.frames.back().inst);
    return mkBits(bits, std::move(r));
  }
  case R_AD: case R_M: case R_C: case R_IN: {
    int b = roleBuf(d.role);
    if (d.role == R_C && gcfg.encrypt) {
      bool in = false;
      for (auto &w : s.wr[B_C]) if (proveGE0(s.cons, off - w.first) && proveGE0(s.cons, w.second - off - Aff((int64_t)n))) in = true;
      if (!in) {
        int which; if (needSplit(s, off, which)) throw SplitNeeded{which};
        event("C_UNWRITTEN", true, "reads ciphertext byte(s) at offset " + off.str() + " before they have been written");
      }
    }
    if (d.role == R_M && gcfg.decrypt) {
      bool in = false;
      for (auto &w : s.wr[B_M]) if (proveGE0(s.cons, off - w.first) && proveGE0(s.cons, w.second - off - Aff((int64_t)n))) in = true;
      if (!in) event("M_UNWRITTEN", true, "reads plaintext output byte(s) before they have been written");
    }
    // the output of the call may be the buffer that is read
    if ((d.role == R_M && gcfg.encrypt) || (d.role == R_C && gcfg.decrypt)) {
      stats["inplace_reads"]++;
      for (auto &w : s.wr[gcfg.encrypt ? B_C : B_M]) if (!proveGE0(s.cons, off - w.second) && !proveGE0(s.cons, w.first - off - Aff((int64_t)n))) {
        int which; if (needSplit(s, off, which)) throw SplitNeeded{which};
        event("INPLACE", true, std::string("reads ") + (gcfg.encrypt ? "message" : "ciphertext") + " byte(s) at offset " + off.str() + " after output was written to the same positions [" + w.first.str() + "," + w.second.str() + ")");
        break;
      }
    }
    if (d.role == R_IN) {
      stats["inplace_reads"]++;
      // the digest may replace the message: after the first output byte no message byte is needed any more
      if (!s.wrOut.empty()) event("INPLACE", true, "reads message byte(s) at offset " + off.str() + " after part of the digest was written");
    }
    noteRead(s, b, off, n);
    if (b == B_IN && !off.isConst()) { Aff fix; if (pinValue(s, off, fix)) off = fix; }
    std::vector<Bit> r(bits);
    for (uint32_t i = 0; i < bits; i++) r[i] = srcBit(b, off + Aff(i / 8), i % 8, 0);
    return mkBits(bits, std::move(r));
  }
  case R_LENP: {
    auto it = s.mem.find(p->obj);
    if (it == s.mem.end() || !off.isConst()) { event("LENP_READ", true, "reads the length output before it has been written"); return opaque(bits, "lenp", {}); }
    auto sl = it->second->slots.find((int)off.c);
    if (sl != it->second->slots.end() && sl->second->w == bits) return sl->second;
    if (sl != it->second->slots.end() && sl->second->num && bits < sl->second->w) return mkNum(bits, sl->second->n);
    return mkBits(bits, std::vector<Bit>(it->second->bits.begin() + off.c * 8, it->second->bits.begin() + off.c * 8 + bits));
  }
  default:
    event("OUT_READ", true, "reads from " + d.name);
    return opaque(bits, "outread", {});
  }
}
void Interp::store(State &s, const VP &p, const VP &v, bool &dead, unsigned align) {
  uint32_t bits = v->w; uint64_t n = (bits + 7) / 8;
  if (!p->num) {
    if (dataDepBits(p->b)) event("DATA_ADDR", true, "address of a store depends on data");
    else throw Undecided{"store address not understood"};
    if (p->obj >= 0 && s.mem.count(p->obj)) {
      auto o = std::make_shared<ObjState>(*s.mem[p->obj]);
      VP all = mkBits(o->bits.size(), o->bits);
      o->bits = bitsOf(opaque(o->bits.size(), "tblstore", {all, p, v})); o->slots.clear();
      s.mem[p->obj] = o;
    }
    return;
  }
  checkAlign(p, align);
  if (p->obj >= 0 && objs[p->obj].role == R_CONST) { event("CONST_WRITE", true, "writes to the constant object '" + objs[p->obj].name + "'"); return; }
  if (p->obj >= 0 && objs[p->obj].role == R_GLOBAL) event("GLOBAL_WRITE", true, "writes the mutable static object '" + objs[p->obj].name + "'");
  if (!checkBounds(s, p, p->n, n, true)) return;
  ObjDesc &d = objs[p->obj];
  Aff off = p->n;
  switch (d.role) {
  case R_LOCAL: case R_GLOBAL: case R_LENP: {
    if (!off.isConst()) { int which; if (needSplit(s, off, which)) throw SplitNeeded{which}; 
      Aff fix; if (pinValue(s, off, fix)) off = fix; else throw Undecided{"store at symbolic offset " + off.str() + " of local object " + d.name}; }
    if (d.role == R_GLOBAL) globalObj(s, (const GlobalVariable *)d.origin);
    auto it = s.mem.find(p->obj);
    std::shared_ptr<ObjState> o;
    if (it == s.mem.end()) {
      if (d.role != R_LENP) { event("DANGLING", true, "access to a local object outside its lifetime: " + d.name); dead = true; return; }
      o = std::make_shared<ObjState>(); o->bits.assign(64, 0);
    } else if (it->second.use_count() == 1) o = std::const_pointer_cast<ObjState>(it->second);
    else o = std::make_shared<ObjState>(*it->second);
    int lo = off.c, hi = off.c + n;
    for (auto q = o->slots.begin(); q != o->slots.end();) {
      int ql = q->first, qh = q->first + (q->second->w + 7) / 8;
      if (ql < hi && lo < qh) q = o->slots.erase(q); else ++q;
    }
    if (v->k == Val::AGG) { std::vector<Bit> x = bitsOf(v); std::copy(x.begin(), x.end(), o->bits.begin() + lo * 8); }
    else {
      auto x = bitsOf(v); x.resize(n * 8, 0);
      std::copy(x.begin(), x.end(), o->bits.begin() + lo * 8);
      if (v->k == Val::PTR || (v->num && !v->n.isConst()) || v->hasInd) o->slots[lo] = v;
      else if (v->num && d.role == R_LENP) o->slots[lo] = v;
    }
    s.mem[p->obj] = o;
    return;
  }
  case R_C: {
    if (!gcfg.encrypt) { event("INPUT_WRITE", true, "writes to the received ciphertext"); return; }
    bool ov;
    for (auto &r : s.rd[B_C]) if (!proveGE0(s.cons, off - r.second) && !proveGE0(s.cons, r.first - off - Aff((int64_t)n))) {
      event("C_AFTER_READ", true, "writes ciphertext byte(s) at offset " + off.str() + " after they have been read (absorbed range [" + r.first.str() + "," + r.second.str() + "))");
      break;
    }
    auto x = bitsOf(v);
    Aff rel = off - s.lenM;
    for (uint64_t j = 0; j < n; j++) outByte(s, R_C, off + Aff((int64_t)j), &x[j * 8]);
    addIv(s, s.wr[B_C], off, n, ov);
    return;
  }
  case R_M: {
    if (!gcfg.decrypt) { event("INPUT_WRITE", true, "writes to the message input"); return; }
    s.wroteM = true;
    std::string why;
    stats["m_writes"]++;
    if (gcfg.shortLen >= 0) event("RELEASE", true, "writes to the plaintext buffer for a ciphertext of " + std::to_string(gcfg.shortLen) + " bytes");
    else if (!verified(s, why)) event("RELEASE", true, "writes to the plaintext buffer although the tag is not verified on this path: " + why);
    auto x = bitsOf(v);
    for (uint64_t j = 0; j < n; j++) outByte(s, R_M, off + Aff((int64_t)j), &x[j * 8]);
    bool ov; addIv(s, s.wr[B_M], off, n, ov);
    return;
  }
  case R_OUT: {
    auto x = bitsOf(v);
    for (uint64_t j = 0; j < n; j++) outByte(s, R_OUT, off + Aff((int64_t)j), &x[j * 8]);
    bool ov; addIv(s, s.wrOut, off, n, ov);
    return;
  }
  default: event("INPUT_WRITE", true, "writes to the input buffer " + d.name); return;
  }
}
// An expression that the constraints force to a single constant.
bool Interp::pinValue(State &s, const Aff &e, Aff &out) {
  if (e.isConst()) { out = e; return true; }
  for (int64_t k = 0; k < 64; k++) if (proveEQ0(s.cons, e - Aff(k))) { out = Aff(k); return true; }
  return false;
}
bool Interp::dataDepBits(const std::vector<Bit> &v) { for (Bit b : v) if (dataDepBit(b)) return true; return false; }

VP Interp::loadTyped(State &s, const VP &p, Type *T, bool &dead) {
  if (T->isStructTy() || T->isArrayTy()) {
    auto v = std::make_shared<Val>(); v->k = Val::AGG; v->w = DL.getTypeSizeInBits(T);
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      uint64_t o = T->isStructTy() ? DL.getStructLayout(cast<StructType>(T))->getElementOffset(i).getFixedValue() : i * DL.getTypeAllocSize(T->getArrayElementType()).getFixedValue();
      Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
      v->el.push_back(loadTyped(s, mkPtr(p->obj, p->n + Aff((int64_t)o)), ET, dead));
    }
    return v;
  }
  return load(s, p, DL.getTypeSizeInBits(T), T->isPointerTy(), dead);
}
void Interp::storeTyped(State &s, const VP &p, const VP &v, Type *T, bool &dead) {
  if (v->k == Val::AGG) {
    for (unsigned i = 0; i < v->el.size(); i++) {
      uint64_t o = T->isStructTy() ? DL.getStructLayout(cast<StructType>(T))->getElementOffset(i).getFixedValue() : i * DL.getTypeAllocSize(T->getArrayElementType()).getFixedValue();
      Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
      storeTyped(s, mkPtr(p->obj, p->n + Aff((int64_t)o)), v->el[i], ET, dead);
    }
    return;
  }
  store(s, p, v, dead);
}
void Interp::copyMem(State &s, const VP &d, const VP &src, int64_t n, bool &dead) {
  // word by word where slots may live, byte by byte otherwise
  if (!d->num || !src->num) { if (dataDepBits(d->b) || dataDepBits(src->b)) event("DATA_ADDR", true, "address of a block copy depends on data"); else throw Undecided{"block copy address not understood"}; return; }
  std::vector<std::pair<int64_t, VP>> parts;
  int64_t i = 0;
  while (i < n) {
    int64_t step = 1;
    if (src->obj >= 0 && s.mem.count(src->obj) && src->n.isConst()) {
      auto &sl = s.mem[src->obj]->slots; auto it = sl.find(src->n.c + i);
      if (it != sl.end() && i + (int64_t)it->second->w / 8 <= n) step = it->second->w / 8;
    }
    VP v = load(s, mkPtr(src->obj, src->n + Aff(i)), step * 8, false, dead);
    parts.push_back({i, v});
    i += step;
  }
  for (auto &q : parts) store(s, mkPtr(d->obj, d->n + Aff(q.first)), q.second, dead);
}
