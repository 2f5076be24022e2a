// Instruction semantics, length predicates, path facts, calls.
#include "interp.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"

FnInfo *Interp::info(Function *F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second.get();
  auto fi = std::make_unique<FnInfo>();
  fi->F = F;
  fi->DT.recalculate(*F);
  fi->LI.analyze(fi->DT);
  int n = 0;
  for (auto &a : F->args()) fi->id[&a] = n++;
  for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) fi->id[&I] = n++;
  fi->n = n;
  ReversePostOrderTraversal<Function *> R(F);
  for (BasicBlock *b : R) { fi->rpoIdx[b] = fi->rpo.size(); fi->rpo.push_back(b); }
  for (BasicBlock *b : fi->rpo) { fi->liveIn[b].assign(n, false); fi->liveOut[b].assign(n, false); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto r = fi->rpo.rbegin(); r != fi->rpo.rend(); ++r) {
      BasicBlock *b = *r;
      std::vector<bool> L(n, false);
      for (BasicBlock *sc : successors(b)) {
        auto &li = fi->liveIn[sc];
        for (int i = 0; i < n; i++) if (li[i]) L[i] = true;
        for (auto &phi : sc->phis()) { Value *v = phi.getIncomingValueForBlock(b); auto q = fi->id.find(v); if (q != fi->id.end()) L[q->second] = true; }
      }
      if (L != fi->liveOut[b]) { fi->liveOut[b] = L; ch = true; }
      for (auto ri = b->rbegin(); ri != b->rend(); ++ri) {
        auto q = fi->id.find(&*ri); if (q != fi->id.end()) L[q->second] = false;
        if (isa<PHINode>(*ri)) continue;
        for (Value *v : ri->operands()) { auto o = fi->id.find(v); if (o != fi->id.end()) L[o->second] = true; }
      }
      if (L != fi->liveIn[b]) { fi->liveIn[b] = L; ch = true; }
    }
  }
  // values that never leave their block share slots above the others, so that a state carries live values only
  std::vector<bool> glob(n, false);
  for (auto &a : F->args()) glob[fi->id[&a]] = true;
  for (auto &bb : *F) for (auto &phi : bb.phis()) glob[fi->id[&phi]] = true;
  for (BasicBlock *b : fi->rpo) for (int i = 0; i < n; i++) if (fi->liveIn[b][i] || fi->liveOut[b][i]) glob[i] = true;
  std::vector<int> nid(n, -1); int ng = 0;
  for (int i = 0; i < n; i++) if (glob[i]) nid[i] = ng++;
  for (BasicBlock *b : fi->rpo) for (auto *L : {&fi->liveIn[b], &fi->liveOut[b]}) { std::vector<bool> N(ng, false); for (int i = 0; i < n; i++) if ((*L)[i]) N[nid[i]] = true; *L = N; }
  for (auto &bb : *F) { int k = 0; for (auto &I : bb) { auto q = fi->id.find(&I); if (q != fi->id.end() && !glob[q->second]) nid[q->second] = ng + k++; } fi->nloc[&bb] = k; }
  for (auto &e : fi->id) e.second = nid[e.second];
  fi->n = ng;
  FnInfo *p = fi.get();
  fns[F] = std::move(fi);
  return p;
}
static const std::vector<bool> &liveAfterInst(FnInfo *fi, const Instruction *I) {
  auto it = fi->liveAfter.find(I);
  if (it != fi->liveAfter.end()) return it->second;
  std::vector<bool> L = fi->liveOut[const_cast<BasicBlock *>(I->getParent())];
  L.resize(fi->n + fi->nloc[I->getParent()], false);
  for (auto ri = I->getParent()->rbegin(); &*ri != I; ++ri) {
    auto q = fi->id.find(&*ri); if (q != fi->id.end()) L[q->second] = false;
    if (isa<PHINode>(*ri)) continue;
    for (const Value *v : ri->operands()) { auto o = fi->id.find(v); if (o != fi->id.end()) L[o->second] = true; }
  }
  auto q = fi->id.find(I); if (q != fi->id.end()) L[q->second] = false;
  return fi->liveAfter[I] = L;
}

VP Interp::constVal(State &s, const Constant *c) {
  Type *T = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return mkNum(ci->getBitWidth(), Aff(ci->getSExtValue()));
    std::vector<Bit> b; for (unsigned i = 0; i < ci->getBitWidth(); i++) b.push_back(ci->getValue()[i]); return mkBits(ci->getBitWidth(), b);
  }
  if (isa<ConstantPointerNull>(c)) return mkPtr(-1, Aff(0));
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalObj(s, g), Aff(0));
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) {
    if (T->isPointerTy()) return mkPtrUnknown(-2, {});
    uint32_t w = DL.getTypeSizeInBits(T);
    int dm = internDM({{internKey(B_UNINIT, K_BLOCK, Aff(-2), 0, 0), internAff(Aff(0))}});
    if (T->isStructTy()) { auto v = std::make_shared<Val>(); v->k = Val::AGG; v->w = w; for (unsigned i = 0; i < T->getStructNumElements(); i++) v->el.push_back(constVal(s, UndefValue::get(T->getStructElementType(i)))); return v; }
    if (T->isArrayTy()) { auto v = std::make_shared<Val>(); v->k = Val::AGG; v->w = w; for (unsigned i = 0; i < T->getArrayNumElements(); i++) v->el.push_back(constVal(s, UndefValue::get(T->getArrayElementType()))); return v; }
    std::vector<Bit> b; for (uint32_t i = 0; i < w; i++) b.push_back(opaqueBit(0x554E44, i, dm, 0)); return mkBits(w, b);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(DL.getIndexTypeSizeInBits(T), 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) { VP b = constVal(s, ce->getOperand(0)); return mkPtr(b->obj, b->n + Aff(off.getSExtValue())); }
    }
    if (ce->isCast()) return castTo(s, ce->getOpcode(), constVal(s, ce->getOperand(0)), ce->getOperand(0)->getType(), T);
    if (ce->getNumOperands() == 2) return binop(s, ce->getOpcode(), constVal(s, ce->getOperand(0)), constVal(s, ce->getOperand(1)), DL.getTypeSizeInBits(T), DL.getTypeSizeInBits(T));
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c)) {
    if (T->isStructTy() || T->isArrayTy()) {
      auto v = std::make_shared<Val>(); v->k = Val::AGG; v->w = DL.getTypeSizeInBits(T);
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) v->el.push_back(constVal(s, c->getAggregateElement(i)));
      return v;
    }
    std::vector<Bit> r;
    unsigned n = cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) { auto x = bitsOf(constVal(s, c->getAggregateElement(i))); r.insert(r.end(), x.begin(), x.end()); }
    return mkBits(r.size(), r);
  }
  if (isa<Function>(c)) return mkPtrUnknown(-3, {});
  throw Undecided{"constant expression not supported"};
}
VP Interp::get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(s, c);
  auto &fr = s.frames.back();
  auto it = fr.fi->id.find(v);
  if (it == fr.fi->id.end()) throw Undecided{"unknown value"};
  VP x = (size_t)it->second < fr.env.size() ? fr.env[it->second] : nullptr;
  if (!x) throw Undecided{"value used before definition in " + fr.F->getName().str()};
  return x;
}
void Interp::set(State &s, const Value *v, VP x) { auto &fr = s.frames.back(); fr.env[fr.fi->id[v]] = x; }

// ------------------------------------------------------------------ constraints
bool Interp::refine(State &s, const Aff &g) {
  Aff e = normCons(g);
  if (e.isConst()) return e.c >= 0;
  if (proveGE0(s.cons, e)) return true;
  Aff neg = e;
  if (infeasible(s.cons, &neg, 1)) return false;
  for (size_t i = 0; i < s.cons.size();) {
    Aff d = s.cons[i] - e;
    if (d.isConst() && d.c >= 0) s.cons.erase(s.cons.begin() + i); else i++;
  }
  s.cons.push_back(e);
  return true;
}
// "is this length zero": decided without looking at the residue of the length
static bool zeroTest(State &s, const Aff &e) {
  if (e.n != 1 || e.c > 1 || e.c < -1 || (e.t[0].second != 1 && e.t[0].second != -1)) return false;
  int v = e.t[0].first;
  return v == V_LA || v == V_LM || v == V_LN;
}
void Interp::forkGE0(SP s, const Aff &e, std::vector<std::pair<SP, bool>> &out) {
  if (proveGE0(s->cons, e)) { out.push_back({s, true}); return; }
  Aff n = -e; n.c -= 1;
  if (proveGE0(s->cons, n)) { out.push_back({s, false}); return; }
  int which; bool zt = zeroTest(*s, e);
  if (!lazySplit && !zt && needSplit(*s, e, which)) throw SplitNeeded{which};
  SP t = std::make_shared<State>(*s);
  if (refine(*t, e)) { if (zt) { std::vector<SP> q; resolveLens(t, q); for (auto &z : q) out.push_back({z, true}); } else out.push_back({t, true}); }
  SP f = std::make_shared<State>(*s);
  if (refine(*f, n)) { if (zt) { std::vector<SP> q; resolveLens(f, q); for (auto &z : q) out.push_back({z, false}); } else out.push_back({f, false}); }
}
void Interp::forkEQ0(SP s, const Aff &e, std::vector<std::pair<SP, bool>> &out) {
  Aff p = e; p.c -= 1; Aff m = -e; m.c -= 1;
  bool canP = !infeasible(s->cons, &p, 1), canM = !infeasible(s->cons, &m, 1);
  Aff two[2] = {e, -e};
  bool canZ = !infeasible(s->cons, two, 2);
  // divisibility: e == 0 impossible when the constant is not a multiple of the gcd of the coefficients
  int64_t g = 0; for (int i = 0; i < e.n; i++) g = std::gcd(g, e.t[i].second);
  if (g > 1 && e.c % g) canZ = false;
  if (canZ && !canP && !canM) { out.push_back({s, true}); return; }
  if (!canZ) { out.push_back({s, false}); return; }
  int which; bool zt = zeroTest(*s, e);
  if (!lazySplit && !zt && needSplit(*s, e, which)) throw SplitNeeded{which};
  SP t = std::make_shared<State>(*s);
  if (refine(*t, e) && refine(*t, -e)) { if (zt) { std::vector<SP> q; resolveLens(t, q); for (auto &z : q) out.push_back({z, true}); } else out.push_back({t, true}); }
  if (canP) { SP f = std::make_shared<State>(*s); if (refine(*f, p)) out.push_back({f, false}); }
  if (canM) { SP f = std::make_shared<State>(*s); if (refine(*f, m)) out.push_back({f, false}); }
}
std::vector<SP> Interp::split(SP s, int which) {
  int bi = which - V_LA, q = V_QA + bi, R = gcfg.modR;
  if (bi == 2 && gcfg.hash) R = 8;
  int lo = 0, hi = R - 1;
  if (s->res[bi] == -2) { lo = s->rlo[bi]; hi = s->rhi[bi]; }
  std::vector<SP> r;
  for (int x = lo; x <= hi; x++) {
    if (const char *dbg = getenv("ISAPSA_RES")) if (bi == 0 && x != atoi(dbg)) continue;
    SP t = std::make_shared<State>(*s);
    Aff e = Aff::var(q, R) + Aff(x);
    substAll(*t, which, e);
    t->res[bi] = x;
    if (infeasible(t->cons, nullptr, 0)) continue;
    if (!refine(*t, Aff::var(q))) continue;
    stats["length_splits"]++;
    r.push_back(t);
  }
  return r;
}
static VP substVal(const VP &v, int var, const Aff &e) {
  if (!v) return v;
  bool need = v->n.has(var);
  for (Bit b : v->b) if (formTab[b >> 1].vars >> var & 1) need = true;
  for (auto &x : v->el) if (x) need = true;
  for (Bit b : v->inds) if (formTab[b >> 1].vars >> var & 1) need = true;
  if (!need) return v;
  auto r = std::make_shared<Val>(*v);
  r->n = v->n.subst(var, e);
  if (r->k == Val::INT && r->num && r->n.isConst()) r->n = mkNum(r->w, r->n)->n;
  for (auto &b : r->b) b = substBit(b, var, e);
  for (auto &b : r->inds) b = substBit(b, var, e);
  for (auto &x : r->el) x = substVal(x, var, e);
  return r;
}
void Interp::substAll(State &s, int var, const Aff &e) {
  for (auto &f : s.frames) for (auto &v : f.env) if (v) v = substVal(v, var, e);
  for (auto &m : s.mem) {
    bool need = false;
    for (Bit b : m.second->bits) if (formTab[b >> 1].vars >> var & 1) { need = true; break; }
    if (!need) for (auto &sl : m.second->slots) if (substVal(sl.second, var, e) != sl.second) { need = true; break; }
    if (!need) continue;
    auto o = std::make_shared<ObjState>(*m.second);
    for (auto &b : o->bits) b = substBit(b, var, e);
    for (auto &sl : o->slots) sl.second = substVal(sl.second, var, e);
    m.second = o;
  }
  Cons nc;
  for (auto &c : s.cons) { Aff x = normCons(c.subst(var, e)); if (x.isConst()) { if (x.c < 0) nc.push_back(x); continue; } if (std::find(nc.begin(), nc.end(), x) == nc.end()) nc.push_back(x); }
  s.cons.swap(nc);
  auto siv = [&](Ivs &v) { for (auto &p : v) { p.first = p.first.subst(var, e); p.second = p.second.subst(var, e); } std::sort(v.begin(), v.end()); };
  for (int b = 0; b < B_NUM; b++) { siv(s.rd[b]); siv(s.wr[b]); }
  siv(s.wrOut);
  for (auto &a : s.padlog) a = a.subst(var, e);
  std::sort(s.padlog.begin(), s.padlog.end());
  std::set<Bit> nf; for (Bit b : s.facts) nf.insert(substBit(b, var, e)); s.facts.swap(nf);
  for (auto &i : s.inj) i.second = substBit(i.second, var, e);
  s.lenA = s.lenA.subst(var, e); s.lenM = s.lenM.subst(var, e); s.lenN = s.lenN.subst(var, e);
}

// ------------------------------------------------------------------ path facts
// Assume that a bit is 1; false when that contradicts what is known.
bool Interp::assumeTrue(State &s, Bit b0) {
  std::vector<Bit> work{b0};
  while (!work.empty()) {
    Bit b = work.back(); work.pop_back();
    if (b == 1) continue;
    if (b == 0) return false;
    if (s.facts.count(b)) continue;
    if (s.facts.count(b ^ 1)) return false;
    s.facts.insert(b);
    const Form &f = formTab[b >> 1];
    if (f.l.size() == 1 && leafTab[f.l[0]].kind == L_AND) {
      Leaf L = leafTab[f.l[0]];
      if (!(b & 1)) { work.push_back(L.a); work.push_back(L.b); }
    }
    // unit propagation on known-false conjunctions
    std::vector<Bit> cur(s.facts.begin(), s.facts.end());
    for (Bit x : cur) {
      const Form &g = formTab[x >> 1];
      if (!(x & 1) || g.l.size() != 1 || leafTab[g.l[0]].kind != L_AND) continue;
      Leaf L = leafTab[g.l[0]];
      if (s.facts.count(L.a) || L.a == 1) { if (!s.facts.count(L.b ^ 1)) work.push_back(L.b ^ 1); }
      else if (s.facts.count(L.b)) { if (!s.facts.count(L.a ^ 1)) work.push_back(L.a ^ 1); }
    }
  }
  return true;
}
// Value of a bit under the path facts: 0, 1 or -1.
int Interp::factValue(State &s, Bit b) {
  if (isC(b)) return b;
  if (s.facts.count(b)) return 1;
  if (s.facts.count(b ^ 1)) return 0;
  const Form &f = formTab[b >> 1];
  if (f.l.size() == 1 && leafTab[f.l[0]].kind == L_AND) {
    Leaf L = leafTab[f.l[0]];
    int x = factValue(s, L.a), y = x == 0 ? -1 : factValue(s, L.b);
    int r = (x == 0 || y == 0) ? 0 : (x == 1 && y == 1) ? 1 : -1;
    return r < 0 ? -1 : r ^ (b & 1);
  }
  return -1;
}

// ------------------------------------------------------------------ comparisons
void Interp::icmp(SP s, unsigned pred, const VP &a, const VP &b, std::vector<std::pair<SP, VP>> &out) {
  auto res = [&](SP t, bool v) { out.push_back({t, mkNum(1, Aff(v ? -1 : 0))}); };
  if (a->k == Val::PTR || b->k == Val::PTR) {
    if (a->k == Val::PTR && b->k == Val::PTR && a->obj == b->obj && a->num && b->num) {
      Aff d = a->n - b->n;
      std::vector<std::pair<SP, bool>> r;
      switch (pred) {
      case CmpInst::ICMP_EQ: forkEQ0(s, d, r); for (auto &x : r) res(x.first, x.second); return;
      case CmpInst::ICMP_NE: forkEQ0(s, d, r); for (auto &x : r) res(x.first, !x.second); return;
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: forkGE0(s, d, r); for (auto &x : r) res(x.first, x.second); return;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: forkGE0(s, d, r); for (auto &x : r) res(x.first, !x.second); return;
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: forkGE0(s, -d, r); for (auto &x : r) res(x.first, x.second); return;
      default: forkGE0(s, -d, r); for (auto &x : r) res(x.first, !x.second); return;
      }
    }
    if (a->k == Val::PTR && b->k == Val::PTR && a->obj != b->obj && a->num && b->num && a->obj >= -1 && b->obj >= -1) {
      if (pred == CmpInst::ICMP_EQ) return res(s, false);
      if (pred == CmpInst::ICMP_NE) return res(s, true);
      // relative order of unrelated objects: both outcomes are possible
      event("PTR_ORDER", true, "the relative order of unrelated addresses is compared");
    }
    SP t = std::make_shared<State>(*s); res(s, true); res(t, false);
    return;
  }
  if (a->num && b->num) {
    bool sgn = pred >= CmpInst::ICMP_SGT && pred <= CmpInst::ICMP_SLE;
    bool eq = pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE;
    Aff x, y; bool ok = false;
    if (eq) {
      Aff d = a->n - b->n;
      if (d.isConst() && a->w <= 64) { uint64_t m = a->w >= 64 ? ~0ull : (((uint64_t)1 << a->w) - 1); return res(s, (((uint64_t)d.c & m) == 0) == (pred == CmpInst::ICMP_EQ)); }
      ok = (inRange(*s, a, false, x) && inRange(*s, b, false, y)) || (inRange(*s, a, true, x) && inRange(*s, b, true, y));
    } else ok = inRange(*s, a, sgn, x) && inRange(*s, b, sgn, y);
    if (!ok && !eq && !sgn) {
      // unsigned comparison with a value that wrapped below zero: decide each side's wrap
      const Aff &u = a->n, &v = b->n;
      for (int side = 0; side < 2; side++) {
        const Aff &e = side ? v : u;
        if (e.isConst()) continue;
        if (!proveGE0(s->cons, e)) {
          Aff neg = -e; neg.c -= 1;
          if (!proveGE0(s->cons, neg)) {  // sign not determined: split on it and retry
            std::vector<std::pair<SP, bool>> r; forkGE0(s, e, r);
            if (r.size() > 1 || r[0].first != s) { for (auto &q : r) icmp(q.first, pred, a, b, out); return; }
          }
        }
      }
      auto ext = [&](const VP &w_, bool &wrapped, Aff &o) -> bool {
        if (inRange(*s, w_, false, o)) { wrapped = false; return true; }
        if (w_->w == 64) {
          if (w_->n.isConst() && w_->n.c < 0) { wrapped = true; o = w_->n; return true; }
          Aff neg = -w_->n; neg.c -= 1;
          if (proveGE0(s->cons, neg)) { wrapped = true; o = w_->n; return true; }   // 2^64 + n
        }
        return false;
      };
      bool wx, wy;
      if (ext(a, wx, x) && ext(b, wy, y)) {
        if (wx == wy) ok = true;
        else {
          bool less = !wx && wy;   // a small, b wrapped (huge)
          bool gt = wx && !wy;
          if (gt || less) stats["wrapped_compare"]++;
          switch (pred) {
          case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return res(s, less);
          default: return res(s, gt);
          }
        }
      }
    }
    if (!ok && eq && a->w == 64) {  // equality of possibly wrapped values
      x = a->n; y = b->n; ok = true;
    }
    if (!ok) {
      int which; if (needSplit(*s, a->n, which) || needSplit(*s, b->n, which)) throw SplitNeeded{which};
      event("TRUNC", true, "comparison of " + a->n.str() + " with " + b->n.str() + " in a " + std::to_string(a->w) + "-bit type that cannot hold them for every input length" + whichLen(*s, a->n - b->n + (a->n == b->n ? a->n : Aff(0))));
      x = a->n; y = b->n;
    }
    Aff d = x - y;
    std::vector<std::pair<SP, bool>> r;
    switch (pred) {
    case CmpInst::ICMP_EQ: forkEQ0(s, d, r); for (auto &q : r) res(q.first, q.second); return;
    case CmpInst::ICMP_NE: forkEQ0(s, d, r); for (auto &q : r) res(q.first, !q.second); return;
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: forkGE0(s, d, r); for (auto &q : r) res(q.first, q.second); return;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: forkGE0(s, d, r); for (auto &q : r) res(q.first, !q.second); return;
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: forkGE0(s, -d, r); for (auto &q : r) res(q.first, q.second); return;
    default: forkGE0(s, -d, r); for (auto &q : r) res(q.first, !q.second); return;
    }
  }
  // indicator sums: count == number of conditions means that all of them hold
  for (int sw = 0; sw < 2; sw++) {
    const VP &i = sw ? b : a, &k = sw ? a : b;
    if (i->hasInd && k->num && k->n.isConst() && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
      int64_t need = k->n.c - i->indc;
      Bit all = -1; bool ok = true;
      if (need == (int64_t)i->inds.size()) { all = 1; for (Bit x : i->inds) all = andHook(*s, all, x); }
      else if (need == 0) { all = 1; for (Bit x : i->inds) all = andHook(*s, all, notb(x)); }
      else if (need < 0 || need > (int64_t)i->inds.size()) all = 0;
      else ok = false;
      if (ok) { out.push_back({s, mkBits(1, {pred == CmpInst::ICMP_EQ ? all : notb(all)})}); return; }
    }
  }
  auto x = bitsOf(a), y = bitsOf(b);
  uint32_t w = x.size();
  Bit r;
  if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
    r = 1;
    for (uint32_t i = 0; i < w; i++) r = andHook(*s, r, notb(xorHook(*s, x[i], y[i])));
    if (pred == CmpInst::ICMP_NE) r = notb(r);
  } else {
    bool sgn = pred >= CmpInst::ICMP_SGT && pred <= CmpInst::ICMP_SLE;
    bool swp = pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE;
    if (swp) std::swap(x, y);
    if (sgn) { x[w - 1] ^= 1; y[w - 1] ^= 1; }
    Bit lt = 0;
    for (uint32_t i = 0; i < w; i++) { Bit d = xorHook(*s, x[i], y[i]); lt = orb(andHook(*s, notb(x[i]), y[i]), andHook(*s, notb(d), lt)); }
    bool neg = pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE;
    r = neg ? notb(lt) : lt;
  }
  out.push_back({s, mkBits(1, {r})});
}
// Mux on a data bit.
static VP muxBits(Interp &in, State &s, Bit c, const VP &a, const VP &b) {
  auto x = bitsOf(a), y = bitsOf(b);
  std::vector<Bit> r(x.size());
  for (size_t i = 0; i < x.size(); i++) r[i] = x[i] == y[i] ? x[i] : in.xorHook(s, y[i], in.andHook(s, c, in.xorHook(s, x[i], y[i])));
  return mkBits(r.size(), r);
}

// ------------------------------------------------------------------ instructions
void Interp::execInst(SP s, Instruction *I, std::vector<SP> &out) {
  curI = I; curS = s;
  nInst++;
  if (++steps > gcfg.maxSteps) throw Undecided{"step limit exceeded"};
  State &S = *s;
  bool dead = false;
  try {
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I);
      if (!isa<ConstantInt>(A->getArraySize())) { event("VLA", true, "stack allocation whose size is not a constant"); throw Undecided{"variable-length stack object"}; }
      int64_t sz = DL.getTypeAllocSize(A->getAllocatedType()) * cast<ConstantInt>(A->getArraySize())->getZExtValue();
      std::string nm = A->getName().str(); size_t dot = nm.find_first_of("."); if (dot != std::string::npos && dot > 0) nm = nm.substr(0, dot);
      ObjDesc d; d.name = nm; d.role = R_LOCAL; d.size = sz; d.origin = I; d.fn = I->getFunction()->getName().str(); d.isStatic = false; d.site = std::to_string(S.frames.back().inst);
      int id = newObj(S, d, true);
      S.frames.back().objs.push_back(id);
      S.frames.back().stackBytes += sz;
      set(S, I, mkPtr(id, Aff(0)));
      break;
    }
    case Instruction::Load: set(S, I, loadTyped(S, get(S, I->getOperand(0)), I->getType(), dead)); break;
    case Instruction::Store: storeTyped(S, get(S, I->getOperand(1)), get(S, I->getOperand(0)), I->getOperand(0)->getType(), dead); break;
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I);
      VP base = get(S, G->getPointerOperand());
      Aff off = base->n; bool num = base->num; std::vector<Bit> deps = base->b;
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        if (StructType *ST = gi.getStructTypeOrNull()) { off = off + Aff((int64_t)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()).getFixedValue()); continue; }
        VP ix = get(S, gi.getOperand());
        int64_t es = DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
        if (ix->num && ix->w < (unsigned)gcfg.ptrBits) ix = castTo(S, Instruction::SExt, ix, gi.getOperand()->getType(), Type::getIntNTy(I->getContext(), gcfg.ptrBits));
        if (ix->num && num) off = off + ix->n * es;
        else { num = false; if (!ix->num) deps.insert(deps.end(), ix->b.begin(), ix->b.end()); }
      }
      if (num) set(S, I, mkPtr(base->obj, off)); else { if (base->obj == -2 || base->obj == -3) set(S, I, mkPtrUnknown(base->obj, deps)); else set(S, I, mkPtrUnknown(base->obj, deps)); }
      break;
    }
    case Instruction::ICmp: {
      VP a = get(S, I->getOperand(0)), b = get(S, I->getOperand(1));
      if (I->getType()->isVectorTy()) {
        uint32_t ew = DL.getTypeSizeInBits(I->getOperand(0)->getType()->getScalarType());
        auto x = bitsOf(a), y = bitsOf(b); std::vector<Bit> r;
        for (size_t i = 0; i < x.size(); i += ew) {
          std::vector<std::pair<SP, VP>> o;
          icmp(s, cast<ICmpInst>(I)->getPredicate(), mkBits(ew, std::vector<Bit>(x.begin() + i, x.begin() + i + ew)), mkBits(ew, std::vector<Bit>(y.begin() + i, y.begin() + i + ew)), o);
          if (o.size() != 1 || o[0].first != s) throw Undecided{"vector comparison"};
          r.push_back(bitsOf(o[0].second)[0]);
        }
        set(S, I, mkBits(r.size(), r)); break;
      }
      std::vector<std::pair<SP, VP>> o;
      icmp(s, cast<ICmpInst>(I)->getPredicate(), a, b, o);
      for (auto &p : o) { set(*p.first, I, p.second); out.push_back(p.first); }
      return;
    }
    case Instruction::Select: {
      VP c = get(S, I->getOperand(0)), a = get(S, I->getOperand(1)), b = get(S, I->getOperand(2));
      if (c->w > 1) {
        auto m = bitsOf(c), x = bitsOf(a), y = bitsOf(b); uint32_t ew = x.size() / m.size(); std::vector<Bit> r;
        for (size_t i = 0; i < m.size(); i++) for (uint32_t j = 0; j < ew; j++) { Bit p = x[i * ew + j], q = y[i * ew + j]; r.push_back(isC(m[i]) ? (m[i] ? p : q) : xorHook(S, q, andHook(S, m[i], xorHook(S, p, q)))); }
        set(S, I, mkBits(r.size(), r)); break;
      }
      if (c->num) { set(S, I, c->n.c ? a : b); break; }
      Bit cb = bitsOf(c)[0];
      int fv = factValue(S, cb);
      if (fv >= 0) { set(S, I, fv ? a : b); break; }
      if (a->k == Val::INT && b->k == Val::INT) { set(S, I, muxBits(*this, S, cb, a, b)); break; }
      if (dataDepBit(cb)) event("DATA_ADDR", true, "an address is selected by data");
      SP t = std::make_shared<State>(S); set(*t, I, a); set(S, I, b); out.push_back(t); out.push_back(s);
      return;
    }
    case Instruction::ExtractValue: { VP v = get(S, I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = v->el[i]; set(S, I, v); break; }
    case Instruction::InsertValue: {
      VP v = get(S, I->getOperand(0)); auto ix = cast<InsertValueInst>(I)->getIndices();
      std::function<VP(VP, unsigned)> ins = [&](VP x, unsigned d) -> VP { if (d == ix.size()) return get(S, I->getOperand(1)); auto r = std::make_shared<Val>(*x); r->el[ix[d]] = ins(x->el[ix[d]], d + 1); return r; };
      set(S, I, ins(v, 0)); break;
    }
    case Instruction::ExtractElement: {
      VP v = get(S, I->getOperand(0)), ix = get(S, I->getOperand(1)); uint32_t ew = DL.getTypeSizeInBits(I->getType());
      if (!ix->num || !ix->n.isConst()) throw Undecided{"variable vector index"};
      auto x = bitsOf(v); size_t o = ix->n.c * ew; set(S, I, mkBits(ew, std::vector<Bit>(x.begin() + o, x.begin() + o + ew))); break;
    }
    case Instruction::InsertElement: {
      VP v = get(S, I->getOperand(0)), e = get(S, I->getOperand(1)), ix = get(S, I->getOperand(2)); uint32_t ew = e->w;
      if (!ix->num || !ix->n.isConst()) throw Undecided{"variable vector index"};
      auto x = bitsOf(v), y = bitsOf(e); std::copy(y.begin(), y.end(), x.begin() + ix->n.c * ew); set(S, I, mkBits(x.size(), x)); break;
    }
    case Instruction::ShuffleVector: {
      auto *SV = cast<ShuffleVectorInst>(I); uint32_t ew = DL.getTypeSizeInBits(I->getType()->getScalarType());
      auto x = bitsOf(get(S, I->getOperand(0))), y = bitsOf(get(S, I->getOperand(1))); x.insert(x.end(), y.begin(), y.end());
      std::vector<Bit> r;
      for (int m : SV->getShuffleMask()) for (uint32_t j = 0; j < ew; j++) r.push_back(m < 0 ? 0 : x[m * ew + j]);
      set(S, I, mkBits(r.size(), r)); break;
    }
    case Instruction::Freeze: set(S, I, get(S, I->getOperand(0))); break;
    case Instruction::Call: if (auto *II = dyn_cast<IntrinsicInst>(I)) { intrinsic(s, II, out); return; } call(s, cast<CallBase>(I), out); return;
    case Instruction::Unreachable: event("UNREACHABLE", true, "undefined behaviour is reached"); return;
    default:
      if (I->isBinaryOp()) {
        VP v = binop(S, I->getOpcode(), get(S, I->getOperand(0)), get(S, I->getOperand(1)), DL.getTypeSizeInBits(I->getType()), DL.getTypeSizeInBits(I->getType()->getScalarType()));
        set(S, I, v);
        if (auto *O = dyn_cast<OverflowingBinaryOperator>(I)) if (O->hasNoSignedWrap() && v->k == Val::INT && v->num && !I->getType()->isVectorTy()) {
          stats["signed_operations"]++;
          Aff x; uint32_t w = v->w;
          bool fits = v->n.isConst() ? (w >= 64 || (v->n.c >= -((int64_t)1 << (w - 1)) && v->n.c < ((int64_t)1 << (w - 1)))) : inRange(S, v, true, x);
          if (!fits) event("OVERFLOW", true, "signed arithmetic overflows: " + v->n.str() + " does not fit " + std::to_string(w) + " bits" + whichLen(S, v->n));
        }
        break;
      }
      if (I->isCast()) { set(S, I, castTo(S, I->getOpcode(), get(S, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); break; }
      throw Undecided{std::string("instruction not supported: ") + I->getOpcodeName()};
    }
    if (!dead) out.push_back(s);
  } catch (SplitNeeded &sn) {
    std::vector<SP> parts = split(s, sn.which);
    for (auto &p : parts) execInst(p, I, out);
  }
}

// ------------------------------------------------------------------ calls
static std::string calleeName(CallBase *CB) { if (auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) return F->getName().str(); return ""; }
void Interp::call(SP s, CallBase *CB, std::vector<SP> &out) {
  State &S = *s;
  if (CB->isInlineAsm()) {
    VP r; execInlineAsm(S, CB, r);
    if (!CB->getType()->isVoidTy()) set(S, CB, r);
    out.push_back(s); return;
  }
  Function *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  if (!F) { event("INDIRECT_CALL", true, "call through a function pointer"); throw Undecided{"indirect call"}; }
  std::vector<VP> args;
  for (auto &a : CB->args()) args.push_back(get(S, a.get()));
  std::string name = F->getName().str();
  if (F->isDeclaration()) {
    auto as = asmFuncs.find(name);
    if (as != asmFuncs.end()) {
      auto rets = callAsm(s, as->second, args);
      for (auto &r : rets) { if (!CB->getType()->isVoidTy()) set(*r.st, CB, r.v ? r.v : opaque(DL.getTypeSizeInBits(CB->getType()), "asmret", {})); out.push_back(r.st); }
      return;
    }
    bool dead = false;
    auto constLen = [&](const VP &v, int64_t &n) { if (!v->num) return false; Aff x; if (v->n.isConst()) { n = v->n.c; return true; } int which; if (needSplit(S, v->n, which)) throw SplitNeeded{which}; if (pinValue(S, v->n, x)) { n = x.c; return true; } return false; };
    int64_t n;
    if (name == "memcpy" || name == "memmove") { if (!constLen(args[2], n)) { symCopy(S, args[0], args[1], args[2], CB); } else copyMem(S, args[0], args[1], n, dead); if (!CB->getType()->isVoidTy()) set(S, CB, args[0]); out.push_back(s); return; }
    if (name == "memset") { if (!constLen(args[2], n)) throw Undecided{"memset of symbolic length"}; for (int64_t i = 0; i < n; i++) store(S, mkPtr(args[0]->obj, args[0]->n + Aff(i)), mkBits(8, [&] { auto x = bitsOf(args[1]); x.resize(8); return x; }()), dead); if (!CB->getType()->isVoidTy()) set(S, CB, args[0]); out.push_back(s); return; }
    if (name == "memcmp" || name == "bcmp") {
      if (!constLen(args[2], n)) throw Undecided{"memcmp of symbolic length"};
      std::vector<VP> ops; Bit eq = 1; bool data = false;
      for (int64_t i = 0; i < n; i++) { VP x = load(S, mkPtr(args[0]->obj, args[0]->n + Aff(i)), 8, false, dead), y = load(S, mkPtr(args[1]->obj, args[1]->n + Aff(i)), 8, false, dead);
        if (dataDep(x) || dataDep(y)) data = true;
        auto p = bitsOf(x), q = bitsOf(y); for (int j = 0; j < 8; j++) eq = andHook(S, eq, notb(xorHook(S, p[j], q[j]))); }
      if (data) event("EXTERN_COMPARE", true, "data is compared with " + name + ", which returns at the first difference");
      std::vector<Bit> r(32, 0); r[0] = notb(eq); set(S, CB, mkBits(32, r)); out.push_back(s); return;
    }
    if (name == "explicit_bzero") { if (!constLen(args[1], n)) throw Undecided{"bzero of symbolic length"}; for (int64_t i = 0; i < n; i++) store(S, mkPtr(args[0]->obj, args[0]->n + Aff(i)), mkNum(8, Aff(0)), dead); out.push_back(s); return; }
    externs.insert(name);
    event("EXTERN_CALL", true, "calls the external function '" + name + "'");
    if (!CB->getType()->isVoidTy()) { if (CB->getType()->isPointerTy()) set(S, CB, mkPtrUnknown(-2, {})); else set(S, CB, opaque(DL.getTypeSizeInBits(CB->getType()), "extern", {})); }
    out.push_back(s); return;
  }
  if (F->isVarArg() || F->arg_size() != args.size()) { event("ARG_COUNT", true, "call of " + name + " with " + std::to_string(args.size()) + " arguments, defined with " + std::to_string(F->arg_size())); }
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
    Type *pt = F->getArg(i)->getType(), *at = CB->getArgOperand(i)->getType();
    if (pt != at) {
      event("ARG_TYPE", true, "argument " + std::to_string(i + 1) + " of " + name + " is passed with a type the definition does not declare");
      if (pt->isIntegerTy() && at->isIntegerTy()) args[i] = castTo(S, DL.getTypeSizeInBits(pt) < DL.getTypeSizeInBits(at) ? Instruction::Trunc : Instruction::ZExt, args[i], at, pt);
    }
  }
  for (Function *g : callStack) if (g == F) { event("RECURSION", true, "recursive call of " + name); throw Undecided{"recursion"}; }
  // static ordinal of this call among the calls of the same callee in the caller
  int ord = 0;
  { bool found = false; for (auto &bb : *CB->getFunction()) { for (auto &I : bb) { if (&I == CB) { found = true; break; } if (auto *c2 = dyn_cast<CallBase>(&I)) if (calleeName(c2) == name) ord++; } if (found) break; } }
  FnInfo *cfi = S.frames.back().fi;
  auto &la = liveAfterInst(cfi, CB);
  for (size_t i = 0; i < la.size(); i++) if (!la[i]) S.frames.back().env[i] = nullptr;
  auto rets = callFunction(s, F, args, name + "#" + std::to_string(ord));
  curI = CB;
  for (auto &r : rets) { if (!CB->getType()->isVoidTy()) set(*r.st, CB, r.v); out.push_back(r.st); }
}
std::vector<Interp::Ret> Interp::callFunction(SP s, Function *F, const std::vector<VP> &args, const std::string &csname) {
  FnInfo *fi = info(F);
  fnsSeen.insert(F->getName().str());
  Frame fr; fr.F = F; fr.fi = fi; fr.env.resize(fi->n);
  std::vector<std::string> cs;
  if (!s->frames.empty()) { cs = instTab[s->frames.back().inst]; cs.push_back(csname); }
  fr.inst = instOf(cs);
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) fr.env[i] = args[i];
  for (size_t i = args.size(); i < F->arg_size(); i++) fr.env[i] = constVal(*s, UndefValue::get(F->getArg(i)->getType()));
  s->frames.push_back(fr);
  callStack.push_back(F);
  std::vector<Edge> out; std::vector<Ret> rets;
  size_t depth = s->frames.size();
  execRegion(fi, nullptr, &F->getEntryBlock(), {s}, out, rets);
  callStack.pop_back();
  for (auto &r : rets) {
    if (r.st->frames.size() != depth) DIE("frame mismatch");
    uint64_t st = 0; for (auto &f : r.st->frames) st += f.stackBytes;
    maxStack = std::max(maxStack, st);
    for (int o : r.st->frames.back().objs) r.st->mem.erase(o);
    r.st->frames.pop_back();
  }
  if (rets.size() > 1 && depth > 1) mergeRets(rets, F->getName().str());
  return rets;
}
void Interp::symCopy(State &S, const VP &d, const VP &src, const VP &n, CallBase *CB) { throw Undecided{"block copy of symbolic length"}; }

void Interp::intrinsic(SP s, IntrinsicInst *II, std::vector<SP> &out) {
  State &S = *s; bool dead = false;
  switch (II->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::lifetime_end: break;
  case Intrinsic::lifetime_start: {
    VP p = get(S, II->getArgOperand(1));
    if (p->obj >= 0 && objs[p->obj].role == R_LOCAL) { auto sv = objs[p->obj]; s->mem.erase(p->obj); newObj(S, sv, true); }
    break;
  }
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
    VP n = get(S, II->getArgOperand(2)), d = get(S, II->getArgOperand(0)), sr = get(S, II->getArgOperand(1));
    Aff k = n->n;
    if (!n->num) { if (dataDep(n)) event("DATA_ADDR", true, "length of a block copy depends on data"); throw Undecided{"block copy length"}; }
    if (!k.isConst()) { int which; if (needSplit(S, k, which)) throw SplitNeeded{which}; if (!pinValue(S, k, k)) { symCopy(S, d, sr, n, II); break; } }
    copyMem(S, d, sr, k.c, dead);
    break;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    VP n = get(S, II->getArgOperand(2)), d = get(S, II->getArgOperand(0)), v = get(S, II->getArgOperand(1));
    Aff k = n->n;
    if (!n->num) throw Undecided{"memset length"};
    if (!k.isConst()) { int which; if (needSplit(S, k, which)) throw SplitNeeded{which}; if (!pinValue(S, k, k)) throw Undecided{"memset of symbolic length"}; }
    for (int64_t i = 0; i < k.c; i++) store(S, mkPtr(d->obj, d->n + Aff(i)), v, dead);
    break;
  }
  case Intrinsic::bswap: {
    auto x = bitsOf(get(S, II->getArgOperand(0))); std::vector<Bit> r; int nb = x.size() / 8;
    for (int i = nb - 1; i >= 0; i--) r.insert(r.end(), x.begin() + i * 8, x.begin() + i * 8 + 8);
    set(S, II, mkBits(x.size(), r)); break;
  }
  case Intrinsic::bitreverse: { auto x = bitsOf(get(S, II->getArgOperand(0))); std::reverse(x.begin(), x.end()); set(S, II, mkBits(x.size(), x)); break; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    VP a = get(S, II->getArgOperand(0)), b = get(S, II->getArgOperand(1)), c = get(S, II->getArgOperand(2));
    uint32_t ew = DL.getTypeSizeInBits(II->getType()->getScalarType());
    auto x = bitsOf(a), y = bitsOf(b); auto kb = bitsOf(c);
    std::vector<Bit> r;
    for (size_t o = 0; o < x.size(); o += ew) {
      uint64_t k = 0; bool ok = true;
      for (uint32_t i = 0; i < ew; i++) { if (!isC(kb[o + i])) ok = false; else k |= (uint64_t)kb[o + i] << i; }
      if (!ok) { if (dataDep(c)) event("VAR_SHIFT", true, "rotation amount depends on data"); VP q = opaque(x.size(), "fsh", {a, b, c}); r = bitsOf(q); break; }
      k %= ew;
      if (II->getIntrinsicID() == Intrinsic::fshr) k = ew - k;   // concat(x,y) >> k == fshl by ew-k
      if (k == ew) { for (uint32_t i = 0; i < ew; i++) r.push_back(y[o + i]); continue; }
      for (uint32_t i = 0; i < ew; i++) r.push_back(i >= k ? x[o + i - k] : y[o + ew - k + i]);
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::masked_load: {
    VP p = get(S, II->getArgOperand(0)), m = get(S, II->getArgOperand(2)), th = get(S, II->getArgOperand(3));
    uint32_t ew = DL.getTypeSizeInBits(II->getType()->getScalarType());
    auto mb = bitsOf(m), t = bitsOf(th); std::vector<Bit> r;
    for (size_t i = 0; i < mb.size(); i++) {
      if (!isC(mb[i])) throw Undecided{"masked load with a variable mask"};
      if (mb[i]) { auto x = bitsOf(load(S, mkPtr(p->obj, p->n + Aff((int64_t)(i * ew / 8))), ew, false, dead)); r.insert(r.end(), x.begin(), x.end()); }
      else r.insert(r.end(), t.begin() + i * ew, t.begin() + (i + 1) * ew);
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::masked_store: {
    VP v = get(S, II->getArgOperand(0)), p = get(S, II->getArgOperand(1)), m = get(S, II->getArgOperand(3));
    auto mb = bitsOf(m), x = bitsOf(v); uint32_t ew = x.size() / mb.size();
    for (size_t i = 0; i < mb.size(); i++) {
      if (!isC(mb[i])) throw Undecided{"masked store with a variable mask"};
      if (mb[i]) store(S, mkPtr(p->obj, p->n + Aff((int64_t)(i * ew / 8))), mkBits(ew, std::vector<Bit>(x.begin() + i * ew, x.begin() + (i + 1) * ew)), dead);
    }
    break;
  }
  case Intrinsic::x86_avx512_pternlog_q_128: case Intrinsic::x86_avx512_pternlog_q_256: case Intrinsic::x86_avx512_pternlog_q_512:
  case Intrinsic::x86_avx512_pternlog_d_128: case Intrinsic::x86_avx512_pternlog_d_256: case Intrinsic::x86_avx512_pternlog_d_512: {
    auto a = bitsOf(get(S, II->getArgOperand(0))), b = bitsOf(get(S, II->getArgOperand(1))), c = bitsOf(get(S, II->getArgOperand(2)));
    unsigned imm = cast<ConstantInt>(II->getArgOperand(3))->getZExtValue();
    // algebraic normal form of the 3-input function; index = a*4+b*2+c
    unsigned anf = imm;
    for (int v = 1; v < 8; v <<= 1) for (int i = 0; i < 8; i++) if (i & v) if (anf >> (i ^ v) & 1) anf ^= 1u << i;
    std::vector<Bit> r;
    bool lin3 = (anf & ~1u) == 0x16;   // a ^ b ^ c: the sum of the last two is usually shared by many lanes
    for (size_t i = 0; i < a.size(); i++) {
      if (lin3) { r.push_back(xorHook(S, a[i], xorHook(S, b[i], c[i])) ^ (anf & 1)); continue; }
      Bit x = (anf & 1) ? 1 : 0;
      auto A = [&](Bit p) { x = xorHook(S, x, p); };
      // factor x&y ^ x etc. so that chi-like terms match the scalar implementations
      bool ab = anf >> 6 & 1, ac = anf >> 5 & 1, bc = anf >> 3 & 1, ta = anf >> 4 & 1, tb = anf >> 2 & 1, tc = anf >> 1 & 1;
      if (anf >> 7 & 1) A(andHook(S, a[i], andHook(S, b[i], c[i])));
      if (ab) A(andHook(S, a[i], b[i]));
      if (ac) A(andHook(S, a[i], c[i]));
      if (bc) A(andHook(S, b[i], c[i]));
      if (ta) A(a[i]);
      if (tb) A(b[i]);
      if (tc) A(c[i]);
      r.push_back(x);
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::x86_avx512_permvar_qi_128: case Intrinsic::x86_avx512_permvar_qi_256: case Intrinsic::x86_avx512_permvar_qi_512:
  case Intrinsic::x86_avx512_permvar_di_512: case Intrinsic::x86_avx512_permvar_di_256: case Intrinsic::x86_avx512_permvar_hi_512: case Intrinsic::x86_avx512_permvar_hi_256: case Intrinsic::x86_avx512_permvar_hi_128: {
    auto a = bitsOf(get(S, II->getArgOperand(0))), ix = bitsOf(get(S, II->getArgOperand(1)));
    uint32_t ew = DL.getTypeSizeInBits(II->getType()->getScalarType()); size_t ne = a.size() / ew;
    std::vector<Bit> r;
    for (size_t i = 0; i < ne; i++) {
      size_t k = 0; for (uint32_t j = 0; j < ew && j < 16; j++) { Bit q = ix[i * ew + j]; if (((size_t)1 << j) < ne) { if (!isC(q)) throw Undecided{"data-dependent permutation"}; k |= (size_t)q << j; } }
      r.insert(r.end(), a.begin() + k * ew, a.begin() + (k + 1) * ew);
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::x86_avx512_vpermi2var_q_512: case Intrinsic::x86_avx512_vpermi2var_hi_512: case Intrinsic::x86_avx512_vpermi2var_q_256: case Intrinsic::x86_avx512_vpermi2var_hi_128: case Intrinsic::x86_avx512_vpermi2var_hi_256: {
    auto a = bitsOf(get(S, II->getArgOperand(0))), ix = bitsOf(get(S, II->getArgOperand(1))), b = bitsOf(get(S, II->getArgOperand(2)));
    a.insert(a.end(), b.begin(), b.end());
    uint32_t ew = DL.getTypeSizeInBits(II->getType()->getScalarType()); size_t ne = ix.size() / ew;
    std::vector<Bit> r;
    for (size_t i = 0; i < ne; i++) {
      size_t k = 0; for (uint32_t j = 0; j < ew && j < 16; j++) { Bit q = ix[i * ew + j]; if (((size_t)1 << j) < 2 * ne) { if (!isC(q)) throw Undecided{"data-dependent permutation"}; k |= (size_t)q << j; } }
      r.insert(r.end(), a.begin() + k * ew, a.begin() + (k + 1) * ew);
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::x86_avx512_pslli_w_512: case Intrinsic::x86_avx512_pslli_d_512: case Intrinsic::x86_avx512_pslli_q_512:
  case Intrinsic::x86_avx512_psrli_w_512: case Intrinsic::x86_avx512_psrli_d_512: case Intrinsic::x86_avx512_psrli_q_512:
  case Intrinsic::x86_avx512_psllv_w_512: case Intrinsic::x86_avx512_psllv_d_512: case Intrinsic::x86_avx512_psllv_q_512:
  case Intrinsic::x86_avx512_psrlv_w_512: case Intrinsic::x86_avx512_psrlv_d_512: case Intrinsic::x86_avx512_psrlv_q_512: {
    auto id = II->getIntrinsicID();
    bool left = id == Intrinsic::x86_avx512_pslli_w_512 || id == Intrinsic::x86_avx512_pslli_d_512 || id == Intrinsic::x86_avx512_pslli_q_512 || id == Intrinsic::x86_avx512_psllv_w_512 || id == Intrinsic::x86_avx512_psllv_d_512 || id == Intrinsic::x86_avx512_psllv_q_512;
    auto a = bitsOf(get(S, II->getArgOperand(0))), k = bitsOf(get(S, II->getArgOperand(1)));
    uint32_t ew = DL.getTypeSizeInBits(II->getType()->getScalarType()), kw = k.size() < a.size() ? 0 : ew;   // one count, or one per element
    std::vector<Bit> r(a.size(), 0);
    for (uint32_t i = 0; i < a.size(); i += ew) {
      uint64_t n = 0;
      for (uint32_t j = 0; j < (kw ? kw : (uint32_t)k.size()) && j < 64; j++) { Bit q = k[(kw ? i : 0) + j]; if (!isC(q)) throw Undecided{"vector shift by a variable amount"}; n |= (uint64_t)q << j; }
      for (uint32_t j = 0; j < ew && n < ew; j++) { if (left) { if (j >= n) r[i + j] = a[i + j - n]; } else if (j + n < ew) r[i + j] = a[i + j + n]; }
    }
    set(S, II, mkBits(r.size(), r)); break;
  }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
    VP a = get(S, II->getArgOperand(0)), b = get(S, II->getArgOperand(1));
    unsigned pr = II->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : II->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : II->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
    std::vector<std::pair<SP, VP>> o; icmp(s, pr, a, b, o);
    for (auto &p : o) { set(*p.first, II, p.second->num ? (p.second->n.c ? a : b) : muxBits(*this, *p.first, bitsOf(p.second)[0], a, b)); out.push_back(p.first); }
    return;
  }
  case Intrinsic::stacksave: case Intrinsic::stackrestore: event("VLA", true, "variable-length stack object"); throw Undecided{"variable-length stack object"};
  default: {
    std::string nm = II->getCalledFunction()->getName().str();
    if (II->getIntrinsicID() == Intrinsic::trap) { event("UNREACHABLE", true, "trap"); return; }
    throw Undecided{"intrinsic not supported: " + nm};
  }
  }
  if (!dead) out.push_back(s);
}
