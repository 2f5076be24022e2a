// Control flow: regions, loops (with closed forms in a step counter), path merging.
#include "interp.h"
#include "llvm/IR/CFG.h"

void Interp::purge(State &s, FnInfo *fi, BasicBlock *bb) {
  auto &env = s.frames.back().env;
  auto &li = fi->liveIn[bb];
  std::vector<int> keep;
  for (auto &p : bb->phis()) keep.push_back(fi->id[&p]);
  env.resize(fi->n);
  for (int i = 0; i < fi->n; i++) if (env[i] && !li[i] && std::find(keep.begin(), keep.end(), i) == keep.end()) env[i] = nullptr;
}
SP Interp::phis(SP s, BasicBlock *from, BasicBlock *to) {
  std::vector<std::pair<PHINode *, VP>> v;
  for (auto &p : to->phis()) v.push_back({&p, get(*s, p.getIncomingValueForBlock(from))});
  for (auto &p : v) set(*s, p.first, p.second);
  purge(*s, s->frames.back().fi, to);
  return s;
}
void Interp::execBlock(SP s0, BasicBlock *bb, std::vector<Edge> &out, std::vector<Ret> &rets) {
  std::vector<SP> cur{s0}, next;
  { Frame &fr = s0->frames.back(); fr.env.resize(fr.fi->n + fr.fi->nloc[bb]); }
  for (Instruction &I : *bb) {
    if (isa<PHINode>(I)) continue;
    if (!I.isTerminator()) {
      next.clear();
      bool forked = false;
      if (cur.size() > 1) if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *G = CB->getCalledFunction()) if (!G->isIntrinsic()) {
        // states that pass different numbers stay apart: a joined length would be unknown to the callee
        std::map<std::vector<uint64_t>, std::vector<SP>> byArg;
        for (auto &s : cur) {
          std::vector<uint64_t> k;
          for (auto &A : CB->args()) { VP v = get(*s, A.get()); k.push_back(v->num ? hmix(v->n.hash(), v->k == Val::PTR ? v->obj + 7 : 1) : 0); }
          byArg[k].push_back(s);
        }
        cur.clear();
        for (auto &g : byArg) { mergeList(g.second, "before call"); cur.insert(cur.end(), g.second.begin(), g.second.end()); }
      }
      for (auto &s : cur) { size_t n0 = next.size(); curS = s; execInst(s, &I, next); if (next.size() > n0 + 1) forked = true; }
      if (forked && isa<CallBase>(I)) mergeList(next, "call");
      cur.swap(next);
      if (cur.empty()) return;
      continue;
    }
    for (auto &s : cur) {
      curI = &I; curS = s;
      if (auto *R = dyn_cast<ReturnInst>(&I)) { rets.push_back({R->getReturnValue() ? get(*s, R->getReturnValue()) : nullptr, s}); continue; }
      if (isa<UnreachableInst>(I)) { event("UNREACHABLE", true, "undefined behaviour is reached"); continue; }
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isUnconditional()) { out.push_back({bb, B->getSuccessor(0), s}); continue; }
        if (accessInsts.insert(&I).second) branchesSeen.insert(bb->getParent()->getName().str() + ":" + loc(&I));
        VP c = get(*s, B->getCondition());
        if (c->num && c->n.isConst()) { out.push_back({bb, B->getSuccessor(c->n.c ? 0 : 1), s}); continue; }
        Bit cb = bitsOf(c)[0];
        int fv = factValue(*s, cb);
        if (fv >= 0) { out.push_back({bb, B->getSuccessor(fv ? 0 : 1), s}); continue; }
        SP t = std::make_shared<State>(*s), f = s;
        bool okT = assumeTrue(*t, cb), okF = assumeTrue(*f, notb(cb));
        if (dataDepBit(cb)) {
          std::string why, why2;
          if (dmTab[bitDM(cb)].mask >> B_UNINIT & 1) event("UNINIT_BRANCH", true, "a branch depends on uninitialised memory");
          if (gcfg.decrypt && gcfg.shortLen < 0 && ((okT && verified(*t, why)) || (okF && verified(*f, why2)))) stats["verdict_branches"]++;
          else event("BRANCH", true, "a branch depends on data: " + bitStr(cb));
        }
        if (okT) out.push_back({bb, B->getSuccessor(0), t});
        if (okF) out.push_back({bb, B->getSuccessor(1), f});
        continue;
      }
      if (auto *W = dyn_cast<SwitchInst>(&I)) {
        VP c = get(*s, W->getCondition());
        if (accessInsts.insert(&I).second) branchesSeen.insert(bb->getParent()->getName().str() + ":" + loc(&I));
        if (c->num && c->n.isConst()) { out.push_back({bb, W->findCaseValue(ConstantInt::get(cast<IntegerType>(W->getCondition()->getType()), c->n.c))->getCaseSuccessor(), s}); continue; }
        if (c->num) {
          std::vector<SP> rest{s};
          for (auto &cs : W->cases()) {
            std::vector<SP> nr;
            for (auto &r : rest) {
              std::vector<std::pair<SP, VP>> o;
              std::function<void(SP)> go = [&](SP z) { try { icmp(z, CmpInst::ICMP_EQ, get(*z, W->getCondition()), constVal(*z, cs.getCaseValue()), o); } catch (SplitNeeded &sn) { for (auto &q : split(z, sn.which)) go(q); } };
              go(r);
              for (auto &p : o) if (p.second->n.c) out.push_back({bb, cs.getCaseSuccessor(), p.first}); else nr.push_back(p.first);
            }
            rest.swap(nr);
          }
          for (auto &r : rest) out.push_back({bb, W->getDefaultDest(), r});
          continue;
        }
        if (dataDep(c)) event("BRANCH", true, "a switch depends on data");
        std::set<BasicBlock *> dests; for (auto *d : successors(bb)) dests.insert(d);
        for (auto *d : dests) out.push_back({bb, d, std::make_shared<State>(*s)});
        continue;
      }
      throw Undecided{"terminator not supported"};
    }
  }
}
void Interp::execRegion(FnInfo *fi, Loop *L, BasicBlock *entry, std::vector<SP> ins, std::vector<Edge> &out, std::vector<Ret> &rets) {
  std::map<BasicBlock *, std::vector<SP>> pend;
  pend[entry] = ins;
  auto dispatch = [&](std::vector<Edge> &es) {
    for (auto &e : es) {
      if (L && (e.to == entry || !L->contains(e.to))) { out.push_back(e); continue; }
      if (!L && fi->rpoIdx[e.to] <= fi->rpoIdx[e.from] && !(fi->LI.getLoopFor(e.to) && fi->LI.getLoopFor(e.to)->contains(e.from))) throw Undecided{"irreducible control flow in " + fi->F->getName().str()};
      pend[e.to].push_back(phis(e.st, e.from, e.to));
    }
  };
  for (BasicBlock *b : fi->rpo) {
    auto it = pend.find(b);
    if (it == pend.end()) continue;
    std::vector<SP> st; st.swap(it->second);
    if (st.empty()) continue;
    if (st.size() > 1) mergeList(st, fi->F->getName().str() + ":" + std::to_string(fi->rpoIdx[b]));
    if (st.size() > 600) throw Undecided{"too many paths"};
    std::vector<Edge> es;
    Loop *bl = fi->LI.getLoopFor(b);
    if (bl && bl->getHeader() == b && bl != L) execLoop(fi, bl, st, es, rets);
    else for (auto &s : st) execBlock(s, b, es, rets);
    dispatch(es);
  }
}
void Interp::loopBody(FnInfo *fi, Loop *L, SP s, std::vector<SP> &backs, std::vector<Edge> &out, std::vector<Ret> &rets) {
  std::vector<Edge> es;
  execRegion(fi, L, L->getHeader(), {s}, es, rets);
  for (auto &e : es) {
    if (e.to == L->getHeader()) backs.push_back(phis(e.st, e.from, e.to));
    else out.push_back(e);
  }
  if (backs.size() > 1) mergeList(backs, fi->F->getName().str() + ":back" + std::to_string(fi->rpoIdx[L->getHeader()]));
}
void Interp::execLoop(FnInfo *fi, Loop *L, std::vector<SP> ins, std::vector<Edge> &out, std::vector<Ret> &rets) {
  std::string hdr = fi->F->getName().str() + ":" + loc(&*L->getHeader()->getFirstNonPHIOrDbg());
  loopsSeen.insert(hdr);
  long growing = 0, iters = 0;
  std::vector<SP> work = ins;
  std::vector<int> tries(work.size(), 0);
  int symTries = 0;
  while (!work.empty()) {
    SP s = work.front(); work.erase(work.begin());
    Cons before = s->cons;
    auto r0 = std::make_tuple(s->res[0], s->res[1], s->res[2]);
    size_t nf = s->facts.size();
    std::vector<SP> backs;
    size_t exits = out.size() + rets.size();
    loopBody(fi, L, s, backs, out, rets);
    iters++;
    bool exited = out.size() + rets.size() > exits;   // only an iteration that can leave the loop calls for a closed form
    for (auto &b : backs) {
      bool grew = !(b->cons.size() == before.size() && std::is_permutation(b->cons.begin(), b->cons.end(), before.begin())) || std::make_tuple(b->res[0], b->res[1], b->res[2]) != r0;
      if (!grew) { work.push_back(b); if (b->facts.size() != nf) growing++; continue; }
      if (exited && symTries < 60) {
        symTries++;
        if (symLoop(fi, L, b, out, rets)) { stats["closed_form_loops"]++; continue; }
      }
      growing++;
      work.push_back(b);
    }
    if (growing > 200) throw Undecided{"no closed form found for the loop at " + hdr + (symWhy.empty() ? "" : " (" + symWhy + ")")};
    if (iters > 30000) { event("NONTERM", true, "the loop at " + hdr + " does not terminate within " + std::to_string(iters) + " iterations although nothing on its path depends on the lengths"); throw Undecided{"non-terminating loop at " + hdr}; }
  }
}

// ------------------------------------------------------------------ closed forms
static int newTVar(State &s) { for (int v = V_T0; v <= V_TMAX; v++) if (!(s.tUsed >> (v - V_T0) & 1)) return v; throw Undecided{"too many nested symbolic loops"}; }
// Solve for a step counter that the constraints determine.
void Interp::pinVar(State &s, int v) {
  std::vector<Aff> cands;
  for (auto &c : s.cons) {
    int64_t a = c.coef(v); if (!a) continue;
    int64_t A = a < 0 ? -a : a;
    Aff e = c; e.addTerm(v, -a);
    bool div = true; for (int i = 0; i < e.n; i++) if (e.t[i].second % A) div = false;
    if (!div) continue;
    Aff q(0); for (int i = 0; i < e.n; i++) q.addTerm(e.t[i].first, e.t[i].second / A);
    q.c = (int64_t)floordiv(e.c, A);
    cands.push_back(a < 0 ? q : -q);
  }
  for (int w : {V_QA, V_QM, V_QN}) {   // the step count in terms of a block count
    bool has = false; for (auto &c : s.cons) if (c.has(w)) has = true;
    if (has) for (int k : {0, -1, -2, 1, -3, 2, -4}) cands.push_back(Aff::var(w) + Aff(k));
  }
  for (auto &c : cands) if (proveEQ0(s.cons, Aff::var(v) - c)) { substAll(s, v, c); s.tUsed &= ~(1u << (v - V_T0)); return; }
}
namespace {
struct Fail { std::string why; };
struct Gen {
  Interp &I; State &A, &B; int t; int k;
  std::map<int, int> ma, mb;                       // coarsening maps of the two states
  std::map<std::pair<int, int>, int> dmMemo;
  std::map<std::pair<Bit, Bit>, Bit> bitMemo;
  std::map<std::pair<uint64_t, uint64_t>, int> ordinal;
  uint64_t salt;
  Aff aff(const Aff &x, const Aff &y) {
    if (x == y) return x;
    Aff d = y - x;
    if (!d.isConst()) { if (proveEQ0(B.cons, d)) return x; throw Fail{"step " + d.str() + " not constant"}; }
    return x + Aff::var(t, d.c);
  }
  int dm(int a, int b) {
    auto key = std::make_pair(a, b);
    auto it = dmMemo.find(key); if (it != dmMemo.end()) return it->second;
    auto conv = [&](int d, std::map<int, int> &m) {
      std::map<int, int> o;
      for (auto &p : dmTab[d].v) { auto q = m.find(p.first); int kk = q == m.end() ? p.first : q->second; if (kk < 0) continue; auto e = o.find(kk); if (e == o.end()) o[kk] = p.second; else if (e->second != p.second) { Aff df = affTab[p.second] - affTab[e->second]; if (!df.isConst() || p.second == AFF_BAD || e->second == AFF_BAD) e->second = AFF_BAD; else if (df.c > 0) e->second = p.second; } }
      return o;
    };
    auto x = conv(a, ma), y = conv(b, mb);
    std::vector<std::pair<int, int>> r;
    std::vector<int> ux, uy;
    for (auto &p : x) { auto q = y.find(p.first); if (q != y.end()) r.push_back({p.first, dep(p.second, q->second)}); else ux.push_back(p.first); }
    for (auto &p : y) if (!x.count(p.first)) uy.push_back(p.first);
    if (ux.size() != uy.size()) throw Fail{"dependence sets do not step uniformly: " + dmStr(a) + " -> " + dmStr(b)};
    for (int kx : ux) {
      SrcKey sx = keyTab[kx]; int found = -1;
      for (int ky : uy) { SrcKey sy = keyTab[ky]; if (sy.buf == sx.buf && sy.type == sx.type && sy.bit == sx.bit && sy.inst == sx.inst) {
        Aff d = sy.idx - sx.idx; if (!d.isConst()) continue;
        // BIT keys: pair positions with equal residue
        if (sx.type == K_BIT) { int64_t st = step(sx.buf); if (st == 0 || d.c != st) continue; }
        found = ky; break; } }
      if (found < 0) throw Fail{"dependence on " + std::string(bufName(sx.buf)) + " does not step uniformly"};
      Aff id = aff(sx.idx, keyTab[found].idx);
      r.push_back({internKey(sx.buf, sx.type, id, sx.bit, sx.inst), dep(x[kx], y[found])});
    }
    std::sort(r.begin(), r.end());
    int id = internDM(r); dmMemo[key] = id; return id;
  }
  std::map<int, int64_t> stepMemo;
  int64_t step(int buf) {
    auto it = stepMemo.find(buf); if (it != stepMemo.end()) return it->second;
    int64_t st = 0;
    if (!A.rd[buf].empty() && !B.rd[buf].empty()) { Aff d = B.rd[buf].back().second - A.rd[buf].back().second; if (d.isConst()) st = d.c; }
    return stepMemo[buf] = st;
  }
  int dep(int a, int b) { if (a == b) return a; if (a == AFF_BAD || b == AFF_BAD) return AFF_BAD; return internAff(aff(affTab[a], affTab[b])); }
  Bit bit(Bit a, Bit b) {
    if (a == b) return a;
    auto key = std::make_pair(a, b);
    auto it = bitMemo.find(key); if (it != bitMemo.end()) return it->second;
    const Form &fa = formTab[a >> 1], &fb = formTab[b >> 1];
    if (fa.l.size() == 1 && fb.l.size() == 1 && ((a ^ b) & 1) == 0) {
      Leaf la = leafTab[fa.l[0]], lb = leafTab[fb.l[0]];
      if (la.kind == L_SRC && lb.kind == L_SRC) {
        SrcKey x = keyTab[la.a], y = keyTab[lb.a];
        if (x.buf == y.buf && x.bit == y.bit && x.inst == y.inst && (y.idx - x.idx).isConst()) return bitMemo[key] = srcBit(x.buf, aff(x.idx, y.idx), x.bit, x.inst) ^ (a & 1);
      }
    }
    uint64_t h = hmix(hmix(hmix(29, bitSh(a)), bitSh(b)), k);
    int ord = ordinal[{bitSh(a), bitSh(b)}]++;
    int d = dm(bitDM(a), bitDM(b));
    uint32_t vars = (1u << t) | fa.vars | fb.vars | dmTab[d].vars;
    Bit r = leafBit(I.mkLeaf(L_PHI, hmix(h, ord), hmix(((uint64_t)t << 40) | (uint64_t)k, salt), d, vars, hmix(hmix(hmix(31, h), ord), hmix(t, salt))));
    return bitMemo[key] = r;
  }
  VP val(const VP &a, const VP &b) {
    if (a == b) return a;
    if (!a || !b) return nullptr;
    if (a->k != b->k || a->w != b->w) throw Fail{"value kinds differ"};
    if (a->k == Val::AGG) { auto r = std::make_shared<Val>(*a); for (size_t i = 0; i < r->el.size(); i++) r->el[i] = val(a->el[i], b->el[i]); return r; }
    if (a->k == Val::PTR) {
      if (a->obj != b->obj || a->num != b->num) throw Fail{"pointers to different objects"};
      if (a->num) return mkPtr(a->obj, aff(a->n, b->n));
      if (a->b != b->b) throw Fail{"unknown pointers"};
      return a;
    }
    if (a->num && b->num && a->w <= 64) {
      if (a->n == b->n) return a;
      // the constants may have been wrapped to the type: take the step modulo 2^w
      Aff d = b->n - a->n;
      if (d.isConst()) { int64_t c = d.c; if (a->w < 64) { uint64_t m = (uint64_t)c << (64 - a->w); c = (int64_t)m >> (64 - a->w); } if (a->w >= 2) return mkNum(a->w, a->n + Aff::var(t, c)); }
      else return mkNum(a->w, aff(a->n, b->n));
    }
    auto x = bitsOf(a), y = bitsOf(b);
    std::vector<Bit> r(x.size());
    for (size_t i = 0; i < r.size(); i++) r[i] = bit(x[i], y[i]);
    return mkBits(r.size(), r);
  }
  void ivs(Ivs &a, const Ivs &b) {
    if (a.size() != b.size()) throw Fail{"access ranges do not step uniformly"};
    for (size_t i = 0; i < a.size(); i++) a[i] = {aff(a[i].first, b[i].first), aff(a[i].second, b[i].second)};
  }
};
}
uint32_t Interp::mkLeaf(int kind, uint64_t a, uint64_t b, int dm, uint32_t vars, uint64_t sh) {
  if (uint32_t *p = findLeaf(kind, a, b)) {
    if (leafTab[*p].dm == dm && leafTab[*p].vars == vars) return *p;
    // same name, different dependence summary (another path): keep both apart
    return mkLeaf(kind, a, hmix(b, hmix(dm, vars)), dm, vars, sh);
  }
  return internLeaf(kind, a, b, dm, vars, sh);
}

// A length that the constraints determine is written through its block count and residue again.
void Interp::resolveLens(SP s, std::vector<SP> &out) {
  for (int b = 0; b < 3; b++) if (s->res[b] < 0) {
    int v = V_LA + b;
    for (auto &c : s->cons) {
      int64_t a = c.coef(v); if (a != 1 && a != -1) continue;
      Aff e = c; e.addTerm(v, -a); if (a > 0) e = -e;
      if (!proveEQ0(s->cons, Aff::var(v) - e)) continue;
      for (auto &q : split(s, v)) resolveLens(q, out);
      return;
    }
  }
  out.push_back(s);
}
bool Interp::symLoop(FnInfo *fi, Loop *L, SP B1, std::vector<Edge> &out, std::vector<Ret> &rets) {
  if (gcfg.noSym) return false;
  if (symLoopMode(fi, L, B1, out, rets)) return true;
  if (lazySplit) return false;
  bool any = false; for (int b = 0; b < 3; b++) if (B1->res[b] == -2) any = true;
  if (!any) return false;
  // once more, leaving the residues of the lengths open inside the general iteration
  std::string w = symWhy;
  struct R_ { bool &b; ~R_() { b = false; } } rr{lazySplit}; lazySplit = true;
  if (symLoopMode(fi, L, B1, out, rets)) return true;
  symWhy = w + " / " + symWhy;
  return false;
}
bool Interp::symLoopMode(FnInfo *fi, Loop *L, SP B1, std::vector<Edge> &out, std::vector<Ret> &rets) {
  std::vector<int> ks{1, 2};
  if (lazySplit) ks.resize(1);
  for (int k : {gcfg.modR, 8, 16, 4, 3}) if (std::find(ks.begin(), ks.end(), k) == ks.end()) ks.push_back(k);
  SP last = std::make_shared<State>(*B1);
  int done = 0;
  std::map<int, SP> after;
  symWhy = "";
  for (int k : ks) {
    // concrete trial iterations (muted)
    const int muteSave = muted; auto csSave = callStack;
    muted++;
    auto ksSave = ksMap; auto tagSave = tagMap;
    bool ok = true;
    try {
      while (!after.count(k)) {
        if (done >= k) { ok = false; break; }
        SP c = std::make_shared<State>(*last);
        std::vector<SP> backs; std::vector<Edge> eo; std::vector<Ret> ro;
        loopBody(fi, L, c, backs, eo, ro);
        if (backs.size() != 1) { ok = false; symWhy = "trial iteration yields " + std::to_string(backs.size()) + " continuing paths"; break; }
        done++; after[done] = std::make_shared<State>(*backs[0]); last = backs[0];
      }
    } catch (Undecided &u) { symWhy = u.why; ok = false; callStack = csSave; muted = muteSave + 1; }
    catch (...) { muted = muteSave; ksMap = ksSave; tagMap = tagSave; throw; }
    muted = muteSave;
    ksMap = ksSave; tagMap = tagSave;
    if (!ok) { if (getenv("ISAPSA_TRACE")) fprintf(stderr, "symLoop %s trial k=%d: %s\n", loc(&*L->getHeader()->getFirstNonPHIOrDbg()).c_str(), k, symWhy.c_str()); return false; }
    SP B2 = after[k];
    uint64_t salt = 0;
    for (int pass = 0; pass < 2; pass++) {
      auto evSave = events; auto eiSave = eventIdx; auto stSave = stats;
      try {
        SP H = std::make_shared<State>(*B1);
        int t = newTVar(*H);
        H->tUsed |= 1u << (t - V_T0);
        Gen g{*this, *B1, *B2, t, k, {}, {}, {}, {}, {}, salt, {}};
        muted++; 
        g.ma = coarsenMap(*B1, true); g.mb = coarsenMap(*B2, true);
        muted--;
        if (B1->frames.size() != B2->frames.size()) throw Fail{"frames"};
        for (int b = 0; b < 3; b++) if (B1->res[b] != B2->res[b]) throw Fail{"length case changes"};
        if (B1->facts != B2->facts) throw Fail{"path facts change"};
        for (size_t f = 0; f < H->frames.size(); f++) for (size_t i = 0; i < H->frames[f].env.size(); i++) H->frames[f].env[i] = g.val(B1->frames[f].env[i], B2->frames[f].env[i]);
        for (auto m = H->mem.begin(); m != H->mem.end();) {
          auto q = B2->mem.find(m->first);
          if (q == B2->mem.end()) { m = H->mem.erase(m); continue; }
          if (q->second != m->second) {
            auto o = std::make_shared<ObjState>(*m->second);
            for (size_t i = 0; i < o->bits.size(); i++) o->bits[i] = g.bit(m->second->bits[i], q->second->bits[i]);
            if (o->slots.size() != q->second->slots.size()) throw Fail{"stored scalars differ"};
            for (auto &sl : o->slots) { auto z = q->second->slots.find(sl.first); if (z == q->second->slots.end()) throw Fail{"stored scalars differ"}; sl.second = g.val(sl.second, z->second); auto x = bitsOf(sl.second); std::copy(x.begin(), x.end(), o->bits.begin() + sl.first * 8); }
            m->second = o;
          }
          ++m;
        }
        for (int b = 0; b < B_NUM; b++) { g.ivs(H->rd[b], B2->rd[b]); g.ivs(H->wr[b], B2->wr[b]); }
        g.ivs(H->wrOut, B2->wrOut);
        if (H->padlog.size() != B2->padlog.size()) throw Fail{"padding inside the loop"};
        for (size_t i = 0; i < H->padlog.size(); i++) H->padlog[i] = g.aff(H->padlog[i], B2->padlog[i]);
        H->wroteM = B1->wroteM || B2->wroteM;
        for (auto &p : B2->inj) H->inj.insert(p);
        // candidate invariants
        Cons cand;
        auto addc = [&](const Aff &c) { if (std::find(cand.begin(), cand.end(), c) == cand.end()) cand.push_back(c); };
        for (auto &c1 : B1->cons) {
          if (proveGE0(B2->cons, c1)) addc(c1);
          for (auto &c2 : B2->cons) { Aff d = c2 - c1; if (d.isConst() && d.c) addc(c1 + Aff::var(t, d.c)); }
        }
        // tightest constant lower bounds of the length quotients, as linear functions of the step
        for (int v : {V_QA, V_QM, V_QN, V_LA, V_LM, V_LN}) {
          auto low = [&](State &S, int64_t &k) { bool has = false; for (auto &c : S.cons) if (c.has(v)) has = true; if (!has) return false; for (k = -1; k < 200 && proveGE0(S.cons, Aff::var(v) - Aff(k + 1)); k++); return k >= 0; };
          int64_t k1, k2; if (!low(*B1, k1) || !low(*B2, k2)) continue;
          addc(Aff::var(v) - Aff(k1)); if (k2 != k1) addc(Aff::var(v) - Aff(k1) + Aff::var(t, k1 - k2));
        }
        addc(Aff::var(t));
        if (proveGE0(cand, Aff(64) - Aff::var(t, k))) { symWhy = "few iterations"; events = evSave; eventIdx = eiSave; stats = stSave; return false; }   // unrolled instead
        SP back; std::vector<Edge> eo; std::vector<Ret> ro;
        bool good = false;
        for (int rnd = 0; rnd < 6 && !good; rnd++) {
          H->cons = cand;
          if (getenv("ISAPSA_TRACE")) { std::string d; for (auto &x : cand) d += x.str() + " | "; fprintf(stderr, "symLoop %s k=%d round %d: %s\n", loc(&*L->getHeader()->getFirstNonPHIOrDbg()).c_str(), k, rnd, d.c_str()); }
          events = evSave; eventIdx = eiSave;
          eo.clear(); ro.clear();
          SP c = std::make_shared<State>(*H);
          for (int i = 0; i < k; i++) {
            std::vector<SP> backs;
            loopBody(fi, L, c, backs, eo, ro);
            if (backs.size() != 1) throw Fail{"the general iteration yields " + std::to_string(backs.size()) + " continuing paths"};
            c = backs[0];
          }
          back = c;
          Cons nc; bool dropped = false;
          for (auto &x : cand) { if (proveGE0(back->cons, x.subst(t, Aff::var(t) + Aff(1)))) nc.push_back(x); else dropped = true; }
          if (dropped) { cand = nc; continue; }
          good = true;
        }
        if (!good) throw Fail{"no inductive length constraints"};
        // the step must reproduce the closed form at t+1
        Aff tp = Aff::var(t) + Aff(1);
        State &S = *back;
        auto mo = coarsenMap(S, true);
        auto eqA = [&](const Aff &h, const Aff &o) { return h.subst(t, tp) == o || proveEQ0(S.cons, h.subst(t, tp) - o); };
        std::map<std::pair<int, int>, bool> dmOk;
        auto eqDM = [&](int h, int o) -> bool {
          auto kk = std::make_pair(h, o); auto it = dmOk.find(kk); if (it != dmOk.end()) return it->second;
          std::map<int, int> y;
          for (auto &p : dmTab[o].v) { auto q = mo.find(p.first); int key = q == mo.end() ? p.first : q->second; if (key < 0) continue; auto e = y.find(key); if (e == y.end()) y[key] = p.second; else if (e->second != p.second) { Aff df = affTab[p.second] - affTab[e->second]; if (!df.isConst()) e->second = AFF_BAD; else if (df.c > 0) e->second = p.second; } }
          std::vector<std::pair<int, int>> yv(y.begin(), y.end());
          int want = dmSubst(h, t, tp), have = internDM(yv);
          bool r = want == have;
          if (!r) symWhy = "dependences after a step are " + dmStr(have) + ", expected " + dmStr(want);
          return dmOk[kk] = r;
        };
        std::map<Bit, Bit> phiOut; uint64_t outHash = 41;
        std::set<Bit> phiBits; for (auto &p : g.bitMemo) phiBits.insert(p.second);
        auto eqBit = [&](Bit h, Bit o) -> bool {
          if (!phiBits.count(h)) { if (substBit(h, t, tp) == o) return true; symWhy = "a loop-invariant value changes: " + bitStr(h) + " -> " + bitStr(o); return false; }
          const Form &f = formTab[h >> 1];
          if (f.l.size() == 1 && leafTab[f.l[0]].kind == L_PHI) {
            auto q = phiOut.find(h);
            if (q == phiOut.end()) { phiOut[h] = o; outHash = hmix(outHash, bitSh(o)); }
            else if (q->second != o) { symWhy = "values that agreed diverge"; return false; }
            return eqDM(bitDM(h), bitDM(o));
          }
          return substBit(h, t, tp) == o;
        };
        std::function<bool(const VP &, const VP &)> eqVal = [&](const VP &h, const VP &o) -> bool {
          if (h == o) return true;
          if (!h) return true;
          if (!o || h->k != o->k || h->w != o->w) return false;
          if (h->k == Val::AGG) { for (size_t i = 0; i < h->el.size(); i++) if (!eqVal(h->el[i], o->el[i])) return false; return true; }
          if (h->k == Val::PTR) return h->obj == o->obj && h->num == o->num && (!h->num || eqA(h->n, o->n));
          if (h->num && o->num) {
            if (eqA(h->n, o->n)) return true;
            Aff d = h->n.subst(t, tp) - o->n;
            return h->w < 64 && d.isConst() && ((uint64_t)d.c << (64 - h->w)) == 0;
          }
          auto x = bitsOf(h), y = bitsOf(o);
          for (size_t i = 0; i < x.size(); i++) if (!eqBit(x[i], y[i])) return false;
          return true;
        };
        auto need = [&](bool c, const std::string &w) { if (!c) throw Fail{w + (symWhy.empty() ? "" : ": " + symWhy)}; };
        symWhy = "";
        for (size_t f = 0; f < H->frames.size(); f++) for (size_t i = 0; i < H->frames[f].env.size(); i++) need(eqVal(H->frames[f].env[i], S.frames[f].env[i]), "a variable of " + H->frames[f].F->getName().str() + " does not follow its closed form");
        for (auto &m : H->mem) {
          auto q = S.mem.find(m.first);
          need(q != S.mem.end(), "object lifetime");
          if (q->second == m.second) continue;
          for (auto &sl : m.second->slots) { auto z = q->second->slots.find(sl.first); need(z != q->second->slots.end() && eqVal(sl.second, z->second), "a stored scalar does not follow its closed form"); }
          std::vector<char> skip(m.second->bits.size(), 0);
          for (auto &sl : m.second->slots) for (uint32_t i = 0; i < sl.second->w; i++) skip[sl.first * 8 + i] = 1;
          for (size_t i = 0; i < m.second->bits.size(); i++) if (!skip[i]) need(eqBit(m.second->bits[i], q->second->bits[i]), "the contents of " + objs[m.first].name + " do not follow their closed form");
        }
        auto eqIv = [&](const Ivs &h, const Ivs &o) { if (h.size() != o.size()) return false; for (size_t i = 0; i < h.size(); i++) if (!eqA(h[i].first, o[i].first) || !eqA(h[i].second, o[i].second)) return false; return true; };
        for (int b = 0; b < B_NUM; b++) need(eqIv(H->rd[b], S.rd[b]) && eqIv(H->wr[b], S.wr[b]), std::string("accesses to ") + bufName(b) + " do not advance uniformly");
        need(eqIv(H->wrOut, S.wrOut), "output accesses do not advance uniformly");
        need(H->padlog.size() == S.padlog.size(), "padding inside the loop");
        for (size_t i = 0; i < H->padlog.size(); i++) need(eqA(H->padlog[i], S.padlog[i]), "padding inside the loop");
        need(H->facts == S.facts, "path facts change");
        // (a symbolic PHI leaf inside path facts of the back edge would need a closed form of its own)
        if (pass == 0) { salt = outHash; events = evSave; eventIdx = eiSave; stats = stSave; continue; }
        bool lz = lazySplit;
        for (auto &e : eo) {
          if (infeasible(e.st->cons, nullptr, 0)) continue;
          std::vector<SP> ss; if (lz) resolveLens(e.st, ss); else ss.push_back(e.st);
          for (auto &q : ss) { pinVar(*q, t); if (!infeasible(q->cons, nullptr, 0)) out.push_back({e.from, e.to, q}); }
        }
        for (auto &r : ro) { pinVar(*r.st, t); rets.push_back(r); }
        return true;
      } catch (Undecided &u) {
        callStack = csSave; muted = muteSave; symWhy = u.why;
        if (getenv("ISAPSA_TRACE")) fprintf(stderr, "symLoop %s k=%d: undecided: %s\n", loc(&*L->getHeader()->getFirstNonPHIOrDbg()).c_str(), k, u.why.c_str());
        events = evSave; eventIdx = eiSave; stats = stSave; ksMap = ksSave; tagMap = tagSave;
        break;
      } catch (Fail &f) {
        symWhy = f.why; muted = muteSave; callStack = csSave;
        if (getenv("ISAPSA_TRACE")) fprintf(stderr, "symLoop %s k=%d: %s\n", loc(&*L->getHeader()->getFirstNonPHIOrDbg()).c_str(), k, f.why.c_str());
        events = evSave; eventIdx = eiSave; stats = stSave; ksMap = ksSave; tagMap = tagSave;
        break;
      }
    }
  }
  return false;
}

// ------------------------------------------------------------------ merging
namespace {
struct MFail { const char *why; };
struct Merger {
  Interp &I; State &A, &B; SP out;
  int diff = -1; int L = 0, q = 0, R = 8; bool splitA = false, splitB = false; int ra = 0, rb = 0;
  std::map<int, int> ma, mb;
  std::map<std::pair<int, int>, int> dmMemo;
  int complA[B_NUM], complB[B_NUM]; bool haveC[B_NUM];
  Aff lenOf(int r) { return Aff::var(q, R) + Aff(r); }
  bool uni(const Aff &x, const Aff &y, Aff &o) {
    if (x == y) { o = x; return true; }
    if (diff >= 0) {
      if (splitA && splitB) { Aff d = y - x; if (d.isConst() && d.c % (rb - ra) == 0) { int64_t m = d.c / (rb - ra); Aff c = x - lenOf(ra) * m + Aff::var(L, m); if (std::abs(m) <= 64) { if (!proveEQ0(A.cons, x - y) && !proveEQ0(B.cons, x - y)) { o = c; return true; } } } }
      else if (splitB) { if (x.has(L)) { Aff z = x.subst(L, lenOf(rb)); if (z == y || proveEQ0(B.cons, z - y)) { o = x; return true; } } }
      else if (splitA) { if (y.has(L)) { Aff z = y.subst(L, lenOf(ra)); if (z == x || proveEQ0(A.cons, z - x)) { o = y; return true; } } }
    }
    if (!(splitB == false && diff >= 0 && y.has(L) && splitA) && proveEQ0(A.cons, x - y)) { o = y; return true; }
    if (proveEQ0(B.cons, x - y)) { o = x; return true; }
    Aff d = y - x;
    if (d.isConst()) for (int v : {V_QA, V_QM, V_QN}) {
      Aff k1, k2;
      if (!pin(0, v, k1) || !pin(1, v, k2)) continue;
      if (k1.c == k2.c || d.c % (k2.c - k1.c)) continue;
      o = x + (Aff::var(v) - k1) * (d.c / (k2.c - k1.c)); return true;
    }
    return false;
  }
  std::map<std::pair<int, int>, std::pair<bool, Aff>> pinMemo;
  bool pin(int side, int v, Aff &k) {
    auto key = std::make_pair(side, v); auto it = pinMemo.find(key);
    if (it == pinMemo.end()) { Aff x; State &S = side ? B : A; bool has = false; for (auto &c : S.cons) if (c.has(v)) has = true; bool r = has && I.pinValue(S, Aff::var(v), x); it = pinMemo.insert({key, {r, x}}).first; }
    k = it->second.second; return it->second.first;
  }
  int dep(int a, int b) { if (a == b) return a; if (a == AFF_BAD || b == AFF_BAD) return AFF_BAD; Aff o; if (!uni(affTab[a], affTab[b], o) || o.has(V_LA) || o.has(V_LM) || o.has(V_LN)) throw MFail{"round depths differ"}; return internAff(o); }
  std::map<int, int> conv(int d, std::map<int, int> &m) {
    std::map<int, int> o;
    for (auto &p : dmTab[d].v) { auto qq = m.find(p.first); int kk = qq == m.end() ? p.first : qq->second; if (kk < 0) continue; auto e = o.find(kk); if (e == o.end()) o[kk] = p.second; else if (e->second != p.second) { Aff df = affTab[p.second] - affTab[e->second]; if (!df.isConst()) e->second = AFF_BAD; else if (df.c > 0) e->second = p.second; } }
    return o;
  }
  bool stream(int b) { return b == B_AD || b == B_C || b == B_IN; }
  int compl_(int side, int b) { if (!haveC[b]) { haveC[b] = true; std::string w; complA[b] = I.completeness(A, b, w); complB[b] = I.completeness(B, b, w); } return side ? complB[b] : complA[b]; }
  // the block was XORed in on both paths (at other positions of the state) and no round has followed yet
  std::set<int> fresh[2]; bool haveFresh[2] = {false, false};
  bool freshlyInjected(int side, int key, int depth) {
    if (depth == AFF_BAD || !(affTab[depth] == Aff(0))) return false;
    if (!haveFresh[side]) {
      haveFresh[side] = true; std::set<int> ds; I.liveDMs(side ? B : A, ds);
      for (int d : ds) for (auto &p : conv(d, side ? mb : ma)) if (p.second != AFF_BAD && affTab[p.second] == Aff(0)) fresh[side].insert(p.first);
    }
    return fresh[side].count(key);
  }
  int dm(int a, int b) {
    auto key = std::make_pair(a, b); auto it = dmMemo.find(key); if (it != dmMemo.end()) return it->second;
    auto x = conv(a, ma), y = conv(b, mb);
    std::vector<std::pair<int, int>> r; std::vector<int> ux, uy;
    for (auto &p : x) { auto z = y.find(p.first); if (z != y.end()) r.push_back({p.first, dep(p.second, z->second)}); else ux.push_back(p.first); }
    for (auto &p : y) if (!x.count(p.first)) uy.push_back(p.first);
    for (int &kx : ux) {
      SrcKey sx = keyTab[kx];
      for (int &ky : uy) if (ky >= 0) {
        SrcKey sy = keyTab[ky];
        if (sy.buf != sx.buf || sy.type != sx.type || sy.bit != sx.bit || sy.inst != sx.inst) continue;
        Aff o; Aff d = sy.idx - sx.idx; bool okk = false;
        if (proveEQ0(A.cons, d)) { o = sy.idx; okk = true; } else if (proveEQ0(B.cons, d)) { o = sx.idx; okk = true; } else if (sx.type == K_BLOCK && uni(sx.idx, sy.idx, o) && !o.has(V_LA) && !o.has(V_LM) && !o.has(V_LN)) okk = true;
        if (!okk) continue;
        r.push_back({internKey(sx.buf, sx.type, o, sx.bit, sx.inst), dep(x[kx], y[ky])});
        kx = -1; ky = -1; break;
      }
    }
    // single key/nonce bits on one side that the other side's complete group covers
    for (int side = 0; side < 2; side++) for (int &kk : side ? uy : ux) if (kk >= 0) {
      SrcKey s = keyTab[kk];
      if (s.type != K_BIT || (s.buf != B_K && s.buf != B_N)) continue;
      auto &mine = side ? y : x, &other = side ? x : y;
      int g = internKey(s.buf, K_GROUP, Aff(0), -1, s.inst);
      auto og = other.find(g); if (og == other.end() || mine.count(g)) continue;
      if (og->second == AFF_BAD || mine[kk] == AFF_BAD) continue;
      Aff o; const Aff &dm_ = affTab[mine[kk]], &dg = affTab[og->second];
      State &S = side ? B : A;
      if (proveEQ0(S.cons, dm_ - dg)) kk = -1;   // equal on the path where the bit occurs
    }
    for (int side = 0; side < 2; side++) for (int kk : side ? uy : ux) if (kk >= 0) {
      SrcKey s = keyTab[kk];
      if (stream(s.buf)) { bool tag = s.buf == B_C && (s.idx - A.lenM).isConst(); if (!tag && ((compl_(0, s.buf) & 1) == 0 || (compl_(1, s.buf) & 1) == 0)) throw MFail{"input not completely absorbed on both paths"};
        if (!tag && s.type == K_BLOCK && (dmTab[a].mask >> B_N & 1) && (dmTab[b].mask >> B_N & 1) && !phantomKey(side ? A : B, s) && !freshlyInjected(side ? 0 : 1, kk, side ? y[kk] : x[kk])) { if (getenv("ISAPSA_MERGE")) { fprintf(stderr, "  key %s#%s only on side %d: %s | %s\n", bufName(s.buf), s.idx.str().c_str(), side, dmStr(a).c_str(), dmStr(b).c_str()); for (State *z : {&A, &B}) { std::string d; for (auto &c : z->cons) d += c.str() + ", "; fprintf(stderr, "     res %d [%d,%d] %s\n", z->res[0], z->rlo[0], z->rhi[0], d.c_str()); } } throw MFail{"a block is tracked on one path only"}; } }
      r.push_back({kk, side ? y[kk] : x[kk]});
    }
    std::sort(r.begin(), r.end());
    for (size_t i = 0; i + 1 < r.size();) if (r[i].first == r[i + 1].first) { if (r[i].second != r[i + 1].second) r[i].second = AFF_BAD; r.erase(r.begin() + i + 1); } else i++;
    int id = internDM(r); dmMemo[key] = id; return id;
  }
  Bit bit(Bit a, Bit b) {
    if (a == b) return a;
    int d = dm(bitDM(a), bitDM(b));
    uint32_t vars = formTab[a >> 1].vars | formTab[b >> 1].vars | dmTab[d].vars;
    return leafBit(I.mkLeaf(L_JOIN, a, b, d, vars, hmix(hmix(23, bitSh(a)), bitSh(b))));
  }
  VP val(const VP &a, const VP &b) {
    if (a == b) return a;
    if (!a || !b) return nullptr;
    if (a->k != b->k || a->w != b->w) throw MFail{"kinds"};
    if (a->k == Val::AGG) { auto r = std::make_shared<Val>(*a); for (size_t i = 0; i < r->el.size(); i++) r->el[i] = val(a->el[i], b->el[i]); return r; }
    if (a->k == Val::PTR) {
      if (a->obj != b->obj || a->num != b->num) throw MFail{"pointers"};
      if (!a->num) { if (a->b == b->b) return a; throw MFail{"pointers"}; }
      Aff o; if (!uni(a->n, b->n, o)) throw MFail{"pointer offsets"};
      return mkPtr(a->obj, o);
    }
    if (a->num && b->num) { Aff o; if (!uni(a->n, b->n, o)) throw MFail{"scalars"}; return mkNum(a->w, o); }
    if ((a->num && !a->n.isConst()) || (b->num && !b->n.isConst())) throw MFail{"scalars"};
    if (a->w <= 64 && (a->num || b->num) && !(I.dataDep(a) || I.dataDep(b))) throw MFail{"scalars"};
    auto x = bitsOf(a), y = bitsOf(b); std::vector<Bit> r(x.size());
    for (size_t i = 0; i < r.size(); i++) r[i] = bit(x[i], y[i]);
    return mkBits(r.size(), r);
  }
  void ivs(const Ivs &x, const Ivs &y, Ivs &o) {
    Ivs a = x, b = y;
    auto emptyless = [](State &S, Ivs &v) { for (size_t i = 0; i < v.size();) if (proveEQ0(S.cons, v[i].second - v[i].first)) v.erase(v.begin() + i); else i++; };
    emptyless(A, a); emptyless(B, b);
    if (a.empty() && b.size() == 1) { Aff l = b[0].first; if (proveEQ0(A.cons, b[0].second - l)) { o = b; return; } a.push_back({l, l}); }
    else if (b.empty() && a.size() == 1) b.push_back({a[0].first, a[0].first});
    if (a.size() != b.size()) throw MFail{"access ranges"};
    o.clear();
    for (size_t i = 0; i < a.size(); i++) { Aff l, h; if (!uni(a[i].first, b[i].first, l) || !uni(a[i].second, b[i].second, h)) throw MFail{"access ranges"}; o.push_back({l, h}); }
  }
  SP run() {
    std::memset(haveC, 0, sizeof haveC);
    if (A.frames.size() != B.frames.size() || A.wroteM != B.wroteM || A.verdict != B.verdict || A.facts != B.facts || A.padlog.size() != B.padlog.size() || A.tUsed != B.tUsed) throw MFail{"shape"};
    for (size_t f = 0; f < A.frames.size(); f++) if (A.frames[f].F != B.frames[f].F || A.frames[f].inst != B.frames[f].inst) throw MFail{"frames"};
    for (int b = 0; b < 3; b++) {
      if (A.res[b] == B.res[b] && (A.res[b] != -2 || (A.rlo[b] == B.rlo[b] && A.rhi[b] == B.rhi[b]))) continue;
      if (diff >= 0) throw MFail{"several lengths differ"};
      diff = b;
    }
    State A2, B2;
    if (diff >= 0) {
      L = V_LA + diff; q = V_QA + diff; R = (diff == 2) ? 8 : gcfg.modR;
      auto prep = [&](State &S, bool &sp, int &r) {
        if (S.res[diff] >= 0) { sp = true; r = S.res[diff]; return; }
        if (S.res[diff] == -1) {
          S.res[diff] = -2; S.rlo[diff] = 0; S.rhi[diff] = R - 1;
          S.cons.push_back(Aff::var(q)); S.cons.push_back(Aff::var(L) - Aff::var(q, R)); S.cons.push_back(Aff::var(q, R) + Aff(R - 1) - Aff::var(L));
        }
      };
      prep(A, splitA, ra); prep(B, splitB, rb);
      if (splitA && splitB && ra == rb) throw MFail{"?"};
      int buf = diff == 0 ? B_AD : diff == 1 ? B_C : B_IN;
      int ca = compl_(0, buf), cb = compl_(1, buf);
      // either nothing of this input has been absorbed on both paths, or all of it
      if (!((ca == 0 && cb == 0) || (ca == 1 && cb == 1) || (ca == 3 && cb == 1) || (ca == 1 && cb == 3) || (ca == 3 && cb == 3) || (ca == 0 && cb == 3) || (ca == 3 && cb == 0))) throw MFail{"input not completely absorbed"};
    }
    I.muted++;
    try { ma = I.coarsenMap(A, true); mb = I.coarsenMap(B, true); } catch (...) { I.muted--; throw; }
    I.muted--;
    out = std::make_shared<State>(A);
    for (size_t f = 0; f < A.frames.size(); f++) for (size_t i = 0; i < A.frames[f].env.size(); i++) out->frames[f].env[i] = val(A.frames[f].env[i], B.frames[f].env[i]);
    for (auto m = out->mem.begin(); m != out->mem.end();) {
      auto z = B.mem.find(m->first);
      if (z == B.mem.end()) { if (I.objs[m->first].role == R_LENP) throw MFail{"length output"}; if (I.objs[m->first].role == R_LOCAL) { m = out->mem.erase(m); continue; } ++m; continue; }
      if (z->second != m->second) {
        auto o = std::make_shared<ObjState>(); OSP x = m->second, y = z->second;
        o->bits.resize(x->bits.size());
        std::vector<char> skip(o->bits.size(), 0);
        for (auto &sl : x->slots) {
          auto w = y->slots.find(sl.first); VP other;
          if (w != y->slots.end() && w->second->w == sl.second->w) other = w->second;
          else if (sl.second->k == Val::INT) other = mkBits(sl.second->w, std::vector<Bit>(y->bits.begin() + sl.first * 8, y->bits.begin() + sl.first * 8 + sl.second->w));
          else continue;
          VP u = val(sl.second, other); o->slots[sl.first] = u; auto xb = bitsOf(u); std::copy(xb.begin(), xb.end(), o->bits.begin() + sl.first * 8);
          for (uint32_t i = 0; i < u->w; i++) skip[sl.first * 8 + i] = 1;
        }
        for (auto &sl : y->slots) if (!o->slots.count(sl.first) && sl.second->k == Val::INT) {
          VP u = val(mkBits(sl.second->w, std::vector<Bit>(x->bits.begin() + sl.first * 8, x->bits.begin() + sl.first * 8 + sl.second->w)), sl.second);
          o->slots[sl.first] = u; auto xb = bitsOf(u); std::copy(xb.begin(), xb.end(), o->bits.begin() + sl.first * 8);
          for (uint32_t i = 0; i < u->w; i++) skip[sl.first * 8 + i] = 1;
        }
        for (size_t i = 0; i < o->bits.size(); i++) if (!skip[i]) o->bits[i] = bit(x->bits[i], y->bits[i]);
        m->second = o;
      }
      ++m;
    }
    for (auto &m : B.mem) if (!A.mem.count(m.first)) { if (I.objs[m.first].role == R_LENP) throw MFail{"length output"}; if (I.objs[m.first].role != R_LOCAL) out->mem[m.first] = m.second; }
    for (int b = 0; b < B_NUM; b++) { ivs(A.rd[b], B.rd[b], out->rd[b]); ivs(A.wr[b], B.wr[b], out->wr[b]); }
    ivs(A.wrOut, B.wrOut, out->wrOut);
    for (size_t i = 0; i < A.padlog.size(); i++) { Aff o; if (!uni(A.padlog[i], B.padlog[i], o)) throw MFail{"padding"}; out->padlog[i] = o; }
    for (auto &p : B.inj) out->inj.insert(p);
    auto ul = [&](const Aff &x, const Aff &y) { Aff o; if (!uni(x, y, o)) throw MFail{"lengths"}; return o; };
    out->lenA = ul(A.lenA, B.lenA); out->lenM = ul(A.lenM, B.lenM); out->lenN = ul(A.lenN, B.lenN);
    // constraints
    Cons nc;
    auto holds = [&](State &S, bool sp, int r, const Aff &c) { Aff x = (diff >= 0 && sp) ? c.subst(L, lenOf(r)) : c; return proveGE0(S.cons, x); };
    auto addc = [&](const Aff &c0) { Aff c = normCons(c0); if (c.isConst()) return; if (std::find(nc.begin(), nc.end(), c) != nc.end()) return; if (holds(A, splitA, ra, c) && holds(B, splitB, rb, c)) nc.push_back(c); };
    for (auto &c : A.cons) addc(c);
    for (auto &c : B.cons) addc(c);
    if (diff >= 0) {   // the tightest constant lower bound of the length itself
      int64_t kb = -1;
      for (int64_t k = 1; k < 300; k++) { Aff c = Aff::var(L) - Aff(k); if (!holds(A, splitA, ra, c) || !holds(B, splitB, rb, c)) break; kb = k; }
      if (kb > 0) addc(Aff::var(L) - Aff(kb));
      auto upper = [&](int64_t k) { Aff c = Aff(k) - Aff::var(L); return holds(A, splitA, ra, c) && holds(B, splitB, rb, c); };
      if (upper(300)) { int64_t lo = 0, hi = 300; while (lo < hi) { int64_t m = (lo + hi) / 2; if (upper(m)) hi = m; else lo = m + 1; } addc(Aff(hi) - Aff::var(L)); }
    }
    if (diff >= 0 && splitA && splitB) for (auto &c1 : A.cons) for (auto &c2 : B.cons) { Aff d = c2 - c1; if (d.isConst() && d.c && d.c % (rb - ra) == 0) { int64_t m = d.c / (rb - ra); if (std::abs(m) <= 8) addc(c1 - lenOf(ra) * m + Aff::var(L, m)); } }
    for (int v : {V_QA, V_QM, V_QN, V_LA, V_LM, V_LN}) addc(Aff::var(v));
    if (diff >= 0) {
      int lo = std::min(splitA ? ra : A.rlo[diff], splitB ? rb : B.rlo[diff]), hi = std::max(splitA ? ra : A.rhi[diff], splitB ? rb : B.rhi[diff]);
      addc(Aff::var(L) - Aff::var(q, R) - Aff(lo)); addc(Aff::var(q, R) + Aff(hi) - Aff::var(L));
      out->res[diff] = -2; out->rlo[diff] = lo; out->rhi[diff] = hi;
      for (int64_t k : {1, 2, 8}) addc(Aff::var(L) - Aff(k));
      addc(Aff(gcfg.lmax) - Aff::var(L));
    }
    // drop redundant constraints
    for (size_t i = nc.size(); i-- > 0;) { Aff c = nc[i]; Cons o = nc; o.erase(o.begin() + i); if (proveGE0(o, c)) nc = o; }
    out->cons = nc;
    return out;
  }
};
}
SP Interp::tryMerge(const SP &a, const SP &b, const std::string &site) {
  stats["merge_attempts"]++;
  if (a->frames.size() != b->frames.size() || a->wroteM != b->wroteM || a->verdict != b->verdict || a->padlog.size() != b->padlog.size() || a->tUsed != b->tUsed || a->facts != b->facts) return nullptr;
  { int nd = 0; for (int i = 0; i < 3; i++) if (!(a->res[i] == b->res[i] && (a->res[i] != -2 || (a->rlo[i] == b->rlo[i] && a->rhi[i] == b->rhi[i])))) nd++; if (nd > 1) return nullptr; }
  State A = *a, B = *b;
  Merger m{*this, A, B};
  try {
    SP r = m.run(); stats["merges"]++;
    if (const char *w = getenv("ISAPSA_MERGEOK")) if (site.find(w) == 0) {
      auto cs = [](State &s) { std::string d; for (auto &c : s.cons) d += c.str() + ", "; for (int b : {B_AD, B_C}) { d += b == B_AD ? " rdA" : " rdC"; for (auto &p : s.rd[b]) d += " [" + p.first.str() + "," + p.second.str() + ")"; } return d; };
      auto dd = [&](State &s) { std::set<int> ds; liveDMs(s, ds); std::string d; for (int x : ds) if (dmTab[x].v.size() < 6) d += dmStr(x); return d.substr(0, 300); };
      fprintf(stderr, "MERGED %s\n   A %s %s\n   B %s %s\n   -> %s %s\n", site.c_str(), cs(A).c_str(), dd(A).c_str(), cs(B).c_str(), dd(B).c_str(), cs(*r).c_str(), dd(*r).c_str());
    }
    return r;
  }
  catch (MFail &f) { if (getenv("ISAPSA_MERGE")) fprintf(stderr, "no merge at %s: %s\n", site.c_str(), f.why); return nullptr; }
}
void Interp::mergeList(std::vector<SP> &v, const std::string &site) {
  if (v.size() < 2) return;
  bool tdiff = false; for (auto &s : v) if (s->tUsed != v[0]->tUsed) tdiff = true;
  if (tdiff) for (auto &s : v) for (int t = V_T0; t <= V_TMAX; t++) if (s->tUsed >> (t - V_T0) & 1) pinVar(*s, t);
  std::stable_sort(v.begin(), v.end(), [](const SP &x, const SP &y) { return std::make_tuple(x->res[0], x->res[1], x->res[2]) < std::make_tuple(y->res[0], y->res[1], y->res[2]); });
  bool ch = true;
  while (ch && v.size() > 1) {
    ch = false;
    for (size_t i = 0; i < v.size() && !ch; i++) for (size_t j = i + 1; j < v.size() && !ch; j++) {
      SP m = tryMerge(v[i], v[j], site);
      if (m) { v[i] = m; v.erase(v.begin() + j); ch = true; }
    }
  }
}
void Interp::mergeRets(std::vector<Ret> &r, const std::string &site) {
  std::vector<SP> v;
  bool val = r[0].v != nullptr;
  for (auto &x : r) { if (val) x.st->frames.back().env.push_back(x.v); v.push_back(x.st); }
  mergeList(v, site + ":return");
  r.clear();
  for (auto &s : v) { VP x; if (val) { x = s->frames.back().env.back(); s->frames.back().env.pop_back(); } r.push_back({x, s}); }
}
