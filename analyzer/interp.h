// Abstract machine of the ISAP static analyser.
#pragma once
#include "domain.h"
#include <unordered_map>
#include <unordered_set>
#include "llvm/IR/BasicBlock.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/LoopInfo.h"
using namespace llvm;

struct Val;
typedef std::shared_ptr<const Val> VP;
struct Val {
  enum Kind { INT, PTR, AGG } k = INT;
  uint32_t w = 0;          // width in bits
  bool num = false;        // INT: value == n (mod 2^w); PTR: offset == n
  Aff n;
  std::vector<Bit> b;      // INT: bits (may be empty when num); PTR with unknown offset: bits the offset depends on
  int obj = -1;            // PTR
  std::vector<VP> el;      // AGG
  bool hasInd = false;     // INT: value == indc + sum(inds)
  std::vector<Bit> inds; int64_t indc = 0;
};
VP mkNum(uint32_t w, const Aff &n);
VP mkBits(uint32_t w, std::vector<Bit> b);
VP mkPtr(int obj, const Aff &off);
VP mkPtrUnknown(int obj, std::vector<Bit> deps);
std::vector<Bit> bitsOf(const VP &v);

enum Role { R_K, R_N, R_AD, R_M, R_C, R_LENP, R_IN, R_OUT, R_NSEC, R_LOCAL, R_CONST, R_GLOBAL };
struct ObjDesc { std::string name; int role; int64_t size; const void *origin; std::string fn; bool isStatic; std::string site; };

struct ObjState { std::vector<Bit> bits; std::map<int, VP> slots; };
typedef std::shared_ptr<ObjState> OSP;
typedef std::vector<std::pair<Aff, Aff>> Ivs;

struct FnInfo;
struct Frame {
  Function *F = nullptr; FnInfo *fi = nullptr;
  std::vector<VP> env;
  std::vector<int> objs;
  int inst = 0;            // interned call string
  uint64_t stackBytes = 0;
};
struct State {
  std::vector<Frame> frames;
  std::map<int, OSP> mem;
  Cons cons;
  std::set<Bit> facts;              // bits known to be 1 on this path (data-dependent conditions)
  Ivs rd[B_NUM], wr[B_NUM];
  Ivs wrOut;
  std::vector<Aff> padlog;          // times (nonce depth) of single constant-bit injections into the MAC state
  std::map<std::tuple<int, int, int>, Bit> inj;  // (key instance, class, key-depth aff id) -> injected bit
  Aff lenA, lenM, lenN;
  int rlo[3] = {0, 0, 0}, rhi[3] = {0, 0, 0};
  int res[3] = {-1, -1, -1};        // residues of LA, LM, LN: -1 not split, -2 joined
  int loopDepth = 0;
  int nextObj = 0;
  bool verdict = false, wroteM = false, outStarted = false; uint32_t tUsed = 0;
};
typedef std::shared_ptr<State> SP;

struct FnInfo {
  Function *F;
  DominatorTree DT; LoopInfo LI;
  std::vector<BasicBlock *> rpo;
  std::map<BasicBlock *, int> rpoIdx;
  std::unordered_map<const Value *, int> id;   // slot of each value; slots from n on are local to a block
  std::unordered_map<const BasicBlock *, int> nloc;
  int n = 0;
  std::map<BasicBlock *, std::vector<bool>> liveIn, liveOut;
  std::map<const Instruction *, std::vector<bool>> liveAfter;
};

struct Event { std::string kind, fn, loc, detail; bool definite; long count; std::string root; int wa = -2, wm = -2; };   // wa, wm: smallest lengths on this path (-1: larger than 4096, -2: unknown)
struct Spec { std::string alg; int R, sH, sB, sE, sK, state; bool keccak; };
struct Cfg {
  Spec spec; int modR = 8; int ptrBits = 64; std::string variant, root; bool encrypt = false, decrypt = false, hash = false; int shortLen = -1; bool use = false; int fixA = -1, fixM = -1, fixN = -1;
  int64_t lmax = (int64_t)1 << 56; long maxSteps = 200000000; bool noSym = false;
};
extern Cfg gcfg;
struct SplitNeeded { int which; };       // the value needs the residue of a length modulo the block size
struct StopRoot {};   // a too short ciphertext was processed: nothing further to learn
struct Undecided { std::string why; };   // thrown when the abstraction is too weak for this code

struct AsmFunc;  // parsed .s function
bool phantomKey(State &s, const SrcKey &k);
std::string whichLen(State &s, const Aff &e);
struct Interp {
  Module &M; const DataLayout &DL;
  std::map<Function *, std::unique_ptr<FnInfo>> fns;
  std::vector<ObjDesc> objs;
  std::map<const GlobalVariable *, int> gobj;
  std::vector<Event> events; std::map<std::string, size_t> eventIdx;
  std::map<std::string, long> stats; int muted = 0; long nInst = 0, nAcc = 0; std::unordered_set<const Instruction *> accessInsts;
  std::map<std::pair<int, int>, std::set<uint64_t>> encTags;   // value numbers of the tag bits written by encryption
  std::set<std::string> fnsSeen, loopsSeen, branchesSeen, accessSites, externs, asmSeen;
  std::map<std::vector<std::string>, int> instIds; std::vector<std::vector<std::string>> instTab;
  std::vector<std::set<int>*> readSets;
  std::map<std::string, AsmFunc *> asmFuncs;
  SP curS; const State *curRaw = nullptr; Cons evCons;
  struct RawS { const State *&p; const State *o; RawS(const State *&q, const State *n) : p(q), o(q) { p = n; } ~RawS() { p = o; } };
  void eventWitness(Event &e);
  const Instruction *curI = nullptr; std::string asmLoc, asmFn;
  long depthGuard = 0; uint64_t maxStack = 0;
  std::vector<Function *> callStack;
  bool needEnc = false; std::set<std::string> ksFns;   // functions during which keystream bytes are written

  // recorded output facts, keyed (offset-or-index, bit)
  typedef std::map<std::string, std::set<uint64_t>> OutMap;
  OutMap ksMap, tagMap;
  std::map<std::string, std::string> ksSample;

  Interp(Module &m) : M(m), DL(m.getDataLayout()) {}
  FnInfo *info(Function *F);
  std::string loc(const Instruction *I);
  void checkAlign(const VP &p, unsigned align);
  void event(const char *kind, bool definite, const std::string &detail);
  int instOf(const std::vector<std::string> &cs);

  // memory
  std::map<std::tuple<const void *, int, int64_t, std::string>, int> objIdx; std::map<std::pair<int, bool>, OSP> fresh;
  int newObj(State &s, const ObjDesc &d, bool uninit);
  int globalObj(State &s, const GlobalVariable *G);
  bool sizeOfObj(State &s, int o, Aff &sz);
  bool checkBounds(State &s, const VP &p, const Aff &off, uint64_t n, bool write);
  VP load(State &s, const VP &p, uint32_t bits, bool wantPtr, bool &dead, unsigned align = 0);
  void store(State &s, const VP &p, const VP &v, bool &dead, unsigned align = 0);
  VP loadTyped(State &s, const VP &p, Type *T, bool &dead);
  bool globalNeverWritten(const GlobalVariable *G);
  bool witness(const Cons &cs, const Aff &e, std::string &w);
  bool pinValue(State &s, const Aff &e, Aff &out);
  bool dataDepBits(const std::vector<Bit> &v);
  void storeTyped(State &s, const VP &p, const VP &v, Type *T, bool &dead);
  void copyMem(State &s, const VP &d, const VP &src, int64_t n, bool &dead);
  void noteRead(State &s, int buf, const Aff &off, int64_t n);
  void noteWrite(State &s, Ivs &iv, const Aff &off, int64_t n);
  void addIv(State &s, Ivs &iv, const Aff &off, int64_t n, bool &overlap);
  void outByte(State &s, int role, const Aff &off, const Bit *b);
  Aff extent(State &s, int role);

  // values
  VP constVal(State &s, const Constant *c);
  VP get(State &s, const Value *v);
  void set(State &s, const Value *v, VP x);
  VP binop(State &s, unsigned opc, const VP &a, const VP &b, uint32_t w, uint32_t elw);
  VP castTo(State &s, unsigned opc, const VP &a, Type *from, Type *to);
  Bit xorHook(State &s, Bit a, Bit b);
  Bit andHook(State &s, Bit a, Bit b);
  void checkSmear(State &s, const std::vector<Bit> &x, const std::vector<Bit> &y, uint32_t w);
  VP xorVal(State &s, const VP &a, const VP &b, uint32_t w, uint32_t elw);
  VP andVal(State &s, const VP &a, const VP &b, uint32_t w);
  VP orVal(State &s, const VP &a, const VP &b, uint32_t w);
  VP opaque(uint32_t w, const char *tag, const std::vector<VP> &ops);
  bool dataDep(const VP &v);
  bool dataDepBit(Bit b);
  int keyDepth(int dm);
  int nonceDepth(int dm);

  // predicates on lengths
  bool inRange(State &s, const VP &v, bool sgn, Aff &out);
  void icmp(SP s, unsigned pred, const VP &a, const VP &b, std::vector<std::pair<SP, VP>> &out);
  void forkGE0(SP s, const Aff &e, std::vector<std::pair<SP, bool>> &out);
  void forkEQ0(SP s, const Aff &e, std::vector<std::pair<SP, bool>> &out);
  bool needSplit(State &s, const Aff &e, int &which);
  std::vector<SP> split(SP s, int which);
  bool refine(State &s, const Aff &ge0);
  void substAll(State &s, int var, const Aff &e);
  bool assumeTrue(State &s, Bit b);
  int factValue(State &s, Bit b);
  void symCopy(State &S, const VP &d, const VP &src, const VP &n, CallBase *CB);
  long steps = 0;

  // control
  struct Edge { BasicBlock *from, *to; SP st; };
  struct Ret { VP v; SP st; };
  void execBlock(SP s, BasicBlock *bb, std::vector<Edge> &out, std::vector<Ret> &rets);
  void execInst(SP s, Instruction *I, std::vector<SP> &out);
  void execRegion(FnInfo *fi, Loop *L, BasicBlock *entry, std::vector<SP> ins, std::vector<Edge> &out, std::vector<Ret> &rets);
  void execLoop(FnInfo *fi, Loop *L, std::vector<SP> ins, std::vector<Edge> &out, std::vector<Ret> &rets);
  void loopBody(FnInfo *fi, Loop *L, SP s, std::vector<SP> &backs, std::vector<Edge> &out, std::vector<Ret> &rets);
  SP phis(SP s, BasicBlock *from, BasicBlock *to);
  void purge(State &s, FnInfo *fi, BasicBlock *bb);
  void call(SP s, CallBase *CB, std::vector<SP> &out);
  std::vector<Ret> callFunction(SP s, Function *F, const std::vector<VP> &args, const std::string &csname);
  void intrinsic(SP s, IntrinsicInst *II, std::vector<SP> &out);
  void mergeList(std::vector<SP> &v, const std::string &site);
  void pinVar(State &s, int v);
  uint32_t mkLeaf(int kind, uint64_t a, uint64_t b, int dm, uint32_t vars, uint64_t sh);
  std::string symWhy; bool lazySplit = false;
  bool symLoopMode(FnInfo *fi, Loop *L, SP B1, std::vector<Edge> &out, std::vector<Ret> &rets);
  void resolveLens(SP s, std::vector<SP> &out);
  void mergeRets(std::vector<Ret> &r, const std::string &site);
  SP tryMerge(const SP &a, const SP &b, const std::string &site);
  bool symLoop(FnInfo *fi, Loop *L, SP B1, std::vector<Edge> &out, std::vector<Ret> &rets);
  int execInlineAsm(State &s, CallBase *CB, VP &result);
  std::vector<Ret> callAsm(SP s, AsmFunc *f, const std::vector<VP> &args);

  // checks
  std::map<int, int> coarsenMap(State &s, bool dropOld);
  int completeness(State &s, int buf, std::string &why);   // 0 nothing absorbed, 1 all absorbed, 2 incomplete, 3 empty input
  void checkComplete(State &s, int buf, const char *when);
  void liveDMs(State &s, std::set<int> &dms);
  bool verified(State &s, std::string &why, bool rec = false);
  void checkKs(State &s, const Aff &off, int bit, Bit ks);
  void checkTagDM(State &s, int idx, int bit, Bit t);
  void checkHashDM(State &s, const Aff &off, int bit, Bit t);
  void checkUninit(Bit b, const char *what);
  bool nBlocks(State &s, int buf, Aff &n);
  bool shSubst(State &s, Bit b, uint64_t &h);
  std::map<uint32_t, uint64_t> shMemo; std::set<std::tuple<int, int, int>> dmChecked;
  void finish(State &s, const VP &ret);
};
bool isTagKey(State &s, const SrcKey &k);
