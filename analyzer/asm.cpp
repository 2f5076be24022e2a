// ARM assembly: inline asm statements of the C sources and whole functions from .s files (decoded listing).
// Both run in the same abstract domains as the IR, and are checked against the contract the compiler relies on:
// declared outputs/inputs/clobbers for inline asm, the procedure call standard for functions.
#include "interp.h"
#include <fstream>
#include <regex>

namespace {
struct AInst { uint32_t addr = 0; std::string mn; std::vector<std::string> ops; std::string line; };
struct AFile { std::string path; std::vector<AInst> insts; std::map<uint32_t, int> at; std::map<uint32_t, uint8_t> data; uint32_t size = 0; };
std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(" \t\r"); return s.substr(a, b - a + 1); }
std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
// split operands at top-level commas; a register list or an address is one operand, a shift is attached to its register
std::vector<std::string> splitOps(const std::string &s) {
  std::vector<std::string> r; std::string cur; int d = 0;
  for (char c : s) {
    if (c == '[' || c == '{') d++;
    if (c == ']' || c == '}') d--;
    if (c == ',' && d == 0) { r.push_back(trim(cur)); cur.clear(); } else cur += c;
  }
  if (!trim(cur).empty()) r.push_back(trim(cur));
  std::vector<std::string> o;
  for (auto &x : r) {
    std::string l = lower(x.substr(0, 3));
    if (!o.empty() && x.size() > 3 && (l == "lsl" || l == "lsr" || l == "asr" || l == "ror") && (x[3] == ' ' || x[3] == '\t')) o.back() += ", " + x; else o.push_back(x);
  }
  return o;
}
const char *const kCond[] = {"eq", "ne", "cs", "hs", "cc", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le"};
struct Mn { std::string base; bool flags = false; };
// "eors.w" -> {eor, flags}
Mn decodeMn(const std::string &m0) {
  std::string m = lower(m0);
  size_t d = m.find('.'); if (d != std::string::npos) m = m.substr(0, d);
  static const std::set<std::string> alu{"mov", "mvn", "eor", "and", "orr", "orn", "bic", "add", "sub", "rsb", "adc", "sbc", "lsl", "lsr", "asr", "ror", "rrx", "mul"};
  static const std::set<std::string> other{"cmp", "cmn", "tst", "teq", "uxtb", "uxth", "sxtb", "sxth", "rev", "rev16", "bfi", "bfc", "ubfx", "nop", "movw", "movt", "addw", "subw", "adr",
    "ldr", "ldrb", "ldrh", "ldrsb", "ldrsh", "str", "strb", "strh", "ldrd", "strd", "ldm", "ldmia", "stm", "stmia", "stmdb", "ldmdb", "push", "pop", "b", "bx", "cbz", "cbnz", "pkhbt", "pkhtb"};
  if (alu.count(m)) return {m, false};
  if (!m.empty() && m.back() == 's' && alu.count(m.substr(0, m.size() - 1))) return {m.substr(0, m.size() - 1), true};
  if (other.count(m)) return {m, m == "cmp" || m == "cmn" || m == "tst" || m == "teq"};
  if (m.size() == 3 && m[0] == 'b') for (auto c : kCond) if (m.substr(1) == c) return {m, false};
  throw Undecided{"assembly instruction not modelled: " + m0};
}
bool isShift(const std::string &m) { return m == "lsl" || m == "lsr" || m == "asr" || m == "ror"; }
bool parseImm(std::string t, int64_t &v) {
  t = trim(t); if (!t.empty() && t[0] == '#') t = t.substr(1);
  if (t.empty()) return false;
  char *e; v = strtoll(t.c_str(), &e, 0); if (*e == 0) return true;
  if (!isdigit((unsigned char)t[0]) && t[0] != '-') return false;
  v = (int64_t)strtoull(t.c_str(), &e, 0); return *e == 0;
}
// arithmetic shared by inline asm and functions
struct Alu {
  Interp &I; State &s;
  VP shift(const std::string &k, const VP &v, const VP &amt) {
    if (k == "rrx") throw Undecided{"rrx"};
    if (amt->num && amt->n.isConst()) {
      uint64_t n = amt->n.c & 255;
      if (n == 0) return v;
      if (k == "ror") { n &= 31; if (!n) return v; auto x = bitsOf(v); std::vector<Bit> r(32); for (int i = 0; i < 32; i++) r[i] = x[(i + n) % 32]; return mkBits(32, r); }
      if (n >= 32) { if (k == "asr") { auto x = bitsOf(v); return mkBits(32, std::vector<Bit>(32, x[31])); } return mkNum(32, Aff(0)); }
      return I.binop(s, k == "lsl" ? Instruction::Shl : k == "lsr" ? Instruction::LShr : Instruction::AShr, v, mkNum(32, Aff((int64_t)n)), 32, 32);
    }
    int which; if (amt->num && I.needSplit(s, amt->n, which)) throw SplitNeeded{which};
    if (I.dataDep(amt)) I.event("VAR_SHIFT", true, "shift amount depends on data"); else throw Undecided{"shift amount not understood"};
    return I.opaque(32, "shift", {v, amt});
  }
  VP bnot(const VP &v) { return I.xorVal(s, v, mkNum(32, Aff(-1)), 32, 32); }
  VP alu(const std::string &m, const VP &a, const VP &b) {
    if (m == "eor") return I.binop(s, Instruction::Xor, a, b, 32, 32);
    if (m == "and") return I.binop(s, Instruction::And, a, b, 32, 32);
    if (m == "orr") return I.binop(s, Instruction::Or, a, b, 32, 32);
    if (m == "bic") return I.binop(s, Instruction::And, a, bnot(b), 32, 32);
    if (m == "orn") return I.binop(s, Instruction::Or, a, bnot(b), 32, 32);
    if (m == "add" || m == "addw") return I.binop(s, Instruction::Add, a, b, 32, 32);
    if (m == "sub" || m == "subw") return I.binop(s, Instruction::Sub, a, b, 32, 32);
    if (m == "rsb") return I.binop(s, Instruction::Sub, b, a, 32, 32);
    if (m == "mul") return I.binop(s, Instruction::Mul, a, b, 32, 32);
    if (isShift(m)) return shift(m, a, b);
    throw Undecided{"assembly instruction not modelled: " + m};
  }
  VP bits(const VP &v, std::function<Bit(const std::vector<Bit> &, int)> f) { auto x = bitsOf(v); std::vector<Bit> r(32); for (int i = 0; i < 32; i++) r[i] = f(x, i); return mkBits(32, r); }
  VP unary(const std::string &m, const VP &v) {
    if (m == "uxth" && v->num && v->n.isConst()) return mkNum(32, Aff(v->n.c & 0xffff));
    if (m == "uxtb" && v->num && v->n.isConst()) return mkNum(32, Aff(v->n.c & 0xff));
    if (m == "uxth") return I.binop(s, Instruction::And, v, mkNum(32, Aff(0xffff)), 32, 32);
    if (m == "uxtb") return I.binop(s, Instruction::And, v, mkNum(32, Aff(0xff)), 32, 32);
    if (m == "sxth") return bits(v, [](const std::vector<Bit> &x, int i) { return x[std::min(i, 15)]; });
    if (m == "sxtb") return bits(v, [](const std::vector<Bit> &x, int i) { return x[std::min(i, 7)]; });
    if (m == "rev16") return bits(v, [](const std::vector<Bit> &x, int i) { return x[i ^ 8]; });
    if (m == "rev") return bits(v, [](const std::vector<Bit> &x, int i) { return x[i ^ 24]; });
    throw Undecided{"assembly instruction not modelled: " + m};
  }
};
}
struct AsmFunc { std::string name; uint32_t addr; AFile *file; };

// ------------------------------------------------------------------ listings of .s files
int loadAsm(const char *path, std::map<std::string, AsmFunc *> &out, std::string &err) {
  std::ifstream f(path); if (!f) { err = std::string("cannot read ") + path; return 1; }
  auto *F = new AFile; F->path = path;
  std::string l, line; std::vector<std::pair<std::string, uint32_t>> labels;
  std::set<std::string> globals;
  static const std::regex lab("^([0-9a-f]+) <(.+)>:$"), src("^(/[^:]*):([0-9]+)( .*)?$"), ins("^ *([0-9a-f]+):\t([0-9a-f ]+)\t([^\t]+)(\t.*)?$"), glob("^GLOBAL (.+)$");
  std::smatch m;
  while (std::getline(f, l)) {
    if (std::regex_match(l, m, glob)) { globals.insert(m[1]); continue; }
    if (std::regex_match(l, m, lab)) { labels.push_back({m[2], (uint32_t)std::stoul(m[1], nullptr, 16)}); continue; }
    if (std::regex_match(l, m, src)) { std::string p = m[1]; size_t q = p.find("/repo/"); if (q != std::string::npos) p = p.substr(q + 6); line = p + ":" + std::string(m[2]); continue; }
    if (!std::regex_match(l, m, ins)) continue;
    AInst a; a.addr = std::stoul(m[1], nullptr, 16); a.mn = trim(m[3]); a.line = line;
    std::string hex; for (char c : std::string(m[2])) if (c != ' ') hex += c;
    std::string rest = m[4]; size_t cm = rest.find('@'); if (cm != std::string::npos) rest = rest.substr(0, cm); cm = rest.find(';'); if (cm != std::string::npos) rest = rest.substr(0, cm);
    rest = trim(rest);
    F->size = std::max<uint32_t>(F->size, a.addr + hex.size() / 2);
    if (a.mn[0] == '.') {
      int64_t v = 0; parseImm(rest, v); int n = a.mn == ".word" ? 4 : a.mn == ".short" ? 2 : a.mn == ".byte" ? 1 : 0;
      if (!n) { err = "unknown data directive " + a.mn; return 1; }
      for (int i = 0; i < n; i++) F->data[a.addr + i] = (uint64_t)v >> (8 * i);
      continue;
    }
    a.ops = splitOps(rest);
    F->at[a.addr] = F->insts.size(); F->insts.push_back(a);
  }
  for (auto &p : labels) if (globals.empty() || globals.count(p.first)) out[p.first] = new AsmFunc{p.first, p.second, F};
  return 0;
}

// ------------------------------------------------------------------ inline asm
int Interp::execInlineAsm(State &s, CallBase *CB, VP &result) {
  auto *IA = cast<InlineAsm>(CB->getCalledOperand());
  if (!StringRef(M.getTargetTriple()).starts_with("arm") && !StringRef(M.getTargetTriple()).starts_with("thumb")) {
    if (trim(IA->getAsmString()).empty()) {   // a pure compiler barrier
      if (!CB->getType()->isVoidTy()) throw Undecided{"inline assembly with outputs"};
      return 0;
    }
    throw Undecided{"inline assembly for this architecture"};
  }
  asmSeen.insert(CB->getFunction()->getName().str() + ":" + loc(CB));
  struct Op { bool out = false, in = false, reg = false, imm = false, early = false, mem = false; int tied = -1; VP v; bool written = false; Type *ty = nullptr; std::string name; int usedAfter = -1; };
  std::vector<Op> ops; std::set<std::string> clob; std::vector<int> outIdx;
  unsigned arg = 0;
  for (auto &ci : IA->ParseConstraints()) {
    if (ci.Type == InlineAsm::isClobber) { for (auto &c : ci.Codes) { std::string n = lower(c); if (n.size() > 2 && n[0] == '{') n = n.substr(1, n.size() - 2); clob.insert(n); } continue; }
    if (ci.Type == InlineAsm::isLabel) throw Undecided{"asm goto"};
    Op o; o.early = ci.isEarlyClobber;
    for (auto &c : ci.Codes) { if (c == "r" || c == "l" || c == "h") o.reg = true; else if (c == "i" || c == "n" || c == "I" || c == "J" || c == "K" || c == "L" || c == "M" || c == "N") o.imm = true; else if (c == "m" || c == "Q") o.mem = true; else if (c[0] == '{') throw Undecided{"inline assembly bound to a physical register"}; }
    if (ci.Type == InlineAsm::isOutput) {
      o.out = true;
      if (ci.isIndirect) throw Undecided{"inline assembly with a memory output"};
      outIdx.push_back(ops.size());
    } else {
      o.in = true; o.v = get(s, CB->getArgOperand(arg)); o.ty = CB->getArgOperand(arg)->getType(); arg++;
      if (ci.hasMatchingInput() || (!ci.Codes.empty() && isdigit((unsigned char)ci.Codes[0][0]))) {
        o.tied = std::stoi(ci.Codes[0]); o.reg = true;
      }
    }
    ops.push_back(o);
  }
  std::vector<Type *> ot;
  if (auto *ST = dyn_cast<StructType>(CB->getType())) for (auto *t : ST->elements()) ot.push_back(t); else if (!CB->getType()->isVoidTy()) ot.push_back(CB->getType());
  for (size_t i = 0; i < outIdx.size() && i < ot.size(); i++) if (DL.getTypeSizeInBits(ot[i]) != 32) throw Undecided{"inline assembly operand is not 32 bits wide"};
  // registers hold the tied operands' values on entry; write-only outputs are undefined
  std::vector<VP> val(ops.size());
  std::vector<bool> def(ops.size(), false);
  auto widen = [&](const VP &v) -> VP { if (v->w == 32) return v; auto x = bitsOf(v); x.resize(32, 0); return mkBits(32, x); };
  std::vector<int> reg(ops.size()); for (size_t i = 0; i < ops.size(); i++) reg[i] = ops[i].tied >= 0 ? ops[i].tied : (int)i;
  for (size_t i = 0; i < ops.size(); i++) if (ops[i].in) { val[reg[i]] = widen(ops[i].v); def[reg[i]] = true; }
  int dmU = internDM({{internKey(B_UNINIT, K_BLOCK, Aff(-3), 0, 0), internAff(Aff(0))}});
  for (size_t i = 0; i < ops.size(); i++) if (!val[reg[i]]) { std::vector<Bit> r(32); for (int b = 0; b < 32; b++) r[b] = opaqueBit(0x41534D, hmix(hmix(i, b), hstr(loc(CB))), dmU, 0); val[reg[i]] = mkBits(32, r); }
  std::vector<bool> tiedOut(ops.size(), false); for (auto &o : ops) if (o.tied >= 0) tiedOut[o.tied] = true;

  // statements
  std::string text = IA->getAsmString(); std::vector<std::string> st; std::string cur;
  for (char c : text) if (c == '\n' || c == ';') { st.push_back(cur); cur.clear(); } else cur += c;
  st.push_back(cur);
  struct W { bool w = false; size_t at = 0; std::string by; };
  std::vector<W> wrote(ops.size());
  const std::string base = loc(CB);
  struct Rst { std::string &l; ~Rst() { l.clear(); } } rst{asmLoc};
  std::set<std::pair<int, int>> earlyRep; bool flagsSet = false;
  size_t n = 0;
  Alu A{*this, s};
  for (auto &raw : st) {
    std::string t = raw; size_t c = t.find('@'); if (c != std::string::npos) t = t.substr(0, c); c = t.find("//"); if (c != std::string::npos) t = t.substr(0, c);
    t = trim(t); if (t.empty()) continue;
    if (t[0] == '.') { if (lower(t).substr(0, 7) == ".syntax") continue; throw Undecided{"directive in inline assembly: " + t}; }
    if (t.back() == ':') throw Undecided{"label in inline assembly"};
    n++;
    asmLoc = base + " (asm statement " + std::to_string(n) + ": " + t + ")";
    nInst++;
    size_t sp = t.find_first_of(" \t");
    std::string mnem = t.substr(0, sp); auto o = splitOps(sp == std::string::npos ? "" : t.substr(sp));
    Mn m = decodeMn(mnem);
    if (m.flags && !clob.count("cc") && !flagsSet) { flagsSet = true; event("ASM_FLAGS", true, "sets the condition flags, which the statement does not declare as clobbered"); }
    auto opIdx = [&](const std::string &x) -> int {
      if (x.size() > 1 && x[0] == '$' && isdigit((unsigned char)x[1])) return std::stoi(x.substr(1));
      if (x.size() > 2 && x[0] == '$' && x[1] == '{') return std::stoi(x.substr(2));
      return -1;
    };
    auto physical = [&](const std::string &x) -> bool { static const std::regex r("^(r[0-9]+|sp|lr|pc|ip|fp|sl|sb)$"); return std::regex_match(lower(x), r); };
    auto rd = [&](const std::string &x) -> VP {
      int64_t v; std::string y = x; if (!y.empty() && y[0] == '#') y = trim(y.substr(1));
      int k = opIdx(y);
      if (k >= 0) {
        if (k >= (int)ops.size()) throw Undecided{"operand number out of range"};
        int q = reg[k];
        if (!def[q]) { event("ASM_UNINIT", true, "reads an operand that is declared as output only before writing it"); def[q] = true; }
        if (ops[k].in && ops[k].tied < 0 && ops[k].reg) for (size_t w = 0; w < ops.size(); w++) if (wrote[w].w && !ops[w].early && earlyRep.insert({(int)w, k}).second && earlyRep.size() == 1)
          event("ASM_EARLY", true, "reads an input operand after an output that is not declared early-clobber was written (" + wrote[w].by + "): the compiler may keep both in one register");
        return val[q];
      }
      if (x.find("$$") == 0) y = x.substr(2);
      if (parseImm(y, v)) return mkNum(32, Aff((int64_t)(int32_t)v));
      if (physical(y)) { event("ASM_REG", true, "uses the physical register " + y + ", which is not an operand"); return opaque(32, "physreg", {}); }
      throw Undecided{"operand of inline assembly not understood: " + x};
    };
    auto op2 = [&](const std::string &x) -> VP {
      size_t c = x.find(','); if (c == std::string::npos) return rd(x);
      std::string sh = trim(x.substr(c + 1)), k = lower(sh.substr(0, 3));
      return A.shift(k, rd(trim(x.substr(0, c))), rd(trim(sh.substr(3))));
    };
    auto wr = [&](const std::string &x, const VP &v) {
      int k = opIdx(x);
      if (k < 0) { if (physical(x)) { if (!clob.count(lower(x))) event("ASM_REG", true, "writes the physical register " + x + ", which the statement does not declare as clobbered"); return; } throw Undecided{"destination of inline assembly not understood: " + x}; }
      if (k >= (int)ops.size()) throw Undecided{"operand number out of range"};
      if (ops[k].in && ops[k].tied < 0) event("ASM_INPUT_WRITE", true, "writes an operand that is declared as input only");
      int q = reg[k];
      val[q] = v; def[q] = true;
      if (!wrote[q].w) wrote[q] = {true, n, "statement " + std::to_string(n)};
    };
    const std::string &b = m.base;
    if (b == "nop") continue;
    if (b == "cmp" || b == "cmn" || b == "tst" || b == "teq") { rd(o.at(0)); op2(o.at(1)); continue; }
    if (b[0] == 'b' && b != "bic" && b != "bfi" && b != "bfc") throw Undecided{"branch in inline assembly"};
    if (b.substr(0, 2) == "ld" || b.substr(0, 2) == "st" || b == "push" || b == "pop") {
      if (!clob.count("memory")) event("ASM_MEM", true, "accesses memory, which the statement does not declare");
      throw Undecided{"memory access in inline assembly"};
    }
    if (b == "mov" || b == "movw" || b == "mvn") { VP v = op2(o.at(1)); wr(o[0], b == "mvn" ? A.bnot(v) : v); continue; }
    if (b == "uxth" || b == "uxtb" || b == "sxth" || b == "sxtb" || b == "rev" || b == "rev16") { VP v = op2(o.at(1)); wr(o[0], A.unary(b, v)); continue; }
    if (o.size() == 2) { VP y = op2(o[1]), x = rd(o[0]); wr(o[0], A.alu(b, x, y)); continue; }
    if (o.size() == 3) { VP x = rd(o[1]), y = op2(o[2]); wr(o[0], A.alu(b, x, y)); continue; }
    throw Undecided{"assembly statement not modelled: " + t};
  }
  asmLoc = base;
  // results
  std::vector<VP> res;
  for (int q : outIdx) { if (!def[q]) event("ASM_UNINIT", true, "an output operand is never written"); res.push_back(val[q]); }
  stats["asm_statements"] += n;
  if (res.empty()) { result = nullptr; return 0; }
  if (isa<StructType>(CB->getType())) { auto v = std::make_shared<Val>(); v->k = Val::AGG; v->el = res; v->w = DL.getTypeSizeInBits(CB->getType()); result = v; }
  else result = res[0];
  return 0;
}

// ------------------------------------------------------------------ functions
std::vector<Interp::Ret> Interp::callAsm(SP s0, AsmFunc *f, const std::vector<VP> &args) {
  SP s = std::make_shared<State>(*s0);
  const CallBase *CB = cast<CallBase>(curI);
  asmSeen.insert(f->name); fnsSeen.insert(f->name);
  AFile *F = f->file;
  // objects: stack of the function, its text, and a token for every register the caller expects back
  auto obj = [&](const std::string &name, int role, int64_t size, const void *origin) {
    ObjDesc d; d.name = name; d.role = role; d.size = size; d.origin = origin; d.fn = f->name; d.isStatic = false; d.site = "asm:" + f->name;
    for (size_t i = 0; i < objs.size(); i++) if (objs[i].origin == origin && objs[i].name == name) { if (role == R_LOCAL) return newObj(*s, objs[i], true); return (int)i; }
    return newObj(*s, d, true);
  };
  const int STK = 512; int extra = args.size() > 4 ? 4 * (args.size() - 4) : 0;
  int stk = obj("stack of " + f->name, R_LOCAL, STK + extra, f);
  int text = obj("text of " + F->path.substr(F->path.rfind('/') + 1), R_LOCAL, F->size, F);
  static std::map<std::pair<Interp *, AFile *>, OSP> textMem;
  OSP &tm = textMem[{this, F}];
  if (!tm) { tm = std::make_shared<ObjState>(*s->mem[text]); for (auto &p : F->data) for (int b = 0; b < 8; b++) tm->bits[p.first * 8 + b] = p.second >> b & 1; }
  s->mem[text] = tm;
  std::vector<int> tok(16, -1);
  for (int r : {4, 5, 6, 7, 8, 9, 10, 11, 14}) tok[r] = obj("caller's r" + std::to_string(r), R_LOCAL, 0, (const char *)f + r);
  Frame fr; fr.env.resize(18);
  std::vector<std::string> cs = instTab[s->frames.back().inst]; cs.push_back(f->name + "#asm"); fr.inst = instOf(cs);
  int dmU = internDM({{internKey(B_UNINIT, K_BLOCK, Aff(-4), 0, 0), internAff(Aff(0))}});
  auto garbage = [&](int r) { std::vector<Bit> x(32); for (int b = 0; b < 32; b++) x[b] = opaqueBit(0x41524D, hmix(hmix(r, b), hstr(f->name)), dmU, 0); return mkBits(32, x); };
  auto widen = [&](const VP &v) -> VP { if (v->w == 32) return v; if (v->num) return mkNum(32, v->n); auto x = bitsOf(v); x.resize(32, 0); return mkBits(32, x); };
  for (int r = 0; r < 16; r++) fr.env[r] = tok[r] >= 0 ? mkPtr(tok[r], Aff(0)) : garbage(r);
  for (size_t i = 0; i < args.size(); i++) {
    if (args[i]->w > 32) throw Undecided{"64-bit argument of an assembly function"};
    if (i < 4) fr.env[i] = widen(args[i]);
  }
  fr.env[13] = mkPtr(stk, Aff(STK));
  s->frames.push_back(fr);
  bool dead = false;
  struct Rst { std::string &a, &b; ~Rst() { a.clear(); b.clear(); } } rst{asmLoc, asmFn};
  asmFn = f->name;
  for (size_t i = 4; i < args.size(); i++) store(*s, mkPtr(stk, Aff(STK + 4 * (int64_t)(i - 4))), widen(args[i]), dead);
  uint32_t uninitMask = 0x100F; for (size_t i = 0; i < args.size() && i < 4; i++) uninitMask &= ~(1u << i);

  struct Path { SP s; uint32_t pc; int fl; uint32_t uninit; long n; };   // fl: 0 unknown, 1 env[16] compared with env[17], 2 result in env[16]
  std::vector<Path> work{{s, f->addr, 0, uninitMask, 0}};
  std::vector<Ret> rets;
  auto regNo = [&](const std::string &x0) -> int {
    std::string x = lower(trim(x0));
    if (x == "sp") return 13; if (x == "lr") return 14; if (x == "pc") return 15; if (x == "ip") return 12; if (x == "fp") return 11; if (x == "sl") return 10; if (x == "sb") return 9;
    if (x.size() >= 2 && x[0] == 'r' && isdigit((unsigned char)x[1])) return std::stoi(x.substr(1));
    return -1;
  };
  auto regList = [&](std::string x) {
    std::vector<int> r; x = trim(x); if (x.empty() || x[0] != '{') throw Undecided{"register list"};
    std::string y = x.substr(1, x.size() - 2);
    for (auto &q : splitOps(y)) { size_t d = q.find('-'); if (d == std::string::npos) r.push_back(regNo(q)); else for (int i = regNo(q.substr(0, d)); i <= regNo(q.substr(d + 1)); i++) r.push_back(i); }
    for (int q : r) if (q < 0) throw Undecided{"register list " + x};
    std::sort(r.begin(), r.end()); return r;
  };
  long total = 0;
  while (!work.empty()) {
    Path P = work.back(); work.pop_back();
    for (;;) {
      State &S = *P.s; Frame &fr = S.frames.back(); curRaw = P.s.get(); RawS rs_(curRaw, P.s.get());
      auto it = F->at.find(P.pc);
      if (it == F->at.end()) { event("ASM_FALL", true, F->data.count(P.pc) ? "executes data as instructions" : "runs past the end of the code"); throw Undecided{"control leaves the code of " + f->name}; }
      const AInst &a = F->insts[it->second];
      asmLoc = a.line.empty() ? f->name : a.line;
      if (P.n++ > 30000) { event("NONTERM", true, "the assembly function " + f->name + " does not terminate within 30000 instructions"); throw Undecided{"non-terminating assembly function " + f->name}; }
      nInst++; total++;
      if (total > 400000) throw Undecided{"too many paths through the assembly function " + f->name};
      uint32_t next = it->second + 1 < (int)F->insts.size() ? F->insts[it->second + 1].addr : F->size;
      { auto dt = F->data.lower_bound(P.pc + 1); if (dt != F->data.end() && dt->first < next) next = dt->first; }
      Mn m = decodeMn(a.mn); const std::string &b = m.base;
      const auto &o = a.ops;
      Alu A{*this, S};
      auto get1 = [&](int r) -> VP {
        if (r == 15) return mkPtr(text, Aff((int64_t)(P.pc + 4)));
        if (P.uninit >> r & 1) { event("ASM_UNINIT", true, "reads r" + std::to_string(r) + ", which holds neither an argument nor a value written before"); P.uninit &= ~(1u << r); }
        return fr.env[r];
      };
      auto rd = [&](const std::string &x) -> VP { int r = regNo(x); if (r >= 0) return get1(r); int64_t v; if (parseImm(x, v)) return mkNum(32, Aff((int64_t)(int32_t)v)); throw Undecided{"operand not understood: " + x}; };
      auto op2 = [&](const std::string &x) -> VP { size_t c = x.find(','); if (c == std::string::npos) return rd(x); std::string sh = trim(x.substr(c + 1)); return A.shift(lower(sh.substr(0, 3)), rd(trim(x.substr(0, c))), rd(trim(sh.substr(3)))); };
      auto wr = [&](int r, const VP &v) { if (r < 0) throw Undecided{"destination not understood"}; if (r == 15) throw Undecided{"computed jump"}; fr.env[r] = v; P.uninit &= ~(1u << r); };
      bool dd = false;
      auto checkAcc = [&](const VP &p, int n, bool w) {
        if (!p->num || p->obj < 0) return;
        if (p->obj == text && p->n.isConst()) { if (w) event("CONST_WRITE", true, "writes to the code section"); else for (int i = 0; i < n; i++) if (!F->data.count(p->n.c + i)) { event("OOB", true, "reads " + std::to_string(n) + " byte(s) outside the constant tables of the code section"); break; } }
        if (p->obj == stk && fr.env[13]->k == Val::PTR && fr.env[13]->obj == stk && fr.env[13]->num) {
          Aff d = p->n - fr.env[13]->n;
          if (d.isConst() && d.c < 0) event("ASM_BELOW_SP", true, std::string(w ? "writes" : "reads") + " below the stack pointer, where interrupts and signal handlers may overwrite it");
          if (w && p->n.isConst() && p->n.c >= STK) event("ASM_CALLER_STACK", true, "writes to the caller's stack frame");
        }
        for (int r = 0; r < 16; r++) if (tok[r] >= 0 && p->obj == tok[r]) { event("ASM_UNINIT", true, "uses the caller's value of r" + std::to_string(r) + " as an address"); throw Undecided{"address from a callee-saved register"}; }
      };
      auto ld = [&](const VP &p, int bits) -> VP { if (p->k != Val::PTR) throw Undecided{"load address is not a pointer"}; checkAcc(p, bits / 8, false); VP v = load(S, p, bits, false, dd); nAcc++; return v; };
      auto stv = [&](const VP &p, const VP &v) { if (p->k != Val::PTR) throw Undecided{"store address is not a pointer"}; checkAcc(p, v->w / 8, true); store(S, p, v, dd); nAcc++; };
      // address operand: "[rn]", "[rn, #i]", "[rn, rm]", "[rn, rm, lsl #k]", "[rn, #i]!" with optional post-index
      auto addr = [&](size_t k, VP &base, VP &upd, int &rn) {
        std::string x = o.at(k); bool wb = !x.empty() && x.back() == '!'; if (wb) x.pop_back();
        size_t e = x.find(']'); auto in = splitOps(x.substr(1, e - 1));
        rn = regNo(in.at(0)); VP r = get1(rn); if (rn == 15) r = mkPtr(text, Aff((int64_t)((P.pc + 4) & ~3u)));
        VP ea = r;
        if (in.size() > 1) ea = binop(S, Instruction::Add, r, op2(in[1]), 32, 32);
        base = ea; upd = nullptr;
        if (wb) upd = ea;
        if (o.size() > k + 1) upd = binop(S, Instruction::Add, r, op2(o[k + 1]), 32, 32);
      };
      auto setFlags = [&](const VP &x, const VP &y, int kind) { fr.env[16] = x; fr.env[17] = y; P.fl = kind; };
      auto doRet = [&](const VP &target) {
        if (!(target->k == Val::PTR && target->obj == tok[14] && target->num && target->n.isConst() && target->n.c == 0)) { event("ASM_RET", true, "does not return to its caller"); throw Undecided{"return address lost in " + f->name}; }
        for (int r = 4; r <= 11; r++) { const VP &v = fr.env[r]; if (!(v->k == Val::PTR && v->obj == tok[r] && v->num && v->n.isConst() && v->n.c == 0)) event("ASM_SAVE", true, "returns without restoring the callee-saved register r" + std::to_string(r)); }
        const VP &sp = fr.env[13]; if (!(sp->k == Val::PTR && sp->obj == stk && sp->num && sp->n.isConst() && sp->n.c == STK)) event("ASM_SP", true, "returns with a stack pointer different from the one at entry");
        VP rv = fr.env[0]; if (CB->getType()->isPointerTy() ? rv->k != Val::PTR : rv->k == Val::PTR) rv = nullptr;
        if (!CB->getType()->isVoidTy() && (P.uninit & 1)) event("ASM_UNINIT", true, "returns a value that was never computed");
        S.mem.erase(stk); S.mem.erase(text); for (int r = 0; r < 16; r++) if (tok[r] >= 0) S.mem.erase(tok[r]);
        S.frames.pop_back();
        rets.push_back({rv, P.s});
      };
      if (b == "nop") { P.pc = next; continue; }
      if (b == "bx") { doRet(get1(regNo(o.at(0)))); break; }
      if (b == "b" || (b.size() == 3 && b[0] == 'b' && b != "bic" && b != "bfi" && b != "bfc") || b == "cbz" || b == "cbnz") {
        std::string t = o.back(); uint32_t dest = std::stoul(t, nullptr, 16);
        if (b == "b") { P.pc = dest; continue; }
        VP x = fr.env[16], y = fr.env[17]; unsigned pred; std::string c = b.substr(1);
        if (b[0] == 'c') { x = get1(regNo(o[0])); y = mkNum(32, Aff(0)); pred = b == "cbz" ? CmpInst::ICMP_EQ : CmpInst::ICMP_NE; }
        else {
          if (!P.fl) { event("ASM_UNINIT", true, "branches on condition flags that were not set"); throw Undecided{"flags"}; }
          bool cmp = P.fl == 1;
          if (c == "eq") pred = CmpInst::ICMP_EQ; else if (c == "ne") pred = CmpInst::ICMP_NE;
          else if (c == "mi" && !cmp) pred = CmpInst::ICMP_SLT; else if (c == "pl" && !cmp) pred = CmpInst::ICMP_SGE;
          else if (!cmp) throw Undecided{"condition " + c + " after an instruction that does not define it"};
          else if (c == "cs" || c == "hs") pred = CmpInst::ICMP_UGE; else if (c == "cc" || c == "lo") pred = CmpInst::ICMP_ULT;
          else if (c == "hi") pred = CmpInst::ICMP_UGT; else if (c == "ls") pred = CmpInst::ICMP_ULE;
          else if (c == "ge") pred = CmpInst::ICMP_SGE; else if (c == "lt") pred = CmpInst::ICMP_SLT; else if (c == "gt") pred = CmpInst::ICMP_SGT; else if (c == "le") pred = CmpInst::ICMP_SLE;
          else throw Undecided{"condition " + c};
        }
        branchesSeen.insert(f->name + ":" + asmLoc);
        if (dataDep(x) || dataDep(y)) event("BRANCH", true, "a branch of the assembly code depends on data");
        std::vector<std::pair<SP, VP>> r; icmp(P.s, pred, x, y, r);
        std::vector<Path> nx;
        for (auto &q : r) {
          if (!(q.second->num && q.second->n.isConst())) { Path p1 = P, p2 = P; p1.s = std::make_shared<State>(*q.first); p2.s = std::make_shared<State>(*q.first); p1.pc = dest; p2.pc = next; nx.push_back(p1); nx.push_back(p2); continue; }
          Path p = P; p.s = q.first; p.pc = q.second->n.c ? dest : next; nx.push_back(p);
        }
        if (nx.empty()) break;
        if (nx.size() == 1) { P = nx[0]; continue; }
        for (auto &p : nx) { p.s = std::make_shared<State>(*p.s); work.push_back(p); }
        break;
      }
      if (b == "push" || b == "stmdb" || b == "pop" || b == "ldm" || b == "ldmia" || b == "stm" || b == "stmia") {
        bool pp = b == "push" || b == "pop", isLd = b == "pop" || b.substr(0, 2) == "ld";
        std::string bs = pp ? "sp" : o.at(0); bool wb = pp; if (!pp && bs.back() == '!') { wb = true; bs.pop_back(); }
        int rn = regNo(bs); auto L = regList(o.back()); VP base = get1(rn);
        bool db = b == "push" || b == "stmdb"; int64_t sz = 4 * L.size();
        VP lo = db ? binop(S, Instruction::Sub, base, mkNum(32, Aff(sz)), 32, 32) : base;
        VP end = db ? lo : binop(S, Instruction::Add, base, mkNum(32, Aff(sz)), 32, 32);
        if (db && wb) wr(rn, lo);
        VP pcv; std::vector<std::pair<int, VP>> loaded;
        for (size_t i = 0; i < L.size(); i++) {
          VP p = binop(S, Instruction::Add, lo, mkNum(32, Aff(4 * (int64_t)i)), 32, 32);
          if (isLd) { VP v = ld(p, 32); if (L[i] == 15) pcv = v; else loaded.push_back({L[i], v}); }
          else {
            bool u = P.uninit >> L[i] & 1;   // saving an undefined register is harmless
            VP v = L[i] == rn && db ? base : fr.env[L[i]]; (void)u; stv(p, v);
          }
        }
        if (wb && !db) wr(rn, end);
        for (auto &q : loaded) wr(q.first, q.second);
        if (pcv) { doRet(pcv); break; }
        P.pc = next; continue;
      }
      if (b.substr(0, 3) == "ldr" && b != "ldrd") {
        VP ea, up; int rn; addr(1, ea, up, rn); int bits = b == "ldr" ? 32 : b == "ldrh" || b == "ldrsh" ? 16 : 8;
        VP v = ld(ea, bits);
        if (bits < 32) { if (v->k == Val::PTR) throw Undecided{"part of an address is loaded"}; VP z = v; if (b == "ldrsh" || b == "ldrsb") { auto x = bitsOf(v); Bit t = x.back(); x.resize(32, t); z = mkBits(32, x); } else if (v->num && v->n.isConst()) z = mkNum(32, Aff(v->n.c & ((1ll << bits) - 1))); else { auto x = bitsOf(v); x.resize(32, 0); z = mkBits(32, x); } v = z; }
        if (up) wr(rn, up);
        int rt = regNo(o.at(0)); if (rt == 15) { doRet(v); break; }
        wr(rt, v); P.pc = next; continue;
      }
      if (b == "str" || b == "strb" || b == "strh") {
        VP ea, up; int rn; addr(1, ea, up, rn); int bits = b == "str" ? 32 : b == "strh" ? 16 : 8;
        VP v = get1(regNo(o.at(0)));
        if (bits < 32) { auto x = bitsOf(v); x.resize(bits); v = mkBits(bits, x); }
        stv(ea, v); if (up) wr(rn, up); P.pc = next; continue;
      }
      if (b == "cmp") { VP x = rd(o.at(0)), y = op2(o.at(1)); setFlags(x, y, 1); P.pc = next; continue; }
      if (b == "tst" || b == "teq") { VP x = rd(o.at(0)), y = op2(o.at(1)); setFlags(A.alu(b == "tst" ? "and" : "eor", x, y), mkNum(32, Aff(0)), 2); P.pc = next; continue; }
      if (b == "mov" && !m.flags && regNo(o.at(1)) >= 0 && regNo(o[1]) != 15 && regNo(o[0]) != 15 && (P.uninit >> regNo(o[1]) & 1)) {   // saving an undefined register is harmless
        fr.env[regNo(o[0])] = fr.env[regNo(o[1])]; P.uninit |= 1u << regNo(o[0]); P.pc = next; continue;
      }
      if (b == "mov" || b == "movw" || b == "mvn") { VP v = op2(o.at(1)); if (b == "mvn") v = A.bnot(v); int rd_ = regNo(o[0]); if (rd_ == 15) { doRet(v); break; } wr(rd_, v); if (m.flags) setFlags(v, mkNum(32, Aff(0)), 2); P.pc = next; continue; }
      if (b == "uxth" || b == "uxtb" || b == "sxth" || b == "sxtb" || b == "rev" || b == "rev16") { VP v = op2(o.at(1)); wr(regNo(o[0]), A.unary(b, v)); P.pc = next; continue; }
      if (b == "bfi" || b == "ubfx" || b == "bfc") {
        bool bfc = b == "bfc"; int64_t lsb, wd; if (!parseImm(o.at(bfc ? 1 : 2), lsb) || !parseImm(o.at(bfc ? 2 : 3), wd) || lsb + wd > 32) throw Undecided{"bit field"};
        std::vector<Bit> src = bfc ? std::vector<Bit>(32, 0) : bitsOf(rd(o[1]));
        std::vector<Bit> r;
        if (b == "ubfx") { r.assign(32, 0); for (int i = 0; i < wd; i++) r[i] = src[lsb + i]; }
        else { r = bitsOf(rd(o[0])); for (int i = 0; i < wd; i++) r[lsb + i] = src[i]; }
        wr(regNo(o[0]), mkBits(32, r)); P.pc = next; continue;
      }
      if (b == "adr") { uint32_t d = std::stoul(o.at(1), nullptr, 16); wr(regNo(o[0]), mkPtr(text, Aff((int64_t)d))); P.pc = next; continue; }
      // data processing
      VP x, y; int rdn = regNo(o.at(0));
      if (o.size() == 2) { x = rd(o[0]); y = op2(o[1]); }
      else if (o.size() == 3) { x = rd(o[1]); if (regNo(o[1]) == 15) x = mkPtr(text, Aff((int64_t)((P.pc + 4) & ~3u))); y = op2(o[2]); }
      else throw Undecided{"assembly instruction not modelled: " + a.mn};
      VP v = A.alu(b, x, y);
      if (m.flags) { if (b == "sub") setFlags(x, y, 1); else if (b == "rsb") setFlags(y, x, 1); else if (b == "adc" || b == "sbc") P.fl = 0; else setFlags(v, mkNum(32, Aff(0)), 2); }
      if (rdn == 13 && !(v->k == Val::PTR && v->obj == stk)) { event("ASM_SP", true, "the stack pointer is set to something else than an address in its own frame"); throw Undecided{"stack pointer"}; }
      wr(rdn, v); P.pc = next;
    }
  }
  if (rets.size() > 1) mergeRets(rets, f->name);
  return rets;
}
