// Interface agreement between separately compiled units: prototypes used at call sites against definitions.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static const DIType *strip(const DIType *t) {
  while (auto d = dyn_cast_or_null<DIDerivedType>(t)) {
    unsigned g = d->getTag();
    if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_restrict_type || g == dwarf::DW_TAG_atomic_type) t = d->getBaseType(); else break;
  }
  return t;
}
static uint64_t ptrBits = 64;
// shape of a type as the machine sees it; pointers keep the shape of what they point to
static std::string shape(const DIType *t, int depth = 0) {
  t = strip(t);
  if (!t) return "void";
  if (auto b = dyn_cast<DIBasicType>(t)) {
    uint64_t sz = b->getSizeInBits(); unsigned e = b->getEncoding();
    if (e == dwarf::DW_ATE_float) return "float" + std::to_string(sz);
    bool sg = e == dwarf::DW_ATE_signed || e == dwarf::DW_ATE_signed_char;
    if (sz == 8 && depth) return "byte";                              // bytes behind pointers: no interpretation attached
    return (sz < 32 ? (sg ? "int" : "uint") : "word") + std::to_string(sz);   // narrow arguments are extended by the caller: signedness counts
  }
  if (auto d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) { if (depth > 3) return "ptr"; return "ptr(" + shape(d->getBaseType(), depth + 1) + ")"; }
    return "other" + std::to_string(d->getSizeInBits());
  }
  if (auto c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "word" + std::to_string(c->getSizeInBits());
    if (c->getTag() == dwarf::DW_TAG_array_type) return (depth ? "" : "array ") + shape(c->getBaseType(), depth + 1);
    std::string o = (c->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct") + std::to_string(c->getSizeInBits());
    if (c->getSizeInBits() == 0) return "incomplete";
    if (depth > 4) return o;
    o += "{";
    for (auto *e : c->getElements()) if (auto m = dyn_cast<DIDerivedType>(e)) { if (m->getTag() == dwarf::DW_TAG_member) o += std::to_string(m->getOffsetInBits()) + ":" + shape(m->getBaseType(), depth + 1) + ","; }
    return o + "}";
  }
  if (isa<DISubroutineType>(t)) return "function";
  return "other";
}
static bool compatible(const std::string &a, const std::string &b) {
  if (a == b) return true;
  auto in = [](const std::string &s) { return s.rfind("ptr(", 0) == 0 ? s.substr(4, s.size() - 5) : std::string(); };
  std::string x = in(a), y = in(b);
  if (x.empty() || y.empty()) return false;
  auto any = [](const std::string &s) { return s == "void" || s == "byte" || s == "incomplete"; };
  if (any(x) || any(y)) return x != "function" && y != "function";
  return compatible(x, y);
}
struct Side { std::vector<std::string> sh; bool proto = true, has = false; std::string loc; FunctionType *ft = nullptr; std::string tu; };
static Side sideOf(Function &F, const std::string &tu) {
  Side s; s.ft = F.getFunctionType(); s.tu = tu; s.loc = tu + ":0";
  if (auto *sp = F.getSubprogram()) {
    s.has = true; s.proto = sp->isPrototyped();
    std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
    s.loc = f + ":" + std::to_string(sp->getLine());
    for (auto *t : sp->getType()->getTypeArray()) s.sh.push_back(shape(t));
    if (s.sh.empty()) s.sh.push_back("void");
  } else s.proto = !F.isVarArg();
  return s;
}
static std::string jq(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
static std::string tstr(Type *t) { std::string o; raw_string_ostream os(o); t->print(os); return os.str(); }
static bool sameVar(Type *a, Type *b) {
  if (a == b) return true;
  auto x = dyn_cast<ArrayType>(a), y = dyn_cast<ArrayType>(b);
  if (x && y) return sameVar(x->getElementType(), y->getElementType()) && (x->getNumElements() == y->getNumElements() || !x->getNumElements() || !y->getNumElements());
  auto p = dyn_cast<StructType>(a), q = dyn_cast<StructType>(b);
  if (p && q && p->getNumElements() == q->getNumElements()) { for (unsigned i = 0; i < p->getNumElements(); i++) if (!sameVar(p->getElementType(i), q->getElementType(i))) return false; return true; }
  return false;
}
int ifaceMain(const std::vector<std::string> &mods, const std::vector<std::string> &asmf, const std::string &outp) {
  LLVMContext C; std::vector<std::unique_ptr<Module>> M;
  for (auto &m : mods) { SMDiagnostic E; auto p = parseIRFile(m, E, C); if (!p) { E.print("isapsa", errs()); return 2; } M.push_back(std::move(p)); }
  std::set<std::string> asmDefs;
  for (auto &a : asmf) { std::ifstream f(a); std::string l; while (std::getline(f, l)) if (l.rfind("GLOBAL ", 0) == 0) asmDefs.insert(l.substr(7)); }
  std::map<std::string, Side> defs; std::map<std::string, GlobalVariable *> vdefs;
  struct Ref { std::string name; Side s; Function *F; }; std::vector<Ref> refs;
  struct VRef { std::string name, tu; GlobalVariable *G; }; std::vector<VRef> vrefs;
  std::vector<std::string> out; long nf = 0, nv = 0, ncs = 0, nasm = 0; std::set<std::string> pairs;
  auto rep = [&](const char *k, const std::string &fn, const std::string &loc, const std::string &d) { out.push_back("{\"kind\":" + jq(k) + ",\"fn\":" + jq(fn) + ",\"loc\":" + jq(loc) + ",\"detail\":" + jq(d) + "}"); };
  for (auto &m : M) {
    std::string tu = m->getSourceFileName();
    for (auto &F : *m) {
      if (F.isIntrinsic()) continue;
      std::string n = F.getName().str();
      if (!F.isDeclaration()) { if (!F.hasLocalLinkage()) defs[n] = sideOf(F, tu); }
      else if (!F.use_empty()) refs.push_back({n, sideOf(F, tu), &F});
    }
    for (auto &G : m->globals()) {
      if (G.hasLocalLinkage() || G.getName().starts_with("llvm.")) continue;
      if (G.isDeclaration()) vrefs.push_back({G.getName().str(), tu, &G}); else vdefs[G.getName().str()] = &G;
    }
  }
  std::map<std::string, Side> asmProto;
  for (auto &r : refs) {
    auto it = defs.find(r.name);
    const Side *d = nullptr;
    if (it != defs.end()) d = &it->second;
    else if (asmDefs.count(r.name)) {
      nasm++;
      auto q = asmProto.find(r.name);
      if (q == asmProto.end()) { asmProto[r.name] = r.s; if (!r.s.proto) rep("IFACE", r.name, r.s.loc, "assembly routine " + r.name + " is called without a prototype"); continue; }
      d = &q->second;
    } else continue;
    nf++; pairs.insert(r.name);
    bool bad = false;
    auto mis = [&](const std::string &w) { if (!bad) rep("IFACE", r.name, r.s.loc, r.s.tu.substr(r.s.tu.rfind('/') + 1) + " and " + d->tu.substr(d->tu.rfind('/') + 1) + " (" + d->loc + ") disagree about " + r.name + ": " + w); bad = true; };
    if (r.s.has && d->has && r.s.proto && d->proto) {
      if (r.s.sh.size() != d->sh.size()) { mis(std::to_string(r.s.sh.size() - 1) + " against " + std::to_string(d->sh.size() - 1) + " parameters"); }
      else for (size_t i = 0; i < d->sh.size(); i++) if (!compatible(r.s.sh[i], d->sh[i])) { mis((i ? "parameter " + std::to_string(i) : std::string("return type")) + ": " + r.s.sh[i] + " against " + d->sh[i]); break; }
    }
    // call sites, as compiled
    for (auto *U : r.F->users()) if (auto *cb = dyn_cast<CallBase>(U)) {
      if (cb->getCalledOperand() != r.F) continue;
      ncs++;
      if (bad) continue;
      FunctionType *ft = d->ft;
      if (ft->isVarArg() && ft->getNumParams() == 0) continue;    // definition side not known
      if (cb->arg_size() != ft->getNumParams() && !ft->isVarArg()) { mis("a call passes " + std::to_string(cb->arg_size()) + " arguments, the definition takes " + std::to_string(ft->getNumParams())); continue; }
      for (unsigned i = 0; i < ft->getNumParams(); i++) if (cb->getArgOperand(i)->getType() != ft->getParamType(i)) { mis("argument " + std::to_string(i + 1) + " is passed as " + tstr(cb->getArgOperand(i)->getType()) + ", the definition takes " + tstr(ft->getParamType(i))); break; }
      if (cb->getType() != ft->getReturnType() && !cb->use_empty()) mis("the result is used as " + tstr(cb->getType()) + ", the definition returns " + tstr(ft->getReturnType()));
    }
  }
  for (auto &v : vrefs) {
    auto it = vdefs.find(v.name); if (it == vdefs.end()) continue;
    nv++; pairs.insert(v.name);
    if (!sameVar(v.G->getValueType(), it->second->getValueType())) rep("IFACE", v.name, v.tu + ":0", "object " + v.name + " is declared as " + tstr(v.G->getValueType()) + " in " + v.tu.substr(v.tu.rfind('/') + 1) + " but defined as " + tstr(it->second->getValueType()));
    else if (v.G->isConstant() && !it->second->isConstant()) rep("IFACE", v.name, v.tu + ":0", "object " + v.name + " is declared const in " + v.tu.substr(v.tu.rfind('/') + 1) + " but defined writable");
  }
  std::string o = "{\"units\":" + std::to_string(M.size()) + ",\"function_references\":" + std::to_string(nf) + ",\"call_sites\":" + std::to_string(ncs) + ",\"object_references\":" + std::to_string(nv) + ",\"assembly_references\":" + std::to_string(nasm) + ",\"symbols\":[";
  bool f = true; for (auto &p : pairs) { if (!f) o += ","; f = false; o += jq(p); }
  o += "],\"findings\":["; f = true; for (auto &x : out) { if (!f) o += ",\n"; f = false; o += x; }
  o += "]}\n";
  if (outp.empty()) fputs(o.c_str(), stdout); else { FILE *fp = fopen(outp.c_str(), "w"); if (!fp) return 2; fputs(o.c_str(), fp); fclose(fp); }
  return 0;
}
