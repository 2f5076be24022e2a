// isapsa: static analysis of one implementation directory (linked LLVM module) of the ISAP code package.
#include "interp.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/IR/Verifier.h"
#include <chrono>
Cfg gcfg;
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
template <class C> static std::string jlist(const C &c) { std::string o = "["; bool f = true; for (auto &x : c) { if (!f) o += ","; f = false; o += js(x); } return o + "]"; }
struct RootRes { std::string name, undecided; std::vector<Event> events; std::map<std::string, long> stats; std::set<std::string> fns, loops, branches, accesses, externs, asms; uint64_t stack = 0; double sec = 0; Interp::OutMap ks, tag; bool needEnc = false; std::set<std::string> ksFns; };

static SP initState(Interp &I) {
  SP s = std::make_shared<State>();
  auto lim = [&](int v) { s->cons.push_back(Aff::var(v)); s->cons.push_back(Aff(gcfg.lmax) - Aff::var(v)); };
  s->lenA = gcfg.fixA >= 0 ? Aff(gcfg.fixA) : Aff::var(V_LA);
  s->lenM = gcfg.fixM >= 0 ? Aff(gcfg.fixM) : Aff::var(V_LM);
  s->lenN = gcfg.fixN >= 0 ? Aff(gcfg.fixN) : Aff::var(V_LN);
  if (gcfg.hash) { s->lenA = Aff(0); s->lenM = Aff(0); if (gcfg.fixN < 0) lim(V_LN); } else { s->lenN = Aff(0); if (gcfg.fixA < 0) lim(V_LA); if (gcfg.fixM < 0 && gcfg.shortLen < 0) lim(V_LM); }
  if (gcfg.shortLen >= 0) s->lenM = Aff(gcfg.shortLen - 16);
  return s;
}
static int role(Interp &I, int r, const char *n) { ObjDesc d; d.name = n; d.role = r; d.size = 0; d.origin = nullptr; d.isStatic = false; I.objs.push_back(d); return I.objs.size() - 1; }
static RootRes runRoot(Module &M, const std::string &name, std::map<std::pair<int, int>, std::set<uint64_t>> *encTags, std::map<std::string, AsmFunc *> &asms) {
  RootRes rr; rr.name = name; gcfg.root = name;
  Interp I(M);
  I.asmFuncs = asms;
  I.instOf({});
  auto t0 = std::chrono::steady_clock::now();
  if (encTags && !gcfg.encrypt) I.encTags = *encTags;
  Function *F = M.getFunction(gcfg.use ? "isapsa_use" : gcfg.hash ? "crypto_hash" : gcfg.encrypt ? "crypto_aead_encrypt" : "crypto_aead_decrypt");
  if (!F || F->isDeclaration()) { rr.undecided = "entry function not found"; return rr; }
  try {
    SP s = initState(I);
    auto P = [&](int r, const char *n) { return mkPtr(role(I, r, n), Aff(0)); };
    std::vector<VP> args;
    if (gcfg.use) args = {P(R_K, "k")};
    else if (gcfg.hash) args = {P(R_OUT, "out"), P(R_IN, "in"), mkNum(64, s->lenN)};
    else if (gcfg.encrypt) args = {P(R_C, "c"), P(R_LENP, "clen"), P(R_M, "m"), mkNum(64, s->lenM), P(R_AD, "ad"), mkNum(64, s->lenA), P(R_NSEC, "nsec"), P(R_N, "npub"), P(R_K, "k")};
    else args = {P(R_M, "m"), P(R_LENP, "mlen"), P(R_NSEC, "nsec"), P(R_C, "c"), mkNum(64, s->lenM + Aff(16)), P(R_AD, "ad"), mkNum(64, s->lenA), P(R_N, "npub"), P(R_K, "k")};
    if (F->arg_size() != args.size()) { rr.undecided = "unexpected prototype of " + F->getName().str(); return rr; }
    auto rets = I.callFunction(s, F, args, "");
    I.curI = nullptr;
    for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator())) I.curI = bb.getTerminator();
    if (!gcfg.use) for (auto &r : rets) {
      std::function<void(SP)> fin = [&](SP z) { try { I.finish(*z, r.v); } catch (SplitNeeded &sn) { for (auto &p : I.split(z, sn.which)) fin(p); } };
      fin(r.st);
    }
    if (rets.empty()) I.event("NONTERM", true, "no execution path returns");
  } catch (Undecided &u) { rr.undecided = u.why + " at " + I.loc(I.curI); }
  catch (StopRoot &) {}
  catch (SplitNeeded &) { rr.undecided = "length case split outside an instruction"; }
  I.stats["instructions"] = I.nInst; I.stats["accesses"] = I.nAcc;
  rr.events = I.events; rr.stats = I.stats; rr.fns = I.fnsSeen; rr.loops = I.loopsSeen; rr.branches = I.branchesSeen; rr.accesses = I.accessSites; rr.externs = I.externs; rr.asms = I.asmSeen; rr.stack = I.maxStack;
  rr.needEnc = I.needEnc; rr.ksFns = I.ksFns; rr.ks = I.ksMap; rr.tag = I.tagMap;
  if (gcfg.encrypt && encTags) *encTags = I.encTags;
  rr.sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return rr;
}
int ifaceMain(const std::vector<std::string> &mods, const std::vector<std::string> &asmf, const std::string &out);
int loadAsm(const char *path, std::map<std::string, AsmFunc *> &out, std::string &err);
int main(int argc, char **argv) {
  domainInit();
  std::map<std::string, std::string> o; std::vector<std::string> mods, asmf, fixed;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--asm") asmf.push_back(argv[++i]);
    else if (a == "--fixed") fixed.push_back(argv[++i]);
    else if (a.rfind("--", 0) == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; }
    else mods.push_back(a);
  }
  if (o.count("iface")) return ifaceMain(mods, asmf, o["out"]);
  if (mods.size() != 1) { fprintf(stderr, "usage: isapsa --alg A --roots enc,dec,short,hash module.bc\n"); return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(mods[0], E, C);
  if (!M) { E.print("isapsa", errs()); return 2; }
  { // scalar replacement only: keep every branch and memory access of the source
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    MPM.run(*M, MAM);
  }
  std::map<std::string, Spec> specs = {
    {"isapa128av20", {"isapa128av20", 8, 12, 1, 6, 12, 40, false}}, {"isapa128v20", {"isapa128v20", 8, 12, 12, 12, 12, 40, false}},
    {"isapk128av20", {"isapk128av20", 18, 16, 1, 8, 8, 50, true}}, {"isapk128v20", {"isapk128v20", 18, 20, 12, 12, 12, 50, true}}};
  if (!specs.count(o["alg"])) { fprintf(stderr, "unknown algorithm %s\n", o["alg"].c_str()); return 2; }
  gcfg.spec = specs[o["alg"]];
  gcfg.variant = o["variant"];
  gcfg.modR = o.count("mod") ? atoi(o["mod"].c_str()) : gcfg.spec.R;
  gcfg.ptrBits = M->getDataLayout().getPointerSizeInBits();
  if (gcfg.ptrBits == 32) gcfg.lmax = ((int64_t)1 << 31) - 4096;
  std::map<std::string, AsmFunc *> asms; std::string err;
  for (auto &a : asmf) if (loadAsm(a.c_str(), asms, err)) { fprintf(stderr, "isapsa: %s\n", err.c_str()); return 2; }
  std::map<std::pair<int, int>, std::set<uint64_t>> encTags;
  std::vector<RootRes> res;
  auto reset = [&] { gcfg.encrypt = gcfg.decrypt = gcfg.hash = gcfg.use = false; gcfg.shortLen = -1; gcfg.fixA = gcfg.fixM = gcfg.fixN = -1; gcfg.noSym = false; };
  std::string roots = "," + o["roots"] + ",";
  auto want = [&](const char *r) { return roots.find(std::string(",") + r + ",") != std::string::npos; };
  if (want("enc")) { reset(); gcfg.encrypt = true; res.push_back(runRoot(*M, "encrypt", &encTags, asms)); }
  if (want("dec")) { reset(); gcfg.decrypt = true; res.push_back(runRoot(*M, "decrypt", &encTags, asms));
    if (res.back().needEnc && !want("enc")) {   // transformed tags are compared: their meaning comes from encryption
      reset(); gcfg.encrypt = true; runRoot(*M, "encrypt", &encTags, asms);
      reset(); gcfg.decrypt = true; res.back() = runRoot(*M, "decrypt", &encTags, asms);
    } }
  if (want("short")) for (int n = 0; n < 16; n++) { reset(); gcfg.decrypt = true; gcfg.shortLen = n; res.push_back(runRoot(*M, "decrypt-short-" + std::to_string(n), nullptr, asms)); }
  if (want("hash")) { reset(); gcfg.hash = true; res.push_back(runRoot(*M, "hash", nullptr, asms)); }
  if (want("use")) { reset(); gcfg.use = gcfg.encrypt = true; gcfg.fixA = gcfg.fixM = 0; res.push_back(runRoot(*M, "use", nullptr, asms)); }
  for (auto &f : fixed) {
    int a, m; if (sscanf(f.c_str(), "%d,%d", &a, &m) != 2) continue;
    if (a < 0) { reset(); gcfg.hash = true; gcfg.fixN = m; gcfg.noSym = true; res.push_back(runRoot(*M, "hash@" + f, nullptr, asms)); continue; }
    std::map<std::pair<int, int>, std::set<uint64_t>> et;
    reset(); gcfg.encrypt = true; gcfg.fixA = a; gcfg.fixM = m; gcfg.noSym = true; res.push_back(runRoot(*M, "encrypt@" + f, &et, asms));
    reset(); gcfg.decrypt = true; gcfg.fixA = a; gcfg.fixM = m; gcfg.noSym = true; res.push_back(runRoot(*M, "decrypt@" + f, &et, asms));
  }
  if (getenv("ISAPSA_STAT")) { size_t w = 0; for (auto &f : formTab) w += f.l.n; fprintf(stderr, "forms %zu words %zu leaves %zu dms %zu affs %zu\n", formTab.size(), w, leafTab.size(), dmTab.size(), affTab.size()); }
  std::string out = "{\"variant\":" + js(gcfg.variant) + ",\"alg\":" + js(gcfg.spec.alg) + ",\"roots\":[";
  for (size_t i = 0; i < res.size(); i++) {
    auto &r = res[i];
    if (i) out += ",\n";
    char b[64]; snprintf(b, sizeof b, "%.2f", r.sec);
    out += "{\"root\":" + js(r.name) + ",\"undecided\":" + js(r.undecided) + ",\"sec\":" + b + ",\"max_stack\":" + std::to_string(r.stack) + ",\"functions\":" + jlist(r.fns) + ",\"loops\":" + jlist(r.loops) + ",\"branches\":" + jlist(r.branches) + ",\"ksfns\":" + jlist(r.ksFns) + ",\"accesses\":" + jlist(r.accesses) + ",\"externs\":" + jlist(r.externs) + ",\"asm\":" + jlist(r.asms) + ",\"stats\":{";
    bool f = true; for (auto &s : r.stats) { if (!f) out += ","; f = false; out += js(s.first) + ":" + std::to_string(s.second); }
    out += "},\"events\":[";
    f = true; for (auto &e : r.events) { if (!f) out += ","; f = false; out += "{\"kind\":" + js(e.kind) + ",\"fn\":" + js(e.fn) + ",\"loc\":" + js(e.loc) + ",\"detail\":" + js(e.detail) + ",\"wa\":" + std::to_string(e.wa) + ",\"wm\":" + std::to_string(e.wm) + ",\"count\":" + std::to_string(e.count) + "}"; }
    out += "]";
    auto om = [&](const char *n, Interp::OutMap &m) { out += std::string(",\"") + n + "\":{"; bool g = true; for (auto &x : m) { if (!g) out += ","; g = false; out += js(x.first) + ":["; bool h = true; for (uint64_t v : x.second) { if (!h) out += ","; h = false; char q[32]; snprintf(q, sizeof q, "\"%016llx\"", (unsigned long long)v); out += q; } out += "]"; } out += "}"; };
    om("ks", r.ks); om("tag", r.tag);
    out += "}";
  }
  out += "]}\n";
  if (o.count("out")) { FILE *fp = fopen(o["out"].c_str(), "w"); if (!fp) return 2; fputs(out.c_str(), fp); fclose(fp); } else fputs(out.c_str(), stdout);
  return 0;
}
