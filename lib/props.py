import re
"""Property -> entry points to analyse, event kinds that refute it, rule text."""
def kinds(*ks, roots=None, where=None):
    ks = set(ks)
    def m(t, e): return e["kind"] in ks and (roots is None or t in roots) and (where is None or where(t, e))
    return m
def trunc(*bufs, ks=None):
    """a length, counter or position of one of the buffers is narrowed: beyond that width bytes are processed at wrong positions or not at all"""
    def m(t, e):
        if e["kind"] != "TRUNC" or (ks is False and e.get("ks")) or (ks is True and not e.get("ks")): return False
        q = re.search(r"\(length of: ([\w,?]+)\)", e["detail"])
        got = set(q.group(1).split(",")) if q else {"?"}
        return bool(got & (set(bufs) | {"?"}))
    return m
def either(*fs): return lambda t, e: any(f(t, e) for f in fs)
GENERIC_NOTE = ("Every implementation directory is compiled to LLVM IR from the current tree and interpreted over abstract values only: "
  "input lengths are symbolic (R*q+r with q unbounded), input bytes are provenance labels, loops are closed by inductive summaries; no code of the repository is executed. "
  "Entry points listed under undecided_for_all_lengths were analysed at the stated number of fixed length pairs only (all contents); "
  "alarms of the abstraction that a re-analysis at the path's own fixed lengths does not reproduce are listed under unconfirmed_alarms and not reported as violations.")
ASM_A = ["LLVM 18's front end translates the C sources faithfully", "buffers passed by the caller do not overlap and have the advertised sizes", "lengths are below 2^56 (2^31 on 32-bit targets)"]
def p14cmp(v, res, findings):
    """keystream and tag value numbers of decryption against those of encryption (positions with a fixed offset; joins have no comparable value number)"""
    from driver import Finding
    roots = {r["root"]: r for r in res if not r["undecided"]}
    n = 0
    for name, e in roots.items():
        if not name.startswith("encrypt"): continue
        d = roots.get(name.replace("encrypt", "decrypt"))
        if not d: continue
        for what in (("ks", "tag") if "@" in name else ("ks",)):   # a tag over all lengths is a join
            for k, hv in d.get(what, {}).items():
                if not k.split(".")[0].isdigit(): continue
                ev = e.get(what, {}).get(k)
                if not ev or len(ev) != 1 or len(hv) != 1: continue
                n += 1
                if ev != hv:
                    findings.append(Finding(v.name, d["root"], "ENC_DEC_DIFFER", "crypto_aead_decrypt", v.dir.split("/repo/")[-1] + "/isap.c:0", f"{'keystream' if what == 'ks' else 'tag'} position {k}: decryption does not use the value that encryption uses", "value numbers differ"))
                    return n
    return n
def p19iface(ok, work, tier):
    """prototypes used by callers against definitions, unit by unit, plus the advertised sizes"""
    import subprocess, json, build
    from driver import Finding, ANALYZER
    from concurrent.futures import ThreadPoolExecutor
    fs, cov = [], {"units": 0, "function_references": 0, "call_sites": 0, "object_references": 0, "assembly_references": 0, "advertised_sizes": 0}
    SIZES = {"CRYPTO_KEYBYTES": 16, "CRYPTO_NPUBBYTES": 16, "CRYPTO_ABYTES": 16, "CRYPTO_NSECBYTES": 0, "CRYPTO_BYTES": 32}
    def one(v):
        import os
        pub = build.public_use(v, os.path.dirname(v.mod_bc))
        cmd = [ANALYZER, "--iface", "1"] + sum((["--asm", a] for a in v.lst), []) + v.tus + ([pub] if pub else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        d = subprocess.run([build.CLANG] + build.cflags(v) + ["-dM", "-E", v.dir + "/api.h"], capture_output=True, text=True)
        return v, json.loads(r.stdout) if r.returncode == 0 else None, dict(l.split(None, 2)[1:] for l in d.stdout.splitlines() if len(l.split(None, 2)) == 3)
    with ThreadPoolExecutor(8) as p:
        for v, r, mac in p.map(one, ok):
            if r:
                for k in cov: cov[k] += r.get(k, 0)
                for f in r["findings"]: fs.append(Finding(v.name, "interface", f["kind"], f["fn"], f["loc"].replace(build.REPO + "/", ""), f["detail"], "prototypes"))
            rel = v.dir.replace(build.REPO + "/", "") + "/api.h"
            for k, n in SIZES.items():
                if k not in mac: continue
                cov["advertised_sizes"] += 1
                try: got = int(mac[k].strip("() uUlL"), 0)
                except ValueError: continue
                if got != n: fs.append(Finding(v.name, "interface", "SIZES", k, rel + ":0", f"{k} is advertised as {got}, the implementation works on {n} bytes", "macros"))
    return fs, cov
ASMFILE = re.compile(r"\.[sS](:|$)")
P19OBJ = re.compile(r" of (k|npub|nsec|out|lenp) \(size")
PROPS = {
 "P18": dict(roots="enc,dec,hash", match=lambda t, e: e["kind"].startswith("ASM_") or e["kind"] in ("OOB", "CONST_WRITE", "INPUT_WRITE", "DANGLING") and bool(ASMFILE.search(e["loc"])), select=lambda v: not v.x86, asm_use=True, stats=["asm_statements", "asm_instructions"],
   rule="Every inline-assembly statement and every assembly routine is decoded and interpreted abstractly against its operand constraints and clobber list, or the AAPCS: undeclared flags, registers or memory, inputs read after a non-early-clobber output, unwritten outputs, callee-saved registers, stack pointer, return address, and accesses outside the objects passed. Exported routines that ISAP itself never calls are analysed from a unit that calls each of them."),
 "P19": dict(roots="enc,hash", static=p19iface, match=lambda t, e: e["kind"] in ("ARG_COUNT", "ARG_TYPE") or e["kind"] == "OOB" and bool(P19OBJ.search(e["detail"])), stats=["accesses", "instructions"],
   rule="Debug-information types of every external function as declared at its callers (including tests/crypto_aead.h and crypto_hash.h) are compared with those of its definition, parameter by parameter, and the values passed at each call site with the parameters of the definition; external objects likewise; the sizes in api.h equal the sizes of the key, nonce, tag and hash objects to which accesses are confined."),
 "P01": dict(roots="dec", match=kinds("RELEASE", "ACCEPT", roots=("dec",)), stats=["m_writes", "verdict_branches", "return_paths", "indirect_verdicts"],
   rule="Typestate: every store to the plaintext buffer and every return of 0 lies on paths whose facts equate all 128 received tag bits with the recomputed tag."),
 "P02": dict(roots="dec", match=kinds("ACCEPT", roots=("dec",)), stats=["verdict_branches", "return_paths", "indirect_verdicts", "tag_bits"],
   rule="Path facts at each return of 0 contain, for each of the 128 received tag bits, its equality with a key-dependent recomputed bit (or, for the leakage-resilient comparison, 128 equalities of the keyed transforms that become tautologies when the received tag is replaced by the one encryption produces)."),
 "P03": dict(roots="short", match=lambda t, e: t == "short", stats=["return_paths", "accesses"],
   rule="For each clen in 0..15 (associated data length symbolic): all accesses in bounds of clen, no store to the plaintext buffer, constant return value -1."),
 "P04": dict(roots="enc,dec,hash", match=kinds("BRANCH", "UNINIT_BRANCH", "EXTERN_COMPARE"), stats=["verdict_branches", "instructions"],
   rule="Information flow: no conditional branch, switch or trip count depends on bits with data provenance, except the verdict over the complete tag comparison."),
 "P05": dict(roots="enc,dec,hash", match=kinds("DATA_ADDR", "DATA_DIV"), stats=["accesses", "instructions"],
   rule="Information flow: no address of a load, store or block copy and no division operand depends on bits with data provenance."),
 "P06": dict(roots="enc,dec,hash", match=kinds("OOB", "DANGLING"), stats=["accesses"],
   rule="Each access is proved inside its object: 0 <= offset and offset+size <= object size as linear inequalities over the input lengths."),
 "P07": dict(roots="enc,dec,hash", match=either(lambda t, e: e["kind"] in ("OUT_INCOMPLETE", "INPUT_WRITE", "CONST_WRITE") or (e["kind"] == "OOB" and e["detail"].startswith("write")), trunc("m", ks=True)), stats=["accesses", "return_paths", "keystream_bits", "m_writes"],
   rule="Typestate of the output buffers: at every successful return the union of written intervals is exactly [0,mlen+16), [0,clen-16) or [0,32); no store to an input object."),
 "P08": dict(roots="enc,dec,hash", match=kinds("GLOBAL_READ", "GLOBAL_WRITE"), stats=["accesses", "instructions"],
   rule="Effect analysis: no load or store on any path resolves to an object of static storage duration that some function may write."),
 "P09": dict(roots="enc,dec", match=either(kinds("DROP_AD"), trunc("ad")), stats=["complete_checks", "tag_bits"],
   rule="Provenance: when the tag is derived every bit of every associated-data block (symbolic block index, each residue) has been mixed into the MAC state, blocks consecutive, without masking."),
 "P10": dict(roots="enc,dec", match=either(kinds("DROP_C", "C_UNWRITTEN", "C_AFTER_READ"), trunc("m", ks=False)), stats=["complete_checks", "tag_bits"],
   rule="Provenance and typestate: when the tag is derived every bit of every ciphertext block has been mixed into the MAC state; the MAC reads only ciphertext bytes already written, which are not written again."),
 "P11": dict(roots="enc,dec", match=kinds("KS_KEY", "KS_NONCE", "KS_CONST", "TAG_KEY", "TAG_NONCE", "TAG_CONST"), stats=["keystream_bits", "tag_bits"],
   rule="Provenance: each keystream and tag bit carries all 128 key bits and all 128 nonce bits in its dependency map."),
 "P12": dict(roots="enc,dec", match=kinds("REKEY_TIME", "REKEY_ORDER", "REKEY_RATE", "REKEY_MIX"), stats=["rekey_injections"],
   rule="Round-depth domain: bits not derived from the key enter a key-dependent re-keying state one at a time, bit i after exactly s_K + i*s_B rounds."),
 "P13": dict(roots="enc,dec", match=kinds("SCHED", "KS_SCHED", "TAG_SCHED"), stats=["keystream_bits", "tag_bits", "complete_checks"],
   rule="Round-depth domain: exact numbers of permutation rounds between consecutive MAC blocks, between keystream blocks, and before the tag (closed form in the block number)."),
 "P14": dict(roots="enc,dec", always_fixed={"isapa": ["9,17"], "isapk": ["19,20"]}, match=either(kinds("KS_DEP", "KS_CONST", "M_UNWRITTEN", "OUT_READ", "REJECT"), trunc("m")), P14cmp=p14cmp, stats=["keystream_bits", "tag_bits"],
   rule="Value numbering: each output byte is the input byte at the same position XOR a keystream of key, nonce and position; the keystream and tag value numbers of decryption equal those of encryption; no path with a matching tag is rejected."),
 "P15": dict(roots="enc,dec,hash", match=kinds("RET", "LENOUT", "TRUNC", "LENP_READ"), stats=["return_paths"],
   rule="Numeric domain: length outputs equal mlen+16 / clen-16 as 64-bit expressions, return values are 0 or -1, and no length or counter is narrowed to a type that cannot hold it."),
 "P16": dict(roots="enc,dec,hash", match=kinds("UNINIT_OUT", "UNINIT_BRANCH", "C_UNWRITTEN", "M_UNWRITTEN", "OUT_READ", "LENP_READ"), stats=["accesses", "keystream_bits", "tag_bits"],
   rule="Provenance: bits of uninitialised objects are tracked as sources; none reaches an output, a return value, a branch or an address."),
 "P17": dict(roots="enc,dec,hash", match=either(kinds("NONTERM", "UNREACHABLE"), trunc("ad", "m", "in")), stats=["closed_form_loops"],
   rule="Every loop is closed by an inductive summary whose trip count is an affine function of the lengths (or a constant)."),
 "P20": dict(roots="hash", match=lambda t, e: t == "hash" and e["kind"] in ("DROP_IN", "HASH_PAD", "HASH_DEP", "HASH_SCHED", "SCHED", "OUT_INCOMPLETE", "RET", "OOB", "UNINIT_OUT", "TRUNC"), stats=["complete_checks", "hash_pads"], select=lambda v: v.hash,
   rule="Provenance and round depth for crypto_hash: all message bits absorbed, 12 rounds after each block, one padding bit, 4x8 output bytes 12 rounds apart."),
 "P21": dict(roots="enc,dec", match=kinds("PAD"), stats=["padding_checks", "constant_injections"],
   rule="Constant single-bit injections into the MAC state are exactly: padding of the associated data, domain separation, padding of the ciphertext, at the round counts given by floor(adlen/R) and floor(mlen/R)."),
 "P22": dict(roots="enc,dec,hash", match=kinds("EXTERN_CALL", "VLA", "RECURSION", "INDIRECT_CALL"), stats=["instructions"],
   rule="Call-graph and effect analysis: reachable calls resolve to functions of the same directory or to memcpy/memset-like intrinsics, no recursion, all stack objects of constant size."),
 "P25": dict(roots="enc,dec", match=kinds("ALIGN"), select=lambda v: "/ref" in v.name and not v.hash, stats=["caller_accesses"],
   rule="Every load and store of the reference implementations that resolves to a caller buffer has an alignment requirement of one byte in the IR."),
 "P27": dict(roots="enc,dec,hash", match=kinds("SMEAR"), stats=["injected_bits", "joined_words"],
   rule="Provenance: every bit of associated data, ciphertext, message or hash input that is added to the state is one raw input bit, and no input bit is added to two bits of a word (sign extension, overlapping loads, non-linear pre-combination); no replicated key or nonce bit is joined with another one by OR."),
 "P28": dict(roots="enc,dec,hash", match=kinds("INPLACE"), stats=["inplace_reads"],
   rule="Typestate of the output buffers: every read of the message (ciphertext, hash input) is proved disjoint from the positions of the output already written on that path, so the two buffers may be the same."),
 "P29": dict(roots="enc,dec,hash", match=kinds("OVERFLOW", "SHIFT_RANGE", "UNREACHABLE", "ADDR_DEP"), stats=["signed_operations", "address_bits_used"],
   rule="Numeric domain: shift amounts are below the operand width, signed arithmetic on lengths and counters stays in range, no path reaches undefined behaviour; address bits are tracked as a source, branches on them are followed both ways and none reaches an output or return value."),
}
for p in PROPS.values(): p.setdefault("assumptions", ASM_A)
TECH = "static abstract interpretation of LLVM IR (provenance, numeric, round-depth and typestate domains)"
NA = {
 "P23": "Numerical equality of the outputs of different implementations (and with the specification) quantifies over the values of unbounded nonlinear bit functions; a static argument would have to be an equivalence proof by a solver or an execution, both outside this family. The structural parts that static analysis can decide are P09-P14, P20 and P21.",
 "P24": "Cryptographic hardness is a conjecture about adversaries, not a property of the source that dataflow or type rules can decide.",
 "P26": "Cycle counts depend on caches, pipelines and compilers' final code; the source-level part (no data-dependent control flow, addresses or divisions) is P04 and P05.",
}
