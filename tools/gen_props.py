#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json
A="crypto_aead/"
CA=[A+"isapa128av20/ref/crypto_aead.c",A+"isapa128av20/opt_64/crypto_aead.c",A+"isapa128av20/opt_32_stp/crypto_aead.c",A+"isapa128av20/avx_512/crypto_aead.c",A+"isapxv20/ref/crypto_aead.c"]
IS=[A+"isapa128av20/ref/isap.c",A+"isapa128av20/opt_64/isap.c",A+"isapa128av20/bi_32/isap.c",A+"isapa128av20/opt_32_tiny/isap.c",A+"isapa128av20/avx_512/isap.c",A+"isapk128av20/opt_64/isap.c",A+"isapk128av20/ref/isap.c",A+"isapxv20/ref/isap.c"]
PERM=[A+"isapa128av20/opt_64/asconp.h",A+"isapa128av20/bi_32_armv6/asconp.h",A+"isapk128av20/opt_32_armv7m/KeccakP-400-armv7m-le-gcc.s",A+"isapk128av20/ref/KeccakP-400-reference.c"]
HASH=["crypto_aead_hash/isapa128av20/opt_64/isap.c","crypto_aead/isapa128av20/opt_8_tiny/isap.c"]
P=[]
def p(i,title,st,over,q,why,files,mech,obs=None):
    assert len(title)<=80,(i,len(title))
    P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["crypto_aead_encrypt","crypto_aead_decrypt"],hook_needed=None)))
p("P01","Decryption releases no plaintext before the tag has verified",
 "Authenticated decryption writes nothing to the caller's plaintext buffer unless the received tag has already been found equal to the recomputed one. If verification fails the call returns -1 with the plaintext buffer untouched, and it returns 0 only if verification succeeded.",
 ["inputs","configurations"],"every key, nonce, associated data, ciphertext and tag of every length, in every implementation directory",
 "The KAT programs only ever decrypt ciphertexts with correct tags and never look at the plaintext buffer after a failure; forged inputs are not exercised at all.",
 CA,[("tag comparison guards the decryption call","crypto_aead_decrypt")],["crypto_aead_decrypt"])
p("P02","Decryption accepts only if all 128 tag bits match",
 "Authenticated decryption returns 0 only if every one of the 128 received tag bits equals the corresponding bit of the recomputed tag (for the leakage-resilient variants: after both tags went through the same keyed finalisation), and otherwise returns -1. No byte, bit or position of the tag is exempt, and no input makes it skip the comparison.",
 ["inputs","configurations"],"every received tag, in particular tags that differ from the right one in any single bit, for every message",
 "A truncated or lossy comparison accepts every valid tag, and valid tags are all the KAT programs ever submit; 2^128 wrong tags cannot be sampled.",
 CA,[("byte-wise comparison count over 16 bytes","crypto_aead_decrypt"),("pvp tag finalisation","isapa128av20/*_stp/isap.c")],["crypto_aead_decrypt"])
p("P03","Ciphertexts shorter than a tag are rejected",
 "Authenticated decryption of an input shorter than 16 bytes returns -1 without reading any byte beyond the given ciphertext length and without writing to the plaintext buffer.",
 ["inputs","configurations"],"all ciphertext lengths 0..15, with every associated data length",
 "No existing test passes a ciphertext shorter than the tag; the length subtraction wraps for these inputs only.",
 CA,[("length check before the tag is split off","crypto_aead_decrypt")],["crypto_aead_decrypt"])
p("P04","No branch depends on key, plaintext, state or any other data byte",
 "The sequence of executed instructions depends only on the lengths of the inputs and on the final accept/reject verdict. No branch, loop bound or early exit is decided by bytes of the key, nonce, message, associated data, ciphertext, hash input, cipher state or tag, and the verdict is taken on the whole tag at once.",
 ["inputs","configurations"],"all contents of every input buffer, for every length",
 "Tests see outputs, not executed paths, and use one key and nonce only; a secret-dependent special case that the KAT values do not trigger is invisible to them.",
 CA+IS+PERM,[("straight-line bit-sliced permutations","asconp.h, KeccakP-400*"),("branch-free byte comparison","crypto_aead_decrypt")])
p("P05","No memory address or division depends on data bytes",
 "Every address read or written, and every operand of an instruction with data-dependent latency (division, remainder), depends only on the buffer addresses and lengths, never on bytes of the key, nonce, message, associated data, ciphertext, hash input, cipher state or tag.",
 ["inputs","configurations"],"all contents of every input buffer, for every length",
 "A table lookup indexed by a secret computes the right outputs, so no output comparison can see it.",
 CA+IS+PERM,[("no look-up tables over data","isap.c, asconp.h, KeccakP-400*")])
p("P06","Every memory access stays inside the buffers the caller passed",
 "For every combination of input lengths, each call reads and writes only bytes inside the buffers and lengths given by the caller, its own local objects and its constant tables. In particular nothing past the end of the key, nonce, associated data, message, ciphertext or hash input is touched.",
 ["inputs","configurations"],"all associated data, message, ciphertext and hash input lengths (all residues modulo the rate, zero, and unbounded block counts)",
 "The KAT runs have no memory checker, use lengths up to 32 in oversized static arrays, and an over-read of a few bytes changes no output.",
 CA+IS,[("block loops bounded by remaining length","isap_mac, isap_enc, crypto_hash")])
p("P07","Outputs are written completely and exactly, inputs are never modified",
 "A successful encryption writes every one of the mlen+16 ciphertext bytes, a successful decryption every one of the clen-16 plaintext bytes and the hash all 32 output bytes, with nothing left unwritten and nothing else written besides the length outputs. Keys, nonces, associated data, messages, received ciphertexts and hash inputs are never written.",
 ["inputs","configurations"],"all lengths and contents",
 "The KAT runs compare outputs of up to 48 bytes only and never check that inputs or neighbouring memory are unchanged, so an incomplete or overlong write for larger lengths passes.",
 CA+IS,[("output loops over all blocks and the tail","isap_enc, crypto_aead_encrypt")])
p("P08","Calls share no mutable state",
 "The library keeps no state between or across calls: the result of a call is determined by its arguments alone, and calls running concurrently on disjoint buffers cannot influence one another. No function reads or writes a mutable object of static storage duration.",
 ["schedules","histories","inputs"],"all interleavings of concurrent calls and all histories of earlier calls",
 "The KAT programs are single-threaded and call the functions in one fixed order, so a stale or shared static variable that is overwritten in that order is never observed.",
 IS+[A+"isapa128av20/opt_32_stp/isap.c"],[("all state lives in automatic objects and arguments","isap.c")])
p("P09","Every bit of the associated data is authenticated, at every length",
 "For associated data of any length, every bit of every byte is absorbed into the tag computation, in order, exactly once per block, none skipped, masked away or absorbed beyond the end. Changing, adding or removing any associated data byte therefore changes the input of the permutation from which the tag is derived.",
 ["inputs","configurations"],"all associated data lengths and contents",
 "The KATs stop at 32 bytes (a single full block for the Keccak variants); a loop that drops, truncates or repeats blocks beyond that, or drops bits that are zero in the KAT data, passes.",
 IS,[("absorb loop of the MAC","isap_mac")])
p("P10","Every bit of the final ciphertext is authenticated, at every length",
 "The tag is computed over the ciphertext as finally output or received: every bit of every ciphertext byte is absorbed in order, exactly once, for every length, and during encryption no ciphertext byte is absorbed before it has its final value.",
 ["inputs","configurations"],"all message lengths and contents",
 "The KATs stop at 32 bytes and only valid ciphertexts are decrypted, so unauthenticated ciphertext bytes in longer messages (or bits that never matter for the KAT values) go unnoticed.",
 IS+CA,[("encrypt-then-MAC order","crypto_aead_encrypt"),("absorb loop of the MAC","isap_mac")])
p("P11","Every key and nonce bit enters the computation wherever they are used",
 "Whenever the key or the nonce is used to derive the keystream or the tag, all 128 of its bits are used. The keystream depends on the full key and the full nonce, and the tag depends on the full key and the full nonce.",
 ["inputs","configurations"],"all 2^128 keys and 2^128 nonces",
 "Every KAT uses the single key 00..0F and nonce 00..0F; replacing a key or nonce byte by its KAT value, or masking bits that are zero in it, leaves every test passing.",
 IS,[("state initialisation from key and nonce","isap_rk, isap_mac, isap_enc")])
p("P12","Re-keying absorbs at most one bit per permutation call",
 "While the session key is derived from the long-term key, the 128 bits of the derivation input (nonce or MAC state) are absorbed one single bit at a time, in order, with s_K rounds before the first, s_B rounds between any two and s_K rounds after the last. The long-term key never meets other data in any other way.",
 ["inputs","configurations"],"all keys and derivation inputs",
 "This is a side-channel guarantee: absorbing bits at another rate for some inputs, or mixing the long-term key with public data elsewhere, need not show in outputs for the single KAT key and nonce.",
 IS,[("bit-wise absorb loop","isap_rk")])
p("P13","The permutation round schedule is honoured for every length",
 "Between consecutively absorbed blocks, between consecutive keystream or hash output blocks, and around initialisation, domain separation, re-keying and finalisation, exactly the number of permutation rounds fixed by the parameter set (s_H, s_B, s_E, s_K) is applied, independently of the lengths, the position and the contents of the data.",
 ["inputs","configurations"],"all lengths of associated data, message and hash input, for each of the four parameter sets",
 "The tests run at most four blocks (one full block for the Keccak variants), and do not run the AVX implementations at all; a schedule that changes for later blocks passes.",
 IS+PERM,[("P_sH, P_sB, P_sE, P_sK","config.h, asconp.h, isap.c")])
p("P14","Decryption inverts encryption for every input",
 "For every key, nonce, associated data and message, decrypting the result of encryption with the same key, nonce and associated data is accepted and returns the original message. Each ciphertext byte is the message byte at the same position XORed with a keystream that depends only on key, nonce and position, and the tag recomputed by decryption is the same function of key, nonce, associated data and ciphertext as the tag produced by encryption.",
 ["inputs","configurations"],"all keys, nonces, lengths and contents",
 "The tests encrypt and decrypt with one key and nonce and messages up to 32 bytes.",
 IS+CA,[("same MAC and stream functions on both sides","crypto_aead_encrypt, crypto_aead_decrypt")])
p("P15","Lengths are reported and processed at full width",
 "Encryption returns 0 and reports exactly mlen+16, decryption reports exactly clen-16 on success, for every length. Lengths, block counters and offsets are never truncated below the width of the address space, so no length makes them wrap.",
 ["inputs","configurations"],"all lengths up to the size of the address space",
 "The tests use lengths up to 32 (1024 for the hash), so an 8-, 16- or 32-bit counter behaves correctly in all of them.",
 CA+IS,[("unsigned long long lengths","crypto_aead.c, isap.c")],["crypto_aead_encrypt","crypto_aead_decrypt","crypto_hash"])
p("P16","No output depends on uninitialised memory",
 "Every value that reaches an output buffer, a length output, a return value, a branch or an address is computed from the inputs and constants only, never from an uninitialised local object or from bytes of an output buffer that have not been written yet.",
 ["inputs","configurations"],"all lengths and contents",
 "Uninitialised stack memory often holds the expected value (zero or the result of the preceding call) in a fixed test sequence; tests run without a memory checker.",
 IS+CA,[("explicit initialisation of all state words and buffers","isap.c")])
p("P17","Every call terminates after work affine in the lengths",
 "Every loop has a trip count that is a closed-form function of the lengths: each call terminates for every input, and each block loop advances by its block size in every iteration without revisiting or skipping positions.",
 ["inputs","configurations"],"all lengths and contents",
 "A loop that fails to terminate or revisits blocks only for lengths or contents outside the sampled ones does not show.",
 IS+CA,[("counting loops","isap.c, crypto_aead.c, asconp.h")])
p("P18","Assembly code keeps the contract it declares to the compiler",
 "Inline assembly modifies only the registers, flags and memory it declares, never reads a declared output before writing it or overwrites an input that it still needs, and assembly routines preserve every callee-saved register and the stack pointer and touch no memory beyond the state they are given.",
 ["programs","configurations","inputs"],"all register allocations and surrounding code a compiler may choose, all inputs",
 "A missing clobber or early-clobber only fails under a register allocation or surrounding code other than the one the single test build happens to produce; Cortex-M builds are not run at all.",
 [A+"isapa128av20/bi_32_armv6/asconp.h",A+"isapa128av20/bi_32_armv6m/asconp.h",A+"isapa128av20/bi_32_armv7m/asconp.h",A+"isapa128v20/opt_32_armv67m/asconp.h",A+"isapk128av20/opt_32_armv6m/KeccakP-400-armv6m-le-gcc.s",A+"isapk128av20/opt_32_armv7m/KeccakP-400-armv7m-le-gcc.s"],[("constraint and clobber lists","asm statements"),("push/pop of callee-saved registers",".s files")])
p("P19","Separately compiled units agree on every shared interface",
 "Wherever one source file calls a function or refers to an object defined in another (including assembly), both sides agree on the number, width and order of parameters, the return type and the object's type. The key, nonce, tag and hash sizes each implementation advertises are the sizes it actually reads and writes.",
 ["programs","configurations"],"all implementation directories and all target data models they are built for",
 "On the single test host, mismatched integer widths usually travel in the same registers with clean upper halves, so a wrong prototype still passes; the compiler never sees both sides.",
 [A+"isapxv20/ref/permutation.h",A+"isapa128av20/ref/isap.h",A+"isapa128av20/ref/api.h",A+"isapk128av20/opt_32_armv6m/KeccakP-400-SnP.h"],[("shared headers","*.h"),("api.h constants","api.h")])
p("P20","The hash covers the whole message at every length",
 "For a message of any length the hash absorbs every bit of every byte in order, exactly once, padded unambiguously, with the full 12 rounds after every block, and outputs 32 bytes squeezed in four blocks with 12 rounds between them. No byte of the message is skipped, masked or read twice.",
 ["inputs","configurations"],"all message lengths and contents",
 "The hash KAT covers lengths up to 1024 with one fixed content pattern per length.",
 HASH,[("absorb and squeeze loops","crypto_hash")],["crypto_hash"])
p("P21","Padding and domain separation are applied for every length",
 "For every pair of lengths the MAC input is padded by exactly one 1-bit after the last associated data byte and exactly one 1-bit after the last ciphertext byte, and the domain separation bit is flipped exactly once, between the two, including when either is empty or a multiple of the rate. The boundary between associated data and ciphertext is therefore unambiguous.",
 ["inputs","configurations"],"all pairs of associated data and message lengths",
 "The KATs cover lengths up to 32; padding or separation that is skipped or doubled only for longer inputs, or for combinations of lengths reached by other code paths, passes.",
 IS,[("0x80 padding and separation bit","isap_mac")])
p("P22","Calls have no effects outside their outputs and bounded stack use",
 "No library function allocates heap memory, performs input or output, calls into the operating system, or calls itself recursively, and its stack use is bounded by a constant independent of the input lengths.",
 ["inputs","programs","configurations"],"all calls with all inputs",
 "Tests do not observe side effects, and a length-dependent stack object or allocation is harmless for the short inputs they use.",
 IS+CA+PERM,[("self-contained straight-line code","all implementation files")])
p("P23","All implementations of an algorithm compute the same specified function",
 "For every input, all implementation directories of one algorithm produce identical ciphertexts, tags and hash values, namely those of the ISAP v2.0 specification.",
 ["inputs","configurations","programs"],"all inputs, all implementation pairs",
 "KATs sample 1089 short inputs under one key and nonce.",
 IS+PERM,[("independent implementations of one specification","crypto_aead/*")])
p("P24","Forgery and key recovery are infeasible",
 "No efficient adversary can produce an accepted ciphertext that was not output by encryption, or learn the key or plaintexts from ciphertexts and bounded leakage.",
 ["inputs","histories"],"all efficient adversaries","Tests cannot quantify over adversaries.",
 IS,[("the ISAP mode and permutations","isap.c")])
p("P25","Buffers of any alignment are handled",
 "Caller buffers may start at any byte address: no call faults or computes a different result because an input or output buffer is not aligned to a word boundary.",
 ["inputs","configurations"],"all buffer addresses, all targets","The tests use static arrays that happen to be aligned and hosts that tolerate misalignment.",
 IS,[("word-wise loads and stores","isap.c")])
p("P26","Execution time is independent of secret data",
 "The time a call takes on a given machine, measured in cycles, is independent of the values of keys, plaintexts and tags.",
 ["inputs","configurations"],"all secrets on all supported machines","Tests do not measure time.",
 IS,[("constant-time coding","isap.c, asconp.h")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
