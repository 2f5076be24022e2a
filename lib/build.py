"""Front end: turns every implementation directory of /repo's current working tree into one LLVM module."""
import glob, os, subprocess, hashlib, re
REPO = os.environ.get("ISAP_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
ALGS = ["isapa128av20", "isapa128v20", "isapk128av20", "isapk128v20"]

class Variant:
    def __init__(s, name, alg, d, srcs, target, defs, incs, hash_):
        s.name, s.alg, s.dir, s.srcs, s.target, s.defs, s.incs, s.hash = name, alg, d, srcs, target, defs, incs, hash_
        s.asm = sorted(glob.glob(d + "/*.s") + glob.glob(d + "/*.S"))
        s.x86 = target in ("x86", "avx")

def target_of(impl):
    if impl.startswith("avx"): return "avx"
    if impl.endswith("_armv6"): return "armv6"
    if "armv" in impl: return "armv7"
    return "x86"

TFLAGS = {"x86": [], "avx": ["-march=x86-64-v4", "-include", os.path.dirname(os.path.abspath(__file__)) + "/include/avx_compat.h"],
          "armv6": ["--target=arm-linux-gnueabi", "-isystem", "/usr/arm-linux-gnueabi/include", "-march=armv6", "-marm"],
          "armv7": ["--target=arm-linux-gnueabi", "-isystem", "/usr/arm-linux-gnueabi/include", "-march=armv7-a", "-mthumb"]}

def variants():
    out = []
    for cat in ("crypto_aead", "crypto_aead_hash"):
        for alg in sorted(os.listdir(f"{REPO}/{cat}")):
            base = f"{REPO}/{cat}/{alg}"
            if not os.path.isdir(base): continue
            for impl in sorted(os.listdir(base)):
                d = f"{base}/{impl}"
                if not os.path.isdir(d) or not glob.glob(d + "/*.c"): continue
                h = cat == "crypto_aead_hash"
                short = f"{'hash/' if h else ''}{alg}/{impl}"
                srcs = sorted(p for p in glob.glob(d + "/*.c") if "genkat" not in p)
                if alg == "isapxv20":
                    srcs += sorted(glob.glob(d + "/lib/*/*.c"))
                    incs = sorted({os.path.dirname(p) for p in glob.glob(d + "/lib/*/*.h")})
                    for a, b, nm in (("ISAP128A", "ASCON", "isapa128av20"), ("ISAP128", "ASCON", "isapa128v20"),
                                     ("ISAP128A", "KECCAKP400", "isapk128av20"), ("ISAP128", "KECCAKP400", "isapk128v20")):
                        out.append(Variant(f"{short}:{a}-{b}", nm, d, srcs, "x86", [f"-D{a}", f"-D{b}", "-DDEBUG=0"], incs, False))
                else:
                    out.append(Variant(short, alg, d, srcs, target_of(impl), [], [], h))
    return out

# gcc accepts these with a warning only
LAX = [f"-Wno-error={w}" for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types")]
def cflags(v):
    return (["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w"] + LAX + ["-DNDEBUG", "-DCRYPTO_AEAD"] + (["-DCRYPTO_HASH"] if v.hash else [])
            + TFLAGS[v.target] + v.defs + [f"-I{v.dir}", f"-I{REPO}/tests"] + [f"-I{i}" for i in v.incs])

def asm_listings(v, out):
    """assembles the .s files of a directory and decodes them into listings for the analyser"""
    r = []
    for i, s in enumerate(v.asm):
        o = f"{out}/asm{i}.o"
        fl = ["-march=armv6", "-marm"] if v.target == "armv6" else ["-march=armv7-a", "-mthumb"]
        q = subprocess.run(["arm-linux-gnueabi-gcc", "-c", "-g"] + fl + [f"-I{v.dir}", s, "-o", o], capture_output=True, text=True)
        if q.returncode: raise RuntimeError(f"{s}: does not assemble:\n{q.stderr[:2000]}")
        nm = subprocess.run(["arm-linux-gnueabi-nm", "-g", "--defined-only", o], capture_output=True, text=True).stdout
        dis = subprocess.run(["arm-linux-gnueabi-objdump", "-dl", o], capture_output=True, text=True).stdout
        with open(f"{out}/asm{i}.lst", "w") as fp:
            for l in nm.splitlines(): fp.write("GLOBAL " + l.split()[2] + "\n")
            fp.write(dis)
        r.append(f"{out}/asm{i}.lst")
    return r

def public_use(v, out):
    """a unit that uses the public interface exactly as tests/ declares it"""
    b = f"{out}/public.bc"
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "include", "public_use.c")
    r = subprocess.run([CLANG] + [f for f in cflags(v) if f != f"-I{v.dir}"] + ["-c", "-emit-llvm", "-o", b, src], capture_output=True, text=True)
    return b if r.returncode == 0 else None

def asm_use(v, out):
    """a unit that calls every routine the assembly files export, whether ISAP uses it or not"""
    b = f"{out}/use.bc"
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "include", "asm_use.c")
    r = subprocess.run([CLANG] + cflags(v) + ["-c", "-emit-llvm", "-o", b, src], capture_output=True, text=True)
    return b if r.returncode == 0 else None

def compile_variant(v, out):
    """-> path of linked module; raises on compile errors"""
    os.makedirs(out, exist_ok=True)
    bcs = []
    v.lst = asm_listings(v, out)
    for i, s in enumerate(v.srcs):
        b = f"{out}/{i}.bc"
        r = subprocess.run([CLANG] + cflags(v) + ["-c", "-emit-llvm", "-o", b, s], capture_output=True, text=True)
        if r.returncode: raise RuntimeError(f"{s}: does not compile:\n{r.stderr[:2000]}")
        bcs.append(b)
    v.tus = bcs
    r = subprocess.run([LINK, "-o", f"{out}/mod.bc"] + bcs, capture_output=True, text=True)
    if r.returncode: raise RuntimeError(f"{v.name}: does not link:\n{r.stderr[:2000]}")
    return f"{out}/mod.bc"
if __name__ == "__main__":
    import sys
    for v in variants():
        if len(sys.argv) > 1 and not re.search(sys.argv[1], v.name): continue
        o = f"/tmp/isapbc/{v.name.replace('/', '_').replace(':', '_')}"
        try: print(v.name, v.alg, v.target, compile_variant(v, o), *v.lst)
        except RuntimeError as e: print("FAIL", v.name, e)
