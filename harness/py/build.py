"""Builds the driver (real sources of /repo + harness) into /verif/build; rebuilt whenever an input changed."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf, fcntl
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")

class BuildError(Exception): pass

SRC_GLOBS = ["src/util/*.c", "src/verifier/*.c", "src/prover/*.c", "src/chains/eth/ssz/*.c", "src/chains/eth/verifier/*.c",
             "src/chains/eth/prover/*.c", "src/chains/eth/zk_verifier/*.c", "src/chains/eth/bn254/*.c",
             "src/chains/op/ssz/*.c", "src/chains/op/verifier/*.c", "src/chains/op/prover/*.c"]
SKIP = {"main.c", "bn254_mcl.c"}
CRYPTO = "bignum curves ecdsa hmac_drbg memzero rand rfc6979 ripemd160 secp256k1 sha2 sha3".split()
DEFS = ['-DBLOCK_HASH_CACHE', '-DEVMONE', '-DEVMONE_WASM_BUILD', '-DBLS_DESERIALIZE', '-DC4_VERSION="0.1.0-dev"', '-DCHAIN_ETH', '-DCHAIN_OP', '-DETH_ACCOUNT', '-DETH_BLOCK', '-DETH_CALL',
        '-DETH_LOGS', '-DETH_RECEIPT', '-DETH_TX', '-DETH_UTIL', '-DETH_ZKPROOF', '-DFILE_STORAGE', '-DMESSAGES', '-DPROVER',
        '-DPROVER_CACHE', '-DTEST', '-DUSE_CHECKPOINTZ', '-DWITNESS_SIGNER', '-DAES_128', '-DUSE_PRECOMPUTED_CP=1', '-DUSE_ECDSA_SIGN', '-DUSE_RFC6979', '-DPRECOMPILE_ZERO_HASHES',
        '-DVERIFIERS_PATH="verif_verifiers.h"', '-DPROVERS_PATH="verif_provers.h"', '-DCHAIN_PROPS_PATH="verif_chain_props.h"']

def sources():
    out = []
    for g in SRC_GLOBS:
        for f in sorted(glob.glob(os.path.join(REPO, g))):
            if os.path.basename(f) not in SKIP: out.append(f)
    return out

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = []
    for base in ("src", "libs", "bindings"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x not in ("node_modules", "_build")]
            files += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h", ".hpp", ".table"))]
    for d in (HERE, os.path.join(HERE, "fakes")):
        files += [os.path.join(d, f) for f in os.listdir(d) if f.endswith((".c", ".h"))]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build(kind="asan"):
    """returns the path of the driver executable"""
    san = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer", "-O2"], "plain": ["-O1"], "ubsan": ["-fsanitize=address,undefined", "-O1"]}[kind.split("-")[0]]
    defs = [d for d in DEFS if not (kind.endswith("-nocache") and d == "-DPROVER_CACHE")]       # the cache is an option for servers
    outdir = os.path.join(BUILD, kind)
    os.makedirs(os.path.join(outdir, "obj"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(outdir, "sutd")
    with open(os.path.join(BUILD, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash([defs, san, REPO])
        stamp = os.path.join(outdir, "stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == th: return exe
        if os.path.exists(stamp): os.unlink(stamp)
        gen = os.path.join(outdir, "gen"); os.makedirs(gen, exist_ok=True)
        for n in ("verifiers", "provers", "chain_props"):
            open(os.path.join(gen, f"verif_{n}.h"), "w").write(open(os.path.join(HERE, "fakes", f"verif_{n}.h")).read())
        R = lambda p: os.path.join(REPO, p)
        inc = ["-I" + gen, "-I" + os.path.join(HERE, "fakes"), "-I" + R("src"), "-I" + R("src/util"), "-I" + R("src/verifier"), "-I" + R("src/prover"),
               "-I" + R("src/chains/eth/verifier"), "-I" + R("src/chains/eth/prover"), "-I" + R("src/chains/eth/ssz"), "-I" + R("src/chains/eth/zk_verifier"),
               "-I" + R("src/chains/eth/bn254"), "-I" + R("src/chains/op/ssz"), "-I" + R("src/chains/op/verifier"), "-I" + R("src/chains/op/prover"), "-I" + R("libs/intx"), "-I" + R("libs/evmone"), "-I" + R("src/chains/eth/precompiles"), "-I" + R("libs/crypto"), "-I" + R("bindings")]
        flags = ["-g1", "-w", "-std=gnu11"] + san + defs + inc
        jobs = []
        for f in sources(): jobs.append((f, flags + (["-Dop_get_chain_config=real_op_get_chain_config"] if f.endswith("/op_chains_conf.c") else [])))
        for c in CRYPTO: jobs.append((R(f"libs/crypto/{c}.c"), flags))
        for f in ("fakes/blst_fake.c", "fakes/intx_fake.c", "fakes/evm_mini.c", "sut_ems.c", "sutd.c"): jobs.append((os.path.join(HERE, f), flags))
        objs = []
        def one(j):
            f, fl = j
            ob = os.path.join(outdir, "obj", hashlib.sha1(f.encode()).hexdigest()[:12] + ".o")
            r = run(["gcc"] + fl + ["-c", f, "-o", ob])
            return f, ob, r
        with cf.ThreadPoolExecutor(8) as ex:
            for f, ob, r in ex.map(one, jobs):
                if r.returncode: raise BuildError(f"{f}:\n{r.stdout[-3000:]}")
                objs.append(ob)
        r = run(["gcc"] + san + objs + ["-o", exe, "-lgmp", "-lzstd", "-lm", "-lpthread"])
        if r.returncode: raise BuildError(r.stdout[-4000:])
        open(stamp, "w").write(th)
    return exe

if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "asan"), time.time() - t)
