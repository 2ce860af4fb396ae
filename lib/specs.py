"""What each property's check builds and runs."""
D8 = ["CRY_MPI_DIGIT_MAX=255UL", "CRY_MPI_QUANTUM=1"]
SPECS = {}

from bounds import BOUNDS
def spec(id, runs, **kw):
    SPECS[id] = dict(runs=runs, bounds=BOUNDS[id][0], oracle=BOUNDS[id][1], **kw)

def r(name, src, mode=None, kind="asan", **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, mode=mode, kind=kind, **kw)

spec("C01", [
    r("d8-pairs", "c01_arith.cpp", "pairs", defs=D8, optional=True),
    r("d64-pairs", "c01_arith.cpp", "pairs"),
    r("d64-long", "c01_arith.cpp", "long"),
    r("d8-alias", "c01_arith.cpp", "alias", defs=D8, optional=True),
    r("d64-alias", "c01_arith.cpp", "alias"),
    r("d8-unary", "c01_arith.cpp", "unary", defs=D8, optional=True),
    r("d64-unary", "c01_arith.cpp", "unary"),
    r("d8-history", "c01_arith.cpp", "history", defs=D8, optional=True),
    r("d64-history", "c01_arith.cpp", "history"),
])

spec("C02", [
    r("d8-native", "c02_div.cpp", "native", kind="opt", defs=D8, optional=True),
    r("d8-edge", "c02_div.cpp", "edge", defs=D8, optional=True),
    r("d64-edge", "c02_div.cpp", "edge"),
    r("d64-long", "c02_div.cpp", "long", kind="opt"),
    r("d8-alias", "c02_div.cpp", "alias", defs=D8, optional=True),
    r("d64-alias", "c02_div.cpp", "alias"),
])

D16 = ["CRY_MPI_DIGIT_MAX=65535UL"]
D32 = ["CRY_MPI_DIGIT_MAX=4294967295UL"]
spec("C03", [
    r("d8-small", "c03_mul.cpp", "small", defs=D8, optional=True),
    r("d64-small", "c03_mul.cpp", "small"),
    r("d64-thresh", "c03_mul.cpp", "thresh"),
    r("d8-big", "c03_mul.cpp", "big", kind="opt", defs=D8, optional=True),
    r("d64-big", "c03_mul.cpp", "big", kind="opt"),
])

spec("C04", [
    r("d8-gcd", "c04_numth.cpp", "gcd", defs=D8, optional=True),
    r("d64-gcd", "c04_numth.cpp", "gcd"),
    r("d8-inv", "c04_numth.cpp", "inv", defs=D8, optional=True),
    r("d64-inv", "c04_numth.cpp", "inv"),
    r("d8-inv-binary", "c04_numth.cpp", "inv", defs=D8, mods=["-CRY_MPI_INV_EUCLID"], optional=True),
    r("d64-inv-binary", "c04_numth.cpp", "inv", mods=["-CRY_MPI_INV_EUCLID"], optional=True),
    r("d8-exp", "c04_numth.cpp", "exp", defs=D8, optional=True),
    r("d64-exp", "c04_numth.cpp", "exp"),
    r("d8-sqrt", "c04_numth.cpp", "sqrt", defs=D8, optional=True),
    r("d64-sqrt", "c04_numth.cpp", "sqrt"),
    r("d64-longs", "c04_numth.cpp", "longs", kind="opt"),
    r("d64-large", "c04_numth.cpp", "large", kind="opt"),
    r("d8-large", "c04_numth.cpp", "large", kind="opt", defs=D8, optional=True),
    r("d64-large-binary", "c04_numth.cpp", "large", kind="opt", mods=["-CRY_MPI_INV_EUCLID"], optional=True),
])

spec("C05", [
    r("d8-bin", "c05_conv.cpp", "bin", defs=D8, optional=True),
    r("d64-bin", "c05_conv.cpp", "bin"),
    r("d8-str", "c05_conv.cpp", "str", defs=D8, optional=True),
    r("d64-str", "c05_conv.cpp", "str"),
    r("d64-badstr", "c05_conv.cpp", "badstr"),
    r("d8-int", "c05_conv.cpp", "int", defs=D8, optional=True),
    r("d64-int", "c05_conv.cpp", "int"),
    r("d64-print", "c05_conv.cpp", "print"),
])

WRAPRAND = ["-Wl,--wrap=cry_prng_aes_rand", "-Wl,--wrap=cry_prng_aes_init"]
spec("C06", [
    r("d8-rand", "c06_prime.cpp", "rand", defs=D8, ldflags=WRAPRAND, optional=True),
    r("d64-rand", "c06_prime.cpp", "rand", ldflags=WRAPRAND),
    r("d64-small", "c06_prime.cpp", "small", kind="opt", ldflags=WRAPRAND),
    r("d8-small", "c06_prime.cpp", "small", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True),
    r("d64-bases", "c06_prime.cpp", "bases", kind="opt", ldflags=WRAPRAND),
    r("d64-liars", "c06_prime.cpp", "liars", kind="opt", ldflags=WRAPRAND),
    r("d8-gen", "c06_prime.cpp", "gen", defs=D8, ldflags=WRAPRAND, optional=True),
    r("d64-gen", "c06_prime.cpp", "gen", ldflags=WRAPRAND),
])

spec("C07", [
    r("d8-add", "c07_ecp.cpp", "add", defs=D8, optional=True),
    r("d64-add", "c07_ecp.cpp", "add"),
    r("d8-mul", "c07_ecp.cpp", "mul", kind="opt", defs=D8, optional=True),
    r("d64-mul", "c07_ecp.cpp", "mul", kind="opt"),
    r("d8-mul-win", "c07_ecp.cpp", "mul", kind="opt", defs=D8, mods=["-CRY_ECP_MUL_SLIDING_WIN"], optional=True),
    r("d64-mul-bin", "c07_ecp.cpp", "mul", kind="opt", mods=["-CRY_ECP_MUL_SLIDING_WIN", "-CRY_ECP_MUL_WIN"], optional=True),
])

spec("C08", [
    r("d64", "c08_curves.cpp", kind="opt"),
    r("d32", "c08_curves.cpp", kind="opt", defs=D32, optional=True),
    r("d8", "c08_curves.cpp", kind="opt", defs=D8, optional=True, tiers=("thorough",)),
])


spec("C09", [
    r("d64-verify", "c09_dsa.cpp", "verify", kind="opt", ldflags=WRAPRAND),
    r("d8-verify", "c09_dsa.cpp", "verify", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True, tiers=("thorough",)),
    r("d64-sign", "c09_dsa.cpp", "sign", kind="opt", ldflags=WRAPRAND),
    r("d64-big", "c09_dsa.cpp", "big", ldflags=WRAPRAND),
    r("d8-big", "c09_dsa.cpp", "big", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True),
    r("d64-real", "c09_dsa.cpp", "real", kind="opt", ldflags=WRAPRAND),
    r("d64-keygen", "c09_dsa.cpp", "keygen", kind="opt", ldflags=WRAPRAND),
])

spec("C10", [
    r("d64-verify", "c10_ecdsa.cpp", "verify", kind="opt", ldflags=WRAPRAND),
    r("d64-sign", "c10_ecdsa.cpp", "sign", kind="opt", ldflags=WRAPRAND),
    r("d8-sign", "c10_ecdsa.cpp", "sign", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True, tiers=("thorough",)),
    r("d64-keygen", "c10_ecdsa.cpp", "keygen", ldflags=WRAPRAND),
    r("d64-named", "c10_ecdsa.cpp", "named", kind="opt", ldflags=WRAPRAND),
])

spec("C11", [
    r("d64-verify", "c11_elgamal.cpp", "verify", kind="opt", ldflags=WRAPRAND),
    r("d64-sign", "c11_elgamal.cpp", "sign", kind="opt", ldflags=WRAPRAND),
    r("d64-big", "c11_elgamal.cpp", "big", ldflags=WRAPRAND),
    r("d64-real", "c11_elgamal.cpp", "real", kind="opt", ldflags=WRAPRAND),
    r("d8-big", "c11_elgamal.cpp", "big", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True),
])

spec("C12", [
    r("d64-raw", "c12_rsa.cpp", "raw", ldflags=WRAPRAND),
    r("d64-pad", "c12_rsa.cpp", "pad", ldflags=WRAPRAND),
    r("d8-pad", "c12_rsa.cpp", "pad", kind="opt", defs=D8, ldflags=WRAPRAND, optional=True, tiers=("thorough",)),
    r("d64-blocks", "c12_rsa.cpp", "blocks", ldflags=WRAPRAND),
    r("d64-real", "c12_rsa.cpp", "real", kind="opt", ldflags=WRAPRAND),
    r("d64-keygen", "c12_rsa.cpp", "keygen", kind="opt", ldflags=WRAPRAND),
])

spec("C13", [
    r("dh-histories", "c13_dh.cpp", "dh-hist", kind="opt"),
    r("dh-groups", "c13_dh.cpp", "dh-small"),
    r("d8-dh-groups", "c13_dh.cpp", "dh-small", kind="opt", defs=D8, optional=True),
    r("ec-histories", "c13_dh.cpp", "ec-hist", kind="opt"),
    r("ec-groups", "c13_dh.cpp", "ec-small", kind="opt"),
])

spec("C14", [
    r("aes-sweep", "c14_block.cpp", "aes-sweep"),
    r("des-sweep", "c14_block.cpp", "des-sweep"),
    r("aes-histories", "c14_block.cpp", "aes-hist", kind="opt"),
    r("des-histories", "c14_block.cpp", "des-hist", kind="opt"),
])

spec("C15", [
    r("lens", "c15_modes.cpp", "lens"),
    r("splits", "c15_modes.cpp", "splits"),
    r("ctr-wrap", "c15_modes.cpp", "wrap"),
    r("histories", "c15_modes.cpp", "hist", kind="opt"),
])

spec("C16", [
    r("shapes", "c16_gcm.cpp", "shapes"),
    r("splits", "c16_gcm.cpp", "splits", kind="opt"),
    r("counter-wrap", "c16_gcm.cpp", "wrap"),
    r("tamper", "c16_gcm.cpp", "tamper"),
    r("histories", "c16_gcm.cpp", "hist", kind="opt"),
    r("long", "c16_gcm.cpp", "big", kind="opt", shards=3),
])

spec("C17", [
    r("rc4", "c17_stream.cpp", "rc4"),
    r("trivium", "c17_stream.cpp", "trivium"),
    r("histories", "c17_stream.cpp", "hist", kind="opt"),
])

spec("C18", [
    r("lens", "c18_hash.cpp", "lens"),
    r("splits", "c18_hash.cpp", "splits", kind="opt"),
    r("histories", "c18_hash.cpp", "hist", kind="opt"),
    r("long", "c18_hash.cpp", "big", kind="opt", shards=15),
])

spec("C19", [
    r("lens", "c19_mac.cpp", "lens"),
    r("splits", "c19_mac.cpp", "splits", kind="opt"),
    r("histories", "c19_mac.cpp", "hist", kind="opt"),
])

spec("C20", [
    r("machine", "c20_crc.cpp"),
])

spec("C21", [
    r("all", "c21_prng.cpp"),
])

spec("C22", [
    r("valid", "c22_base64.cpp", "valid"),
    r("any-text", "c22_base64.cpp", "any"),
])

spec("C23", [r("all", "c23_wrap.cpp")])

spec("C24", [r("all", "c24_xor.cpp")])

spec("C25", [
    r("hill", "c25_hill.cpp", "hill", ldflags=WRAPRAND),
    r("affine", "c25_hill.cpp", "affine", ldflags=WRAPRAND),
])

WRAPMEM = WRAPRAND + ["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=calloc", "-Wl,--wrap=free"]
spec("C26", [
    r("d64-mpi", "c26_oom.cpp", "mpi", ldflags=WRAPMEM),
    r("d8-mpi", "c26_oom.cpp", "mpi", kind="opt", defs=D8, ldflags=WRAPMEM, optional=True),
    r("d64-ecp", "c26_oom.cpp", "ecp", ldflags=WRAPMEM),
    r("d8-ecp", "c26_oom.cpp", "ecp", kind="opt", defs=D8, ldflags=WRAPMEM, optional=True),
    r("d64-pk", "c26_oom.cpp", "pk", ldflags=WRAPMEM),
    r("d8-pk", "c26_oom.cpp", "pk", kind="opt", defs=D8, ldflags=WRAPMEM, optional=True),
    r("d64-keygen", "c26_oom.cpp", "keygen", kind="opt", ldflags=WRAPMEM),
])

WRAPACC = ["-Wl,--wrap=" + f for f in ("malloc", "realloc", "calloc", "free", "memcpy", "memmove", "memset", "memcmp", "__memcpy_chk", "__memmove_chk", "__memset_chk", "strlen", "strcpy", "strncpy", "memchr", "cry_prng_aes_rand")]
spec("C27", [
    r("pairs", "c27_inter.cpp", kind="opt", libextra=["-O0", "-fsanitize=thread", "-fno-builtin", "-U_FORTIFY_SOURCE"], ldflags=WRAPACC + ["-pthread"]),
])

spec("C28", [
    r("symmetric", "c28_clear.cpp", "sym", kind="opt", ldflags=WRAPMEM),
    r("keys", "c28_clear.cpp", "pub", kind="opt", ldflags=WRAPMEM),
])

# ---- C29: the configuration matrix ------------------------------------------
W = {"d64": [], "d32": D32, "d16": D16, "d8": ["CRY_MPI_DIGIT_MAX=255UL"]}
OPTS = {   # option -> changes of config.h
    "default": [],
    "quantum1": None,                       # CRY_MPI_QUANTUM=1, a define of its own
    "no-comba": ["-CRY_MPI_MUL_COMBA"],
    "no-karatsuba": ["-CRY_MPI_MUL_KARATSUBA"],
    "no-toom3": ["-CRY_MPI_MUL_TOOM3"],
    "comba-only": ["-CRY_MPI_MUL_KARATSUBA", "-CRY_MPI_MUL_TOOM3"],
    "schoolbook-only": ["-CRY_MPI_MUL_COMBA", "-CRY_MPI_MUL_KARATSUBA", "-CRY_MPI_MUL_TOOM3"],
    "schoolbook-karatsuba": ["-CRY_MPI_MUL_COMBA", "-CRY_MPI_MUL_TOOM3"],
    "schoolbook-toom3": ["-CRY_MPI_MUL_COMBA", "-CRY_MPI_MUL_KARATSUBA"],
    "inv-binary": ["-CRY_MPI_INV_EUCLID"],
    "div-small": ["CRY_MPI_DIV_SMALL"],
    "ecp-window": ["-CRY_ECP_MUL_SLIDING_WIN"],
    "ecp-plain": ["-CRY_ECP_MUL_SLIDING_WIN", "-CRY_ECP_MUL_WIN"],
    "minimal": ["-CRY_MPI_MUL_COMBA", "-CRY_MPI_MUL_KARATSUBA", "-CRY_MPI_MUL_TOOM3", "-CRY_MPI_INV_EUCLID", "CRY_MPI_DIV_SMALL", "-CRY_ECP_MUL_SLIDING_WIN", "-CRY_ECP_MUL_WIN"],
}
QUICK29 = {"d64": list(OPTS), "d8": ["default", "quantum1", "comba-only", "schoolbook-only", "inv-binary", "div-small", "ecp-window", "minimal"],
           "d32": ["default", "minimal"], "d16": ["default", "comba-only", "minimal"]}
def c29runs():
    out = []
    def add(name, kind, tiers, **kw):
        out.append(r(name, "c29_cfg.cpp", kind=kind, ldflags=WRAPRAND, shards=1, build_is_property=True, tiers=tiers, **kw))
    both = ("quick", "thorough")
    for w, d in W.items():
        for o, m in OPTS.items():
            defs = list(d) + (["CRY_MPI_QUANTUM=1"] if m is None else [])
            add("%s-%s" % (w, o), "opt", both if o in QUICK29[w] else ("thorough",), defs=defs, mods=m or [])
    add("d64-x86_64-asm", "opt", both, mods=["CRY_ARCH_X86_64"])
    add("d32-x86-asm", "opt", both, defs=D32, mods=["CRY_ARCH_X86"])
    add("d64-O0", "plain", both)
    add("d64-O3", "opt", both, libextra=["-O3", "-DNDEBUG"])
    add("d64-Os", "opt", both, libextra=["-Os", "-DNDEBUG"])
    add("d64-asserts", "opt", ("thorough",), libextra=["-DCRY_ASSERT_CHECK", "-DCRY_ASSERT_FAIL(c)=__builtin_trap()"])
    add("d64-asan", "asan", both)
    return out
def c29post(results, parse):
    dg = {}
    for (run, cmd), res in results:
        st, _, vi = parse(res)
        if "digest" in st and not vi and res["rc"] == 0:
            dg.setdefault(st["digest"], []).append((run["name"], cmd, res))
    if len(dg) < 2:
        return []
    ref = next((d for d, l in dg.items() if any(x[0] == "d64-default" for x in l)), max(dg, key=lambda d: len(dg[d])))
    return [(x[0], "digest", "the results of configuration %s differ from those of the default configuration (digest %x instead of %x)" % (x[0], d, ref), (x[1], x[2]))
            for d, l in dg.items() if d != ref for x in l]
spec("C29", c29runs(), post=c29post)

HIST = "model checking: exhaustive enumeration of inputs, call splittings and operation histories on the real code, reference model replayed in lock step"
TECH = {i: HIST for i in ("C01", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21")}
TECH.update({i: "model checking: exhaustive enumeration of keys, messages, candidate signatures and random-generator answers (environment) on the real code, reference model as oracle" for i in ("C06", "C09", "C10", "C11", "C12")})
TECH["C26"] = "model checking: exhaustive fault injection (every allocation of every operation fails, once and persistently) on the real code"
TECH["C27"] = "model checking: stateless partial-order exploration of two-operation interleavings of the real code at memory-access granularity"
TECH["C28"] = "model checking: exhaustive enumeration of operation histories on the real code, two-run comparison"
TECH["C29"] = "model checking: exhaustive enumeration of build configurations x operation cases, compared with each other and a reference"
