#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, bounds.py, specs.py and the texts below,
so that the document cannot drift from what the checks do."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from bounds import BOUNDS
import specs
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
INTRO = open(os.path.join(HERE, "lib", "design_intro.md")).read()
OUTRO = open(os.path.join(HERE, "lib", "design_outro.md")).read()
# why exhaustive exploration reaches what the unit tests cannot; cost of the quick check (seconds on 8 cores)
WHY = {
"C01": ("Carries, borrows and alias patterns depend on digit boundary values; with 8-bit digits (the same source, another digit type) the whole carry/borrow space of several digits is small enough to be enumerated, which the tests' few hundred literals do not.", 25),
"C02": ("The quotient-estimate correction and add-back paths occur for about 2 of 2^64 random operands; with 8-bit digits all dividend/divisor pairs of two digits are enumerated and the rare paths are all taken.", 25),
"C03": ("Each algorithm has its own recursion and carry fix-ups that depend on the pair of sizes and on extreme digits; tests use the default selection at a few sizes.", 15),
"C04": ("Definitions (gcd, inverse, power, root) are checked over complete small domains, including every non-invertible pair and every sign; tests hold a few vectors.", 60),
"C05": ("All values up to several digits, every leading-zero count, every buffer size and every short text are enumerated, in exact-size buffers under AddressSanitizer.", 10),
"C06": ("The random generator is replaced by an enumerated environment, so that every answer it could give - including the ones that happen once in 2^64 draws - is explored.", 70),
"C07": ("Complete group tables of every curve over small fields, every alias and every scalar beyond the group order; tests use a few points of one or two named curves.", 20),
"C08": ("The domain parameters of all curves are compared with the published ones and exercised with boundary scalars; tests touch some curves with one scalar.", 40),
"C09": ("With small groups every (key, message, r, s) is enumerated, so 'verifies iff valid' is decided exactly, in both directions, and every answer of the generator is explored while signing.", 45),
"C10": ("As C09, over every prime-order curve over small fields; includes pairs for which the verification sum is the point at infinity or a doubling.", 65),
"C11": ("As C09.", 20),
"C12": ("Every message and ciphertext of tiny moduli; every shape of a decoded block (which byte is zero, how long the padding is) is built with the private key, which ordinary encryption would produce with probability 2^-80.", 15),
"C13": ("All short histories of both parties' calls, with the protocol model in lock step: re-runs, missing imports, repeated agreements.", 10),
"C14": ("All table entries in all rounds are reached by the byte sweeps; all short histories of re-keying, direction changes and block counts are replayed.", 15),
"C15": ("All divisions of a message into calls and all lengths, in place and not, are enumerated against the textbook definition; the tests use fixed vectors in one call.", 30),
"C16": ("All combinations of IV, associated-data and text lengths with the model; counters are placed on every wrap edge by computing the IV backwards (GHASH is invertible), which random IVs reach with probability 2^-32.", 25),
"C17": ("All key lengths, all divisions into calls, all short histories.", 8),
"C18": ("All lengths and divisions into updates across several blocks; length counters above 2^32 bits.", 15),
"C19": ("All key lengths x message lengths x divisions.", 8),
"C20": ("Three-byte messages drive the 16-bit registers through every (state, byte) transition: the reachable state machine is covered completely.", 8),
"C21": ("All seeding/drawing histories of bounded length against the published algorithm, in lock step.", 5),
"C22": ("All short byte strings and all short texts over a representative alphabet, exact-size buffers.", 5),
"C23": ("All lengths, every single-bit alteration; step counters beyond 8 and 16 bits.", 5),
"C24": ("Every placement of three ranges in an arena: all overlap relations.", 4),
"C25": ("All 1x1, a complete alphabet of 2x2 and 3x3 keys; invertibility decided independently.", 5),
"C26": ("Every allocation of every operation is made to fail, in turn and persistently (crash-point enumeration); tests fail a few chosen ones.", 50),
"C27": ("A partial-order argument at memory-access granularity covers all interleavings of each pair of operations; no test runs threads.", 26),
"C28": ("Two executions that differ only in the secrets must leave identical cleared contexts, for every history: residue is detected wherever it is, without naming fields.", 30),
"C29": ("The unit tests run on one configuration; here the same workload runs on every option set and the outputs are compared bit by bit.", 135),
}
out = [INTRO.rstrip(), "", "## Properties: how each one is decided", ""]
for p in P:
    i = p["id"]
    sp = specs.SPECS[i]
    out.append("### %s - %s" % (i, p["title"]))
    out.append("")
    out.append("*Deciding method.* %s. Runs: %s." % (specs.TECH.get(i, "model checking: exhaustive enumeration of a bounded input space on the real code, reference model as oracle").replace("model checking: ", ""),
               ", ".join("%s%s" % (r["name"], "" if "quick" in r.get("tiers", ("quick", "thorough")) else " (thorough)") for r in sp["runs"]) if i != "C29" else "one per configuration (lib/specs.py)"))
    out.append("")
    out.append("*Space (thorough tier in brackets).* " + BOUNDS[i][0])
    out.append("")
    out.append("*Oracle.* " + BOUNDS[i][1][0].upper() + BOUNDS[i][1][1:] + ".")
    out.append("")
    out.append("*Why this reaches what tests cannot; cost.* %s Quick check: about %d s on 8 cores." % WHY[i])
    out.append("")
out.append(OUTRO.rstrip())
seeds = []
sd = os.path.join(HERE, "seeded")
res = json.load(open(os.path.join(HERE, "lib", "seed_results.json")))
out += ["", "### Planted changes", "", "Every one compiles, passes the 2617 stable tests and has a demonstration; the column *caught by* is the quick check of its property.", "", "| planted change | property | what it breaks | caught by |", "|---|---|---|---|"]
for n in sorted(res):
    r = res[n]
    out.append("| %s | %s | %s | %s |" % (n, r["property"], r["what"].replace("|", "/"), r["caught"]))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md written,", len(out), "lines")
