"""What each check runs, and what it claims."""
import re, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src")
COMMON_ASSUMPTIONS = [
    "rustc's LLVM IR for the harness build (opt-level 1, fat LTO, overflow checks and debug assertions on) means what the shipped build means",
    "the engine's semantics of that IR (each run compares it with the native code on concrete inputs) and the SMT solver (z3, cvc5)",
    "ChaCha is an ideal PRF: distinct (seed, position) pairs give independent arbitrary words; SHA-512 is ideal: digests are equal exactly when inputs are",
    "reliable FIFO channels between the parties (the network trait is implemented by the harness); each party runs sequentially, so outcomes do not depend on the schedule",
]
def auto(pid, opts={}):
    """every exported entry of the property's harness file; opts: regex -> options"""
    s = open(os.path.join(H, pid.lower() + ".rs")).read()
    names = re.findall(r"\b(" + pid.lower() + r"\w*_\w+)", re.sub(r"//.*", "", s))
    names = list(dict.fromkeys(names))
    out = []
    for n in names:
        e = dict(name=n)
        for k, o in opts.items():
            if re.search(k, n): e.update(o)
        out.append(e)
    return out
SPECS = {}
def spec(pid, bounds, opts={}, **kw):
    if os.path.getsize(os.path.join(H, pid.lower() + ".rs")) == 0: return
    SPECS[pid] = dict(bounds=bounds, entries=auto(pid, opts), **kw)
spec("P01", "values of every listed ring type, all sharings; open, then open_many of 0..3 values, then a repeated open")
spec("P02", "all operand values and sharings of every listed ring type; each operation alone and one composed expression")
spec("P03", "all operand values, sharings and PRF outputs; one product, a square, and a product of a product followed by verify and open")
spec("P04", "all operand values, sharings and PRF outputs; vectors of 0..3 elements, batches of 0 and 4 dot products, and every length mismatch pattern")
spec("P08", "each dealer, all values, sharings and PRF outputs; ids 3, 4, 255, usize::MAX; a dealer without a value")
spec("P05", "codes of the full 12800 positions: 9 positions (word and array boundaries) with unknown values, sharings and mask bits, the rest known; a list of 2 codes; 10 wrong-length patterns")
spec("P06", "all values, sharings and PRF outputs; one value (u8..u128), batches of 1 and 3, and 130 values of which 4 (either side of the 128-value word boundary) unknown; MalAby3 and Swift3 with known randomness during the protocol, SpdzWise and Aby3 with unknown", {
    "mal_u16|m_aby3_(u64|u128)|m_swift_u32|m_spdz_u32|w_.*u16": dict(thorough=True, timeout=200, mem=14),
    "u64|u128|u32|mal|p06w": dict(cost=5), "": dict(timeout=150)})
spec("P11", "every element of every width (bit, u8..u128); every byte string of 0..width+2 bytes; every bit list of 0, 1, k-1, k, k+1, 2k bits; lists of 0..3 elements and every byte string around their length")
spec("P23", "all operands of bit, u8..u128 and the signed types; shift amounts below the width; division with all operands up to 64 bits")
spec("P19", "field: all pairs for sums and products, 3 families of 8..16 elements for inverses; inverses of all elements of Z_2^8 and of two families of 128 elements of Z_2^16, Z_2^32, Z_2^64; polynomials over Z_2^8 and Z_2^16 with up to 3 (division: 5) unknown coefficients; interpolation at 1..3 points modulo the moduli of degree 40..42 with all values; inverses of all differences of points below 4 modulo degrees 40, 41, 63; irreducibility of all 24 moduli", {
    "lag_8$|inv_low|inv_high|inv_mid": dict(cost=9), "inv_high|inv_mid": dict(thorough=True, timeout=200), "div_even": dict(reach=[2]),  "": dict(timeout=150)})
spec("P22", "every content of the 12800-bit arrays for reads, writes, flips (every position), and, xor, equality; counts and iteration with 24 unknown bits in three words; closeness with 16 unknown code bits in each code and 6..12 unknown bits of each mask around the mask limit, the decision limit and the array's end", {"too_few": dict(reach=[1]), "": dict(timeout=100)})
spec("P25", "two or three messages of six types with all contents; every pair of fragmentation points of the stream; frames of 0..8 arbitrary bytes; frame headers at the size limit and its neighbours; announced list lengths 0..4 and 5 large ones")
spec("P26", "0..5 parties with all id values and own ids; all integers as party ids", {"": dict(reach=[1, 2]), "_0$": dict(reach=[2])})
spec("P24", "commitments to 0..3 values of u8, u16, u32, u64 with all values and randomness, compared with all other openings of as many values, one more or one fewer, and all other 64-byte commitments and lengths 0, 1, 63, 65; coins of three honest parties with all seeds, and every alteration of the coin message on each link of MalAby3 and SpdzWise, of every commitment and opening of Swift3 on ten (link, message) pairs", {"": dict(reach=[1]), "swift": dict(reach=[1, 2])})
spec("P07", "OR of two bits, lists of 2 ORs and opening of 0..4 bits with all values, sharings and PRF outputs; OR-reduction of 1..6 bits (all unknown, chunk sizes 1..9) and of 8, 9, 64, 127, 128, 129, 300, 600, 640 bits of which 5..8 around the word and chunk boundaries are unknown and the rest zero, with all sharings and known correlated randomness; verification for MalAby3 and SpdzWise (Swift3's is P17)")
spec("P10", "setup messages and the values drawn afterwards with all key and PRF outputs: the two holders of each pairwise generator and the three holders of the common one draw equal values, the parties' zero shares cancel; malicious setups under every alteration of every commitment and every opening sent by one party", {"": dict(reach=[1]), "p10t": dict(reach=[1, 2])})
spec("P13", "single openings (u16, u64), lists of two values, single bits and lists of 3 bits with all sharings, the corrupted party any of the three and sending arbitrary bytes of the honest lengths throughout; for SpdzWise integers: arbitrary bytes in the messages of the opening (its MAC check is P15), with a known MAC key", {"": dict(reach=[1, 2], timeout=100)})
spec("P12", "wrong lengths (0, n-1, n+1, 2n bytes; for proof messages also list prefixes 0, one less, one more, 2^40, 2^64-1) of every message of every link while setting up, opening, sharing inputs, multiplying, dot products, most significant bits, or and the preprocessing; arbitrary contents of the honest lengths in one message of every link", {"": dict(reach=[2], timeout=60, wall=700), "^p12s_": dict(reach=[1]), "^p12_(dot|dots|msb|msbs|ors)_swift$": dict(thorough=True, cost=300), "^p12_(msbs?_mal|mul_swift)": dict(cost=60), "^p12s_mul_mal": dict(cost=150)})
HOOK_COMMITS = ["0ade707", "45891f5", "48dff2b"]
