#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="iris-mpc/src/"
AB,MA,SP,SW=I+"aby3/protocol.rs",I+"aby3_mal/protocol.rs",I+"spdzwise/protocol.rs",I+"swift3/protocol.rs"
UT=I+"aby3/utils.rs"; SH=[I+"aby3/share.rs",I+"spdzwise/share.rs",I+"swift3/share.rs"]

p("P01","Sharing a value and opening it gives the same value back at all parties",
 "For each of the four protocols (semi-honest and malicious replicated, MAC-based, and the masked four-value scheme), every value of every supported integer type (signed and unsigned), and every choice of sharing randomness, sharing a value and opening it - alone or in a batch - returns exactly that value at all three parties. Opening a batch preserves order and length.",
 ["inputs","configurations"],"All values of the shared type, all sharing randomness, four protocols, all ring widths, batch sizes.",
 "Tests share a few random values of mostly one width (u16) with fresh randomness; a mistake at a boundary value, for a signed type, or for one party's view of one width is sampled with negligible probability.",
 [AB,MA,SP,SW]+SH+[I+"types/sharable.rs",I+"types/ring_element.rs"],
 [("share",AB+", "+SP+", "+SW),("open/open_many",AB+", "+MA+", "+SP+", "+SW)])
p("P02","Local linear operations on shares compute the ring operation",
 "For every protocol and all shared values and public constants, adding, subtracting, adding or subtracting a public constant, and multiplying by a public constant yields a valid sharing that opens at every party to the wrapping (mod 2^k) result of that operation. For the MAC-based protocol the result also still passes the MAC check.",
 ["inputs","configurations"],"All pairs of values, all constants, all sharing randomness, each protocol and party position.",
 "Tests open a few random results at random values; the party-dependent handling of constants and wrap-around at the ring modulus are only sampled.",
 [AB,MA,SP,SW]+SH,[("add_const/sub_const per party","iris-mpc/src/aby3/share.rs, iris-mpc/src/swift3/share.rs, "+SP),("share operators",", ".join(SH))])
p("P03","Multiplying two shared values opens to their wrapping product and verifies",
 "For every protocol, all values x and y and all randomness, an honest three-party multiplication gives every party a valid share of x*y mod 2^k, the three shares are mutually consistent, and the protocol's verification step accepts. No party panics or deadlocks.",
 ["inputs","schedules"],"All x, y in the ring, all correlated randomness, all sharing randomness; bounded number of multiplications.",
 "Tests multiply one random pair per run; they never show the identity for all inputs and randomness nor that honest verification can never fail.",
 [AB,MA,SP,SW]+SH,[("local product + zero share + reshare",AB),("triple sacrifice",MA),("MAC'ed product",SP),("masked multiplication + distributed proof",SW)])
p("P04","Dot products open to the wrapping inner product; length mismatch is an error",
 "For every protocol, the dot product of two shared vectors, single or batched, opens at every party to the wrapping inner product of the two plaintext vectors (element by element, in order) and verification accepts. Vectors or batches of different length are rejected with an error at every party, never computed on a prefix.",
 ["inputs","configurations"],"All vector contents and randomness for bounded lengths and batch sizes, including empty and unequal lengths.",
 "Tests use one fixed length with random contents; equality for all contents, and unequal inner lengths, are not covered.",
 [AB,MA,SP,SW],[("dot/dot_many",", ".join([AB,MA,SP,SW]))])
p("P05","Masked dot products count exactly the unmasked positions",
 "For every protocol, the masked dot product of a shared code with a list of shared codes and public masks opens, for each pair, to the sum of products over exactly the positions whose mask bit is set. Codes that do not have the fixed iris code length, or lists of different length, are rejected with an error.",
 ["inputs","configurations"],"All code contents, masks and randomness at a symbolic set of positions; wrong lengths.",
 "Tests compare random data once; a position, word boundary or party handled differently is invisible unless the random data happens to show it.",
 [AB,SP,SW,I+"traits/mpc_trait.rs",I+"spdzwise/vecshare.rs","plain-reference/src/lib.rs"],[("masked_dot_many",", ".join([AB,SP,SW,I+"traits/mpc_trait.rs"]))])
p("P06","Shared comparison extracts exactly the most significant bit",
 "For every protocol, every value and all randomness, extracting the most significant bit of a shared value - alone or in a batch of any size - yields shares of exactly that bit in order, and verification accepts. Consequently a secure less-than-zero test equals the plaintext one.",
 ["inputs","configurations"],"All ring values, all sharings, all correlated randomness; batch sizes across the internal packing boundaries.",
 "Tests run random values; carries that ripple over the whole word or batch sizes around packing boundaries are rarely or never hit.",
 [AB,MA,SP,SW,UT,I+"traits/binary_trait.rs"],[("arithmetic-to-binary adders",I+"traits/binary_trait.rs, "+AB),("transpose/pack",UT)])
p("P07","Shared OR and OR-reduction equal the plaintext OR for any bits and sizes",
 "For every protocol, the OR of two shared bits and the OR-reduction of any non-empty list of shared bits, for any chunk size, opens to the logical OR of the plaintext bits and verification accepts. Opening shared bits, alone or batched, returns exactly the plaintext bits in order.",
 ["inputs","configurations"],"All bit vectors up to a bounded length (across packing boundaries), all sharings, chunk sizes.",
 "Tests use a fixed number of random bits where the OR is almost always 1; an element that is dropped is invisible.",
 [AB,MA,SP,SW,UT],[("or_tree",UT),("reduce_or_*",", ".join([AB,MA,SP,SW])),("pack",", ".join([AB,MA,SP,SW]))])
p("P08","Secret input gives consistent shares of exactly the input",
 "When a party inputs a private value, all three parties obtain mutually consistent shares that open to exactly that value, whichever party is the owner and for every value and randomness. A party index outside the three parties, or an owner without a value, yields an error and not a crash.",
 ["inputs","configurations"],"All values, owners 0..2 and out-of-range owner ids, all correlated randomness.",
 "Tests input one random value per party; invalid owner ids are not tested.",
 [AB,MA,SP,SW],[("input",", ".join([AB,MA,SP,SW]))])
p("P09","Protocol messages are masked by fresh randomness unknown to the receiver",
 "During input, multiplication, dot product, AND and comparison every value a party receives is masked by correlated randomness that the receiver cannot derive and that is not reused for another message, so for any fixed inputs the messages a single party receives are jointly uniform. Hence a single party's view is independent of the secret inputs.",
 ["inputs","histories"],"All inputs, all values of the generators treated as ideal, every message received by every party in a bounded run.",
 "Functional tests cannot observe secrecy at all: dropping a mask or reusing one leaves every result correct.",
 [AB,MA,SP,SW,I+"aby3/random/prf.rs",I+"swift3/random/prf.rs"],[("zero shares",I+"aby3/random/prf.rs"),("reshare",AB)])
p("P10","Setup gives neighbours identical generators and masks that cancel",
 "After setup every pair (and, in the four-value scheme, the whole group) of parties that should share a generator holds the same one, no other party holds it, and independently generated seeds are never mixed up, so the parties' zero sharings always sum (or XOR) to zero. In the protocols whose setup commits to seeds (malicious replicated and four-value) setup aborts with an error if any opened seed does not match its commitment.",
 ["inputs","fault_sequences"],"All seeds of all parties; all modifications of any one setup message by one corrupted party.",
 "Tests run honest setup with random seeds only; no test alters a commitment or an opening.",
 [AB,MA,SW,I+"aby3/random/prf.rs",I+"swift3/random/prf.rs",I+"commitment/mod.rs"],[("setup_prf",", ".join([AB,MA,SW])),("commit/verify",I+"commitment/mod.rs")])
p("P11","Ring elements survive byte and bit encoding; malformed encodings are errors",
 "Every ring element of every width encodes to its fixed-size byte string and bit list and decodes back to itself, also within a stream of elements. A byte string of the wrong length, or a byte that is not a valid bit, is rejected with an error without crashing.",
 ["inputs"],"All values of all widths; all byte strings of lengths 0..2x the encoding size.",
 "Only vector conversions of random values are tested; malformed bytes are not.",
 [I+"types/ring_element.rs",I+"types/bit.rs",UT],[("to_bytes/from_bytes/take_from_bytes_mut",I+"types/ring_element.rs")])
p("P12","A malformed message from a peer yields an error, never a crash or a result",
 "If the message a party is waiting for has the wrong length or is not a valid encoding - for every byte content - the operation (opening, input, multiplication, dot product, comparison, verification, setup) returns an error at that party. It does not panic, hang or silently use part of the message.",
 ["fault_sequences","inputs"],"Every message of a bounded run replaced by arbitrary bytes of every length up to a bound.",
 "No test sends a malformed message.",
 [UT,AB,MA,SP,SW],[("ring_vec_from_bytes, ring_iter_from_bytes, from_bytes_mut",UT+", "+I+"types/ring_element.rs")])
p("P13","Tampering with opened values is detected by the malicious protocols",
 "In the malicious-security protocols, if one party deviates in any message of an opening (of integers or bits, single or batched), each honest party either returns an error or the correct value. This holds for every alteration of those messages.",
 ["fault_sequences","inputs"],"All modifications of all messages sent by one corrupted party during an opening, all values and sharings, hash treated as collision-free.",
 "All tests are honest executions; no message is ever altered.",
 [MA,SP,SW],[("joint message passing + hash comparison",", ".join([MA,SP,SW]))])
p("P14","Malicious replicated: a wrong product passes only exceptional challenges",
 "In the malicious replicated protocol, if one party shifts any message of a multiplication, dot product or AND, then either all shares are still those of the correct result, or an honest party reports an error for all but an exceptional fraction (at most 2^-40) of the values of the random challenge. Opening or verifying therefore never yields a wrong value except with that probability.",
 ["fault_sequences","inputs"],"All additive deviations of one corrupted party in one operation, all inputs, all pairs of distinct challenges.",
 "All tests are honest executions; the check could be removed with every test passing.",
 [MA],[("triple sacrifice with random challenge",MA),("jmp_verify",MA)])
p("P15","MAC-based protocol: a wrong value passes the MAC check only for exceptional keys",
 "In the MAC-based protocol, if one party deviates by any additive error in multiplications or dot products, then for all but an exceptional fraction (at most 2^-40) of MAC keys and random coefficients verification or opening reports an error at an honest party whenever the resulting value differs (mod the user's ring) from the correct one. Honest executions are always accepted.",
 ["fault_sequences","inputs"],"All additive errors on value and MAC, all inputs, all MAC keys/coefficients (pairs of accepting challenges).",
 "All tests are honest executions; a vacuous MAC check passes all of them.",
 [SP,I+"spdzwise/share.rs",I+"spdzwise/vecshare.rs"],[("verify_macs/hash_based_zero_verify",SP)])
p("P16","MAC-based protocol: every AND gate is checked against an unused triple",
 "Every AND gate evaluated since the last check, whatever the mix of bit widths and batch sizes, enters the AND check exactly once, so an honest run is accepted and any wrong AND output bit is reported by verification. Running out of precomputed triples is an error.",
 ["histories","fault_sequences","inputs"],"All sequences (bounded) of AND-type operations of all widths, all gate inputs, all single-party deviations in one gate's output.",
 "Tests run one honest sequence; losing gates while packing different widths together is invisible in an honest run.",
 [SP,I+"spdzwise/triples.rs"],[("triple packing",I+"spdzwise/triples.rs"),("verify_triples",SP)],hook="bounded triple-generation size (cfg-guarded) so that the check is within a solver's reach")
p("P17","Four-value protocol: the distributed proof accepts every honest multiplication",
 "For all inputs, randomness and challenges, the distributed zero-knowledge proofs for ANDs, multiplications and dot products accept every honest execution, for any number of gates and vector length. In particular intermediate cancellations or zero coefficients never make an honest proof fail or crash.",
 ["inputs"],"All gate inputs, proof randomness and challenge points at small symbolic sizes.",
 "Tests run honest executions with random challenges, so exceptional coefficients (probability 2^-16 and below) do not occur.",
 [SW,I+"dzkp/and_proof.rs",I+"dzkp/mul_proof.rs",I+"dzkp/dot_proof.rs",I+"dzkp/polynomial.rs"],[("prove/verify/combine",I+"dzkp/")],hook="proof modules are crate-private")
p("P18","Four-value protocol: the distributed proof exposes a wrong multiplication",
 "If a prover's multiplication, dot product or AND message deviates by any non-zero error, an otherwise honest proof is rejected by the combined verifiers unless the random challenge is exceptional. A proof message that deviates from the committed polynomial is likewise rejected unless the challenge is exceptional.",
 ["fault_sequences","inputs"],"All non-zero errors in one gate, all gate inputs, all randomness, non-exceptional challenges (bounded).",
 "All tests are honest executions.",
 [SW,I+"dzkp/and_proof.rs",I+"dzkp/mul_proof.rs",I+"dzkp/dot_proof.rs"],[("verify_post/combine_verifications",I+"dzkp/")],hook="proof modules are crate-private")
p("P19","Proof arithmetic (binary field, Galois ring, polynomials) obeys algebra",
 "Addition, multiplication and inversion in the proof system's fields and rings, and polynomial addition, multiplication, division with remainder, evaluation and interpolation on top of them obey the algebraic laws: quotient times divisor plus remainder gives the dividend with smaller degree, interpolation reproduces the sampled values, and multiplying by an inverse gives one. Non-invertible elements are reported as such.",
 ["inputs"],"All coefficients for bounded degrees and all ring widths.",
 "Existing tests sample random polynomials; vanishing leading coefficients and special elements are not sampled.",
 [I+"dzkp/polynomial.rs",I+"dzkp/gf2p64.rs",I+"dzkp/irreducible_polys.rs"],[("Poly ops",I+"dzkp/polynomial.rs"),("GF2p64",I+"dzkp/gf2p64.rs")],hook="module is crate-private")
p("P20","Secure iris comparison decides exactly as the plaintext reference",
 "For two iris codes with masks, the secure pairwise comparison returns true exactly when the plaintext reference says the codes are close, for every code content, masks and sharing randomness; an unusably small common mask is reported as an error in both the single and the batched comparison.",
 ["inputs"],"All codes/masks over a symbolic window of positions around the decision threshold, all randomness.",
 "Tests use random codes far away from the threshold; boundary counts and mask weights just below the limit are not hit.",
 [I+"iris/protocol.rs","plain-reference/src/lib.rs"],[("compare_iris/threshold",I+"iris/protocol.rs"),("is_close","plain-reference/src/lib.rs")])
p("P21","Database search reports a match exactly if some entry matches",
 "Searching a shared iris in a shared database returns true exactly if at least one database entry is close to it per the plaintext rule, for any database size and any chunking. Entries are neither skipped nor mixed up, and a failed verification is returned as an error.",
 ["inputs","configurations","fault_sequences"],"All symbolic match patterns for bounded database sizes and chunk sizes, including sizes not divisible by the chunk size.",
 "Tests use fixed sizes and random entries of which at most one matches.",
 [I+"iris/protocol.rs",UT],[("iris_in_db/compare_iris_many",I+"iris/protocol.rs")])
p("P22","Plain reference: bit arrays, masks and Hamming decision are exact",
 "Setting, reading, flipping, combining (and, or, xor) and counting bits of iris codes act exactly on the addressed positions, for every content and index. The plaintext closeness test compares the fraction of differing bits among commonly unmasked positions with the threshold exactly as documented and is symmetric.",
 ["inputs"],"All bit contents of symbolic words, all indices.",
 "Tests only check random codes' sampled statistics.",
 ["plain-reference/src/lib.rs"],[("IrisCodeArray, IrisCode::is_close","plain-reference/src/lib.rs")])
p("P23","Ring and bit types implement arithmetic modulo 2^k",
 "For all values, the arithmetic, bitwise, shift, negation and comparison operators of the ring element and bit types agree with integer arithmetic modulo 2^k, and conversions between signed, unsigned and verification-width types preserve values modulo the target size. No operator panics on any operand in its domain.",
 ["inputs"],"All operand values for every width 1, 8, 16, 32, 64, 128.",
 "Only vector conversions are tested; operators are sampled through protocols.",
 [I+"types/bit.rs",I+"types/ring_element.rs",I+"types/int_ring.rs",I+"types/sharable.rs"],[("operators",I+"types/ring_element.rs, "+I+"types/bit.rs")])
p("P24","Commitments bind and verify; parties agree on jointly tossed coins",
 "A commitment opens successfully exactly with the committed values and randomness. A jointly tossed coin is the same at every party, depends on every party's contribution, and a contribution altered on its way to one party is reported as an error by the verification that precedes acceptance of anything depending on the coin.",
 ["inputs","fault_sequences"],"All committed values/randomness, all alterations of an opening or a coin message by one party (hash ideal).",
 "Tests only exercise honest commitments with random values.",
 [I+"commitment/mod.rs",MA,SP,SW],[("commit/verify",I+"commitment/mod.rs"),("coin",", ".join([MA,SP,SW]))],hook="crate-private")
p("P25","Typed channel framing returns exactly the messages sent",
 "Encoding a sequence of messages with the typed length-delimited codec and decoding the byte stream, however it is fragmented, returns exactly the same messages in the same order. An incomplete frame yields no message and content that is too short for, or not an encoding of, the message type yields an error, never a crash.",
 ["inputs","schedules"],"All message contents (bounded size), all fragmentation points of a bounded stream.",
 "Tests use loopback sockets with whole messages.",
 ["mpc-net/src/codecs.rs"],[("BincodeCodec","mpc-net/src/codecs.rs")])
p("P26","Network configuration sanity check accepts exactly consistent configurations",
 "The configuration check accepts a configuration exactly if the own party id is listed and all party ids are distinct, for any number, values and order of ids. Party ids convert from integers exactly for the three valid ones, with next and previous being inverse rotations.",
 ["configurations","inputs"],"All id values for bounded party counts.",
 "Not tested.",
 ["mpc-net/src/config.rs",I+"aby3/id.rs"],[("check_config","mpc-net/src/config.rs"),("PartyID",I+"aby3/id.rs")])
p("P27","The networked channels deliver each party's messages to the right peer in order",
 "Over an established mutually authenticated network, a message sent to a party arrives unmodified and in order at that party and only there, for any interleaving of concurrent sends and receives, and a party with a wrong certificate cannot take part.",
 ["schedules","fault_sequences"],"All interleavings of asynchronous channel tasks, all network behaviours.",
 "Tests run a handful of loopback exchanges under one scheduler.",
 ["mpc-net/src/lib.rs","mpc-net/src/channel.rs",I+"aby3/network.rs"],[("QUIC/TLS connection set-up","mpc-net/src/lib.rs"),("channel handles","mpc-net/src/channel.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
