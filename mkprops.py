#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, pathlib
I = "include/"
def P(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(obs), hook_needed=hook))
L = []
L.append(P("C01", "Every signature that signing reports as produced verifies",
 "For Falcon-512 and Falcon-1024, whenever signing returns successfully the bytes it wrote verify under the public key of that key pair and for exactly that message. This holds for every key pair that key generation can output, every message of any length including the empty one, both signing routes (one-shot from the encoded secret key, and from the precomputed matrix and tree), whatever random bytes the generator delivers, and after any crash and restart of the signer.",
 ["inputs","schedules","crash_points","histories","configurations"],
 "all keys, messages, random streams (including legal but rare ones that produce large coefficients or several rejected attempts), crash/restart histories and message delivery orders",
 "The stable tests never sign (everything that needs SHAKE256 is left out of the build); the upstream test signs 1024 random messages with one random key, so draws of probability below 1e-4 (a coefficient of 1024 or more, an out-of-range F, a signature that exactly fills its bytes) are never seen.",
 ["falcon.hpp","signing.hpp","verification.hpp","encoding.hpp","decoding.hpp","hashing.hpp"],
 [("retry loop that only lets short, compressible signatures out","include/signing.hpp sign"),("s1 + s2*h = c check and norm bound","include/verification.hpp verify"),("unary/sign coding of s2","include/encoding.hpp compress_sig, include/decoding.hpp decompress_sig")],
 [("B, T","secret basis in FFT form and Falcon tree","include/falcon.hpp compute_matrix_B / compute_falcon_tree")],
 ["falcon::sign","falcon::verify"]))
L.append(P("C02", "Verification accepts exactly the valid signatures",
 "Verification returns true if and only if the public key and signature bytes are well-formed encodings and the pair (s1, s2), with s1 = c - s2*h mod q centred in [-6144, 6144] and c the hash of salt and message, has squared Euclidean norm at most the parameter set's bound, computed over the integers. Hence a signature whose message, salt, body or public key was altered, swapped, truncated or spliced on the way is rejected, no matter how large the coefficients involved get.",
 ["inputs","fault_sequences","histories"],
 "all (public key, message, signature) byte strings that a faulty network, a damaged store or a malicious peer can deliver, for both parameter sets",
 "No test, upstream or stable, ever verifies a wrong signature; the decision boundary (norm exactly at the bound, coefficient exactly q/2, sums beyond 32 bits) is never met by honest random signatures.",
 ["verification.hpp","decoding.hpp","hashing.hpp","ntt.hpp","ff.hpp","polynomial.hpp"],
 [("recompute s1, centre it, accumulate the squared norm, compare to the bound","include/verification.hpp verify"),("hash of salt || message to a point","include/hashing.hpp hash_to_point")],
 [], ["falcon::verify","verification::verify"]))
L.append(P("C03", "Hostile bytes are contained",
 "Verification and the decoding of public keys, secret keys and signatures terminate for every byte string of the documented length, read and write no byte outside the buffers they were given, execute no undefined behaviour, and return a result that depends only on those bytes. Every operation writes exactly the documented output length and leaves its inputs unchanged.",
 ["inputs","fault_sequences"],
 "all byte contents of key, message and signature buffers after truncation, overwriting, bit flips or malicious construction, with any contents in the neighbouring memory",
 "Tests only decode what the encoder just produced (or one random signature), into buffers whose neighbourhood is never inspected.",
 ["decoding.hpp","verification.hpp","falcon.hpp","hashing.hpp"],
 [("bit-level parsing of the compressed signature with explicit end checks","include/decoding.hpp decompress_sig"),("fixed-stride unpacking of key bytes","include/decoding.hpp decode_pkey / decode_skey")],
 [], ["falcon::verify","decoding::decode_pkey","decoding::decode_skey","decoding::decompress_sig"]))
L.append(P("C04", "Encodings are exact and one-to-one",
 "Public keys, secret keys and signatures use the byte formats of the Falcon specification: encoding then decoding returns the same value for every in-range polynomial, and the decoders accept a byte string only if encoding the decoded value gives back the same bytes, with every public-key coefficient below q. In particular a valid signature or public key has no second accepted byte form (no negative zero, no nonzero padding, no unreduced coefficient), and any string of the right length that is a canonical encoding is accepted, including one that fills the signature to its last bit.",
 ["inputs","fault_sequences"],
 "all polynomials in the coefficient ranges of the formats, and all byte strings reachable from valid encodings by storage or transmission faults",
 "The stable tests never run the codecs (their test needs SHAKE256); the upstream tests round-trip one random value per type, which never has extreme coefficients, long unary runs or a full last byte.",
 ["encoding.hpp","decoding.hpp","utils.hpp"],
 [("header bytes, bit packing and padding checks","include/encoding.hpp, include/decoding.hpp")],
 [], ["encoding::*","decoding::*"]))
L.append(P("C05", "Key material survives being stored and reloaded",
 "A key pair written to storage and loaded again, in the same or a later process, is the same key: it decodes to the generated polynomials, the recomputed G completes the NTRU equation exactly, and signing with the reloaded key gives, for the same message and random bytes, byte for byte the signature that the original key would have given, by either signing route, a signature that verifies under the stored public key. Keys and signatures written by earlier builds stay loadable, usable and valid.",
 ["crash_points","histories","inputs"],
 "all generated keys and all histories of store, crash and reload, at any point between operations, in which the stored bytes were made durable",
 "Tests keep keys in memory within one process and compare at most f, g, F, G of one random key; nothing compares the behaviour of a reloaded key, or reads artefacts of an earlier build.",
 ["falcon.hpp","encoding.hpp","decoding.hpp","falcon_tree.hpp","keygen.hpp"],
 [("G = (q + gF)/f recomputed on load","include/falcon.hpp recompute_G"),("B and T derived deterministically from f, g, F, G","include/falcon.hpp compute_matrix_B, compute_falcon_tree")],
 [("encoded secret key","the only durable form of the key","include/encoding.hpp encode_skey")],
 ["decoding::decode_skey","falcon::recompute_G","falcon::sign"]))
L.append(P("C06", "Key generation only outputs sound NTRU keys",
 "For every random stream, key generation outputs f, g, F, G that satisfy fG - gF = q over the integers modulo x^N+1, with f invertible mod q, h*f = g mod q for the published h, Gram-Schmidt norm at most 1.17*sqrt(q), and every coefficient of f, g and F, the polynomials that are stored, within the range its stored form can represent. f and g are the sums of integer-sampler draws that the specification prescribes, taken from that random stream.",
 ["inputs","histories"],
 "all random streams, including rare ones (non-invertible f, unsolvable pairs, coefficients at the edge of the stored range)",
 "The stable tests never generate a key; upstream generates one key per run, so events that hit one key in a thousand (an F coefficient outside eight bits) or rarer are invisible.",
 ["ntru_gen.hpp","keygen.hpp","karatsuba.hpp","falcon.hpp"],
 [("rejection loop over candidate pairs","include/ntru_gen.hpp ntru_gen"),("tower-of-fields solver and Babai reduction","include/ntru_gen.hpp ntru_solve, reduce"),("h = g/f","include/keygen.hpp compute_public_key")],
 [], ["falcon::keygen","ntru_gen::ntru_gen"]))
L.append(P("C07", "Entropy failure is fail-stop",
 "If the system entropy source fails while a random generator is being seeded, key generation and one-shot signing do not return normally: the failure reaches the caller as an exception, the caller's output buffers are left untouched, and nothing falls back to predictable randomness. Once the source recovers, the next call succeeds and is not influenced by the failure.",
 ["fault_sequences","histories"],
 "all points at which opening or reading the entropy source can fail, in any history of operations",
 "Tests have no way to make std::random_device fail.",
 ["prng.hpp","falcon.hpp","ff.hpp"],
 [("generator seeded in its constructor, before any output is written","include/prng.hpp prng_t::prng_t")],
 [], ["falcon::keygen","falcon::sign","prng::prng_t"]))
L.append(P("C08", "Every generator is seeded with 256 bits of its own system entropy",
 "Each random generator the library constructs, including the ones inside key generation and one-shot signing, takes at least 256 bits from the system entropy source at that moment, its output depends on all of them and on nothing else, and no seeding is shared between generators or calls. What it delivers is one non-repeating stream, the same however the reads are divided. Two generators therefore deliver the same bytes only if the entropy source delivered the same bits to both.",
 ["fault_sequences","histories","inputs"],
 "all sequences of entropy words and all histories of generator constructions",
 "Tests never see the entropy source; two equal 32-bit seeds occur once in 2^16 generators, far beyond a test run.",
 ["prng.hpp","falcon.hpp"],
 [("seed sampled from std::random_device and absorbed into SHAKE256","include/prng.hpp prng_t::prng_t")],
 [("prng_t::state","SHAKE256 state that carries the seed","include/prng.hpp")],
 ["prng::prng_t::read","falcon::keygen","falcon::sign"]))
L.append(P("C09", "Concurrent callers do not interfere",
 "Key generation, key loading, signing and verification may run at the same time on any number of threads, sharing read-only keys, matrices, trees and messages, each with its own random generator and output buffers. Under every interleaving each call returns exactly what it would have returned running alone.",
 ["schedules"],
 "all interleavings of calls of 2 to 4 threads, with preemption possible at every basic block of the library",
 "All tests are single-threaded.",
 ["falcon.hpp","signing.hpp","verification.hpp","ffsampling.hpp","falcon_tree.hpp","ntru_gen.hpp","polynomial.hpp","ntt.hpp","fft.hpp","karatsuba.hpp","keygen.hpp","decoding.hpp","encoding.hpp","samplerz.hpp","prng.hpp"],
 [("no mutable state outside the caller's buffers and generator","all of include/")],
 [], ["falcon::keygen","falcon::sign","falcon::verify"]))
L.append(P("C10", "Results depend only on arguments and random bytes",
 "The result of every operation is a function of its arguments and of the random bytes delivered to it. It does not depend on earlier operations (successful, failed, or aborted by an exception), on other keys or parameter sets used before, on buffer addresses or leftover contents of outputs, stack or heap, nor on the clock.",
 ["histories","configurations","fault_sequences"],
 "all operation histories and all ambient states (memory contents, addresses, clock) in which an operation can run",
 "Each test runs its operations once, in a fixed order, with unseeded randomness, so it cannot compare the same call in two different situations.",
 ["falcon.hpp","signing.hpp","verification.hpp","decoding.hpp","encoding.hpp","keygen.hpp","ntru_gen.hpp","falcon_tree.hpp","prng.hpp"],
 [("stateless functions that initialise all they read","all of include/")],
 [], ["falcon::keygen","falcon::sign","falcon::verify"]))
L.append(P("C11", "The integer sampler follows the specification on every random stream",
 "For every centre, every standard deviation in the parameter set's range and every stream of random bytes, the integer sampler returns the value that the specification's SamplerZ defines on those bytes and consumes exactly those bytes: table lookup on 72 bits, sign bit, and a byte-wise lazy comparison with the exponential threshold, repeated until acceptance. The variant that takes its bytes from an array agrees with the one that draws them from the generator, once the nine table bytes of each iteration, which it takes most significant first as the specification's known-answer tests list them, are reversed.",
 ["inputs","histories"],
 "all (centre, deviation) pairs and byte streams, in particular table boundaries, table tails, ties over several comparison bytes and long rejection runs",
 "The upstream known-answer tests cover a fixed list of short streams (and are not in the stable build); tails of probability below 2^-20, table boundaries and multi-byte ties are not in it.",
 ["samplerz.hpp","u72.hpp","prng.hpp"],
 [("reverse cumulative table and 72-bit comparison","include/samplerz.hpp base_sampler, include/u72.hpp"),("fixed-point exponential and lazy comparison","include/samplerz.hpp approx_exp, ber_exp")],
 [], ["samplerz::samplerz"]))
L.append(P("C12", "Signatures are the specification's function of key, message and stream",
 "Given the key, the message and the random bytes its generator delivers, signing outputs exactly the signature that the specification defines: the first 40 bytes are the salt, fast Fourier sampling over the normalised Falcon tree consumes the following bytes, and an attempt is discarded, keeping the salt and drawing fresh samples, exactly when its squared norm exceeds the bound or its compressed form does not fit. Nothing else is ever output.",
 ["inputs","histories","configurations"],
 "all keys, messages and random streams for both parameter sets and both signing routes, including streams that force discarded attempts",
 "A wrong tree, a wrong deviation or a skewed sampler still yields signatures that verify, so a sign-then-verify test cannot see it; discarded attempts are too rare to be sampled by the tests.",
 ["signing.hpp","ffsampling.hpp","falcon_tree.hpp","falcon.hpp","keygen.hpp","samplerz.hpp","fft.hpp","encoding.hpp"],
 [("LDL tree and leaf normalisation","include/falcon_tree.hpp ffldl, normalize_tree"),("recursive sampling, right half first","include/ffsampling.hpp ff_sampling"),("rejection loop","include/signing.hpp sign")],
 [("T","Falcon tree, leaves sigma/sqrt(leaf)","include/falcon_tree.hpp")],
 ["falcon::sign","falcon::compute_falcon_tree"]))
L.append(P("C13", "Every operation finishes in bounded work once faults stop",
 "Verification and decoding always finish within a fixed amount of work linear in the input size. Key generation and signing finish within a bounded number of attempts after the random stream turns healthy, however long and however adversarial the stream was before (stuck at one value, only rejections, only extreme draws), and also when the entropy source is stuck at a constant.",
 ["fault_sequences","histories","inputs"],
 "all finite prefixes of bad random bytes followed by healthy ones, all stuck entropy values, all input bytes",
 "Tests only see healthy randomness; a loop that cannot leave a bad state would need a draw of negligible probability to show up.",
 ["signing.hpp","ntru_gen.hpp","samplerz.hpp","verification.hpp","decoding.hpp","prng.hpp","ff.hpp"],
 [("rejection loops that redraw everything they depend on","include/signing.hpp sign, include/ntru_gen.hpp ntru_gen, include/samplerz.hpp samplerz"),("bounded parser loops","include/decoding.hpp decompress_sig")],
 [], ["falcon::sign","falcon::keygen","falcon::verify"]))
L.append(P("C14", "A damaged secret key never yields a signature reported as good",
 "If the stored secret key was damaged (flipped bits, torn or lost writes, a mix of two keys, zeroed ranges) one-shot signing finishes and either returns false, or the signature it reports verifies under the public key that belongs to the stored f and g. It never hangs, crashes or reports success for a signature that does not verify.",
 ["fault_sequences","crash_points","inputs"],
 "all damage that storage faults do to an encoded secret key of either parameter set",
 "No test passes a damaged secret key to signing.",
 ["falcon.hpp","decoding.hpp"],
 [("header check, and the NTRU equation that binds F and G to f and g","include/decoding.hpp decode_skey, include/falcon.hpp recompute_G / sign")],
 [], ["falcon::sign","falcon::verify"]))
L.append(P("C15", "Every signature carries a fresh 40-byte salt",
 "All 40 salt bytes of a signature are drawn from the generator during that signing call and are used for no other signature. No two signatures ever produced share a salt, across calls, messages, keys, routes, threads, failures and restarts, unless the entropy source itself repeats.",
 ["histories","crash_points","schedules","fault_sequences"],
 "all histories of signing calls, including ones cut short by crashes and entropy failures, over several signers, threads and restarts",
 "Tests never compare two signatures.",
 ["signing.hpp","prng.hpp","falcon.hpp"],
 [("salt read from the generator at the start of every call","include/signing.hpp sign")],
 [("prng_t::state","position in the random stream","include/prng.hpp")],
 ["falcon::sign"]))
L.append(P("C20", "Running out of memory is fail-stop",
 "If a heap allocation made during an operation fails (key generation computes with big integers on the heap), the operation never returns a result other than the one it returns with enough memory: it completes correctly, throws, or stops the process. Afterwards, in the same or a restarted process, the same call returns what it would have returned had nothing happened.",
 ["fault_sequences","crash_points"],
 "every allocation of every operation refused, once, for a while or from there on",
 "Tests never run out of memory.",
 ["keygen.hpp","ntru_gen.hpp","karatsuba.hpp","falcon.hpp"],
 [("big integers on the heap through GMP, which stops the process when refused","include/ntru_gen.hpp, include/karatsuba.hpp")],
 [], ["falcon::keygen","falcon::sign","falcon::verify"]))
L.append(P("C21", "Operations give back what they take",
 "Every operation, whether it succeeds, is refused (damaged key, invalid signature, rejected candidates) or is aborted by an exception from the entropy source or the generator, releases all heap memory and entropy-source handles it acquired, so that any number of operations can run in one process without its footprint growing.",
 ["histories","fault_sequences"],
 "all operations and all points at which an exception can leave them, repeated any number of times",
 "Tests end their process after a handful of calls and never see an exception.",
 ["keygen.hpp","ntru_gen.hpp","karatsuba.hpp","prng.hpp","falcon.hpp"],
 [("big integers owned by mpz_class objects, freed on every path","include/ntru_gen.hpp, include/karatsuba.hpp"),("random_device closed when the seed has been read","include/prng.hpp prng_t")],
 [], ["falcon::keygen","falcon::sign","falcon::verify","prng::prng_t"]))
L.append(P("C16", "Arithmetic in Z_q is exact",
 "Addition, subtraction, negation, multiplication, inversion, division and exponentiation of field elements return the canonical result modulo 12289 for every pair of canonical operands.",
 ["inputs"], "all operands in [0, q)",
 "Tests sample random pairs.",
 ["ff.hpp"], [("Barrett reduction, extended gcd","include/ff.hpp")], [], ["ff::ff_t"]))
L.append(P("C17", "Transforms are exact or accurate inverses and ring homomorphisms",
 "The number theoretic transform and its inverse are exact mutual inverses, the complex transform and split/merge are so within rounding error, and all map multiplication modulo x^N+1 to pointwise multiplication, for every input.",
 ["inputs"], "all polynomials",
 "Tests sample random polynomials.",
 ["ntt.hpp","fft.hpp","polynomial.hpp"], [("root tables and butterflies","include/ntt.hpp, include/fft.hpp")], [], ["ntt::ntt","fft::fft"]))
L.append(P("C18", "Wide-integer arithmetic is exact",
 "Polynomial multiplication over big integers, the extended gcd and the 72- and 128-bit unsigned operations return the mathematically exact result for every operand.",
 ["inputs"], "all operands",
 "They have no direct test.",
 ["karatsuba.hpp","ntru_gen.hpp","u72.hpp","samplerz.hpp"], [("Karatsuba recursion, limb carries","include/karatsuba.hpp, include/u72.hpp")], [], ["karatsuba::karamul","u72::u72_t"]))
L.append(P("C19", "Hexadecimal helpers are mutual inverses",
 "Converting bytes to a hexadecimal string and back returns the same bytes for every byte string.",
 ["inputs"], "all byte strings", "They have no direct test.",
 ["common.hpp"], [("to_hex / to_byte_array","include/common.hpp")], [], ["to_hex","to_byte_array"]))
pathlib.Path(__file__).with_name("properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False)+"\n" for p in L))
