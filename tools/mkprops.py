#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in source form here so it is readable and diffable)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ML="src/cryptokit.ml"
prop("C01","Block ciphers compute the standard permutation and its inverse",
"For every key of a legal size and every block, AES (128/192/256), DES, Triple-DES (two and three keys) and Blowfish (4 to 56 byte keys) map the block to exactly the value the published standard prescribes, and the decryption object maps it back. The result does not depend on the positions of source and destination, on whether they are the same buffer or overlap exactly, or on blocks processed earlier, and no byte outside the destination block is written. DES keys differing only in the parity bits behave identically.",
["inputs","histories"],"all keys of every legal length, all blocks, all offsets, in-place and out-of-place, any sequence of previous blocks, both the hardware and the portable code path",
"The tests use a few published vectors per cipher, at offset 0, on the hardware path only; a wrong table entry, key-schedule case or offset computation that those vectors do not hit goes unnoticed.",
[ML,"src/rijndael-alg-fst.c","src/aesni.c","src/d3des.c","src/blowfish.c","src/stubs-aes.c","src/stubs-des.c","src/stubs-blowfish.c"],
[("aes/des/blowfish block cipher objects",ML+" module Block"),("key schedules and rounds","src/rijndael-alg-fst.c, src/aesni.c, src/d3des.c, src/blowfish.c"),("dispatch on hardware support","src/stubs-aes.c")],
observe=["block cipher transform method","cipher transforms in ECB mode"])
prop("C02","Chaining modes follow their definition and decryption inverts encryption",
"Over any block cipher (including one supplied by the user), any initial vector and any number of blocks, ECB, CBC, CFB-n, OFB-n, CTR and CTR-n produce exactly the block sequence of their definition, with n-byte counters incremented modulo 2^(8n) and the other bytes untouched. Decrypting the encryption of any data with the same parameters gives the data back. A CTR-n stream with n below 8 refuses, with the message-too-long error, to run past the point where its counter would repeat, and never emits two blocks under the same counter value.",
["inputs","histories"],"all block ciphers, IVs (including counters about to carry or wrap), chunk sizes n, data lengths, and ways of cutting the data into calls",
"Tests check one or two short vectors per mode with AES/DES; feedback shifts, multi-byte carries, the counter limit and user-supplied ciphers of other block sizes are hardly reached.",
[ML],[("cbc/cfb/ofb/ctr classes",ML+" module Block"),("counter increment",ML+" increment_counter"),("mode selection and direction normalisation",ML+" module Cipher")],
state=[("iv","chaining value / counter",ML+" chaining classes"),("max_transf","blocks left before the counter repeats",ML+" class ctr")],
observe=["cipher transforms","chained block cipher objects"])
prop("C03","Padding is unambiguous: stripped exactly, and malformed padding is rejected",
"With either padding scheme and any block size, padded encryption adds between one byte and one full block, its output is a whole number of blocks, and padded decryption returns exactly the original data for every data length including zero. Padded decryption of data whose last block is not a correctly padded block raises the bad-padding error, and of data that is empty or not a whole number of blocks raises the wrong-data-length error; it never returns data in these cases, never rejects correctly padded data, and never emits padding bytes.",
["inputs","histories"],"all data, lengths, block sizes 1..255, all contents of the last block, all ways of cutting the data into calls, user-supplied padding schemes",
"Tests round-trip two lengths; the space of malformed final blocks and boundary lengths is not explored.",
[ML],[("pad/strip of the two schemes",ML+" module Padding"),("padded encrypt/decrypt wrappers",ML+" cipher_padded_encrypt, cipher_padded_decrypt")],
observe=["finish on padded cipher transforms","pad and strip methods"])
prop("C04","Transforms are streaming: output depends only on the bytes fed, in FIFO order",
"For every transform, the concatenation of everything read out equals the same function of the concatenation of everything put in, however the input is cut into puts (whole strings, substrings, single characters or bytes, empty pieces) and however reads (all, substring, character, byte) are interleaved with the puts. Output is delivered exactly once and in order, the reported number of available bytes is exact, reading a byte when none is available raises end-of-file and changes nothing, and a flush makes all output for complete blocks available without altering later output. The announced input and output block sizes are those of the transform. The caller's input buffer is never modified and may be reused after the call returns.",
["inputs","histories"],"all transforms, all histories of put/get/flush/finish calls of any sizes, including output left unread while the internal buffer is compacted or grown",
"Tests almost always use one put and one get; buffer compaction, growth with unread output, and interleavings of partial reads are never exercised.",
[ML],[("output buffering",ML+" class buffered_output"),("block accumulation",ML+" Block.cipher"),("stream wrapping",ML+" Stream.cipher"),("codecs and compression","%s modules Base64, Hexa, Zlib"%ML)],
state=[("output buffer","bytes produced and not read yet",ML+" class buffered_output"),("input buffer","bytes accepted and not processed yet",ML+" Block.cipher")],
observe=["all methods of transform objects"])
prop("C05","Stream ciphers produce the standard key stream at every position",
"For every key of legal size, initial vector and initial counter, ChaCha20 (8-byte and 12-byte nonces, 16 and 32 byte keys, 64-bit or 32-bit block counter) and ARCfour (1 to 256 byte keys) xor the data with exactly the key stream the specification defines. The key stream position advances by exactly the number of bytes processed, whatever the sizes of the individual calls, including counter carries into the upper half, so that decryption is the same operation as encryption. Processing in place or between any two offsets gives the same bytes and writes nothing else.",
["inputs","histories"],"all keys, nonces, initial counters (including those about to carry), data, lengths, offsets and splits into calls",
"Tests use a handful of vectors in one call each from counter 0 or 1; counter carries, 16-byte keys with 12-byte nonces and resumption inside a block are not covered.",
[ML,"src/chacha20.c","src/arcfour.c","src/stubs-chacha20.c","src/stubs-arcfour.c"],
[("chacha20 block function and counter","src/chacha20.c"),("arcfour state","src/arcfour.c"),("parameter handling",ML+" module Stream")],
observe=["stream cipher transform method","Cipher.chacha20 / Cipher.arcfour transforms"])
prop("C06","Hash functions return the standard digest of every message",
"SHA-1, SHA-224/256/384/512, SHA-3 and Keccak (all four sizes), RIPEMD-160, MD5, BLAKE2b and BLAKE2s (every digest size) and BLAKE3 (every output length) return exactly the digest their standard defines for the message fed to them, for messages of every length and content. The digest has exactly the length that the hash object announces as its hash size.",
["inputs"],"all messages of all lengths (every residue modulo the block size and every tree shape), all digest sizes",
"Tests use a few dozen fixed messages, mostly short, at the default digest sizes; padding boundaries, tree shapes and odd digest sizes are sampled very thinly.",
[ML,"src/sha1.c","src/sha256.c","src/sha512.c","src/keccak.c","src/ripemd160.c","src/stubs-md5.c","src/blake2.c","src/blake3.c","src/blake3_portable.c"],
[("compression functions, buffering and padding","src/sha1.c, src/sha256.c, src/sha512.c, src/keccak.c, src/ripemd160.c, src/blake2.c, src/blake3.c"),("hash classes and sizes",ML+" module Hash")],
observe=["result and hash_size of hash objects"])
prop("C07","Incremental hashing equals one-shot hashing, for every split",
"For every hash and MAC object, feeding a message in any number of pieces of any sizes through any mixture of the add operations (string, substring, character, byte, including empty pieces) gives the same digest as feeding it in one piece. Only the designated part of a substring is used, and the input is never modified.",
["inputs","histories"],"all hash and MAC constructions, all messages, all splits into pieces and all add operations",
"Tests feed every message in a single call (a few in two), so buffering across calls at block boundaries is practically untested.",
[ML,"src/sha1.c","src/sha256.c","src/sha512.c","src/keccak.c","src/ripemd160.c","src/stubs-md5.c","src/blake2.c","src/blake3.c","src/siphash.c"],
[("partial-block buffers of every update function","src/*.c update functions"),("CBC-MAC / CMAC buffering",ML+" Block.mac, Block.cmac")],
state=[("partial block buffer","bytes added and not yet compressed","hash contexts")],observe=["result of hash objects"])
prop("C08","MACs compute the standard keyed function for every key and message",
"HMAC over SHA-1, SHA-256, SHA-384, SHA-512, RIPEMD-160 and MD5, keyed BLAKE2b/BLAKE2s/BLAKE3, AES-CMAC, CBC-MAC over AES/DES/Triple-DES with or without padding, DES-CBC with final Triple-DES, and SipHash-2-4 with 64- and 128-bit results return exactly the value their definition prescribes, for every legal key (any length for HMAC), initial vector and message. An unpadded CBC-MAC raises the wrong-data-length error exactly when the message is not a whole number of blocks.",
["inputs"],"all keys of every legal length, all messages of every length, optional IVs and paddings, user-supplied block ciphers",
"Tests use the RFC vectors; keys at or around the hash block size, empty messages, exact multiples of the block size, custom IVs and the 128-bit SipHash are thinly covered.",
[ML,"src/siphash.c","src/stubs-siphash.c","src/blake2.c","src/blake3.c"],
[("HMAC functor",ML+" HMAC"),("CBC-MAC, CMAC and subkeys",ML+" Block.mac, Block.cmac, MAC.aes_cmac"),("SipHash","src/siphash.c")],observe=["result of MAC objects"])
prop("C09","AEAD ciphertext and tag equal the standard for every key, IV, header, text",
"AES-GCM (any IV length) and ChaCha20-Poly1305 (8- and 12-byte nonces, 16- and 32-byte keys) produce exactly the ciphertext and 16-byte tag the standards define, for every key, IV, associated data and plaintext, and the decryption object recovers the plaintext and computes the same tag. The result depends only on the data, not on how it is cut into pieces or how output is read out. In particular counter wrap-around, IVs that are not 12 bytes, empty texts or headers and every partial final block are handled as specified.",
["inputs","histories"],"all keys, IVs of all lengths, headers, texts, directions and splits into calls",
"Tests use a few published vectors in one call each; the 32-bit counter wrap, long IVs, Poly1305 carry corner cases and streaming are not reached.",
[ML,"src/ghash.c","src/pclmul.c","src/poly1305-donna.c","src/poly1305-donna-64.h","src/chacha20.c"],
[("GCM encrypt/decrypt",ML+" AEAD.aes_gcm_*"),("GHASH multiplication","src/ghash.c, src/pclmul.c"),("ChaCha20-Poly1305",ML+" AEAD.chapoly_*"),("Poly1305 arithmetic","src/poly1305-donna-*.h")],observe=["authenticated transforms"])
prop("C10","Authenticated decryption accepts exactly the authentic messages",
"Checking an authenticated message returns the original text when ciphertext, tag, header, IV and key are those of the sender, and returns nothing whenever any bit of any of them was changed, or the message was truncated, extended or reordered. Input shorter than a tag raises the wrong-data-length error. Combining a transform with a hash yields a tag over the transformed data (transform-then-hash) or over the input data (transform-and-hash), with the tag size the hash announces, for every transform and hash.",
["inputs","histories"],"all messages, all single- and multi-bit modifications at every position of ciphertext, tag, header, IV, key, all truncations and extensions; all combinations of transforms and hashes",
"Tests only check that authentic messages are accepted; rejection is never tested, nor are combined transforms with all hashes.",
[ML],[("tag verification",ML+" auth_check_transform_string, string_equal"),("tags","AEAD classes; transform_then_hash; transform_and_hash in "+ML)],observe=["auth_check_transform_string","finish_and_get_tag"])
prop("C11","Composition and string/channel helpers equal the composed functions",
"Composing two transforms yields a transform equal to running the second on the complete output of the first, for every input and every split into calls, including the data released by flush and finish. The helpers that process a whole string or channel return exactly the transform or hash of all the data, or of exactly the requested number of bytes (raising end-of-file if there are fewer and consuming nothing beyond that number), and wipe the object afterwards.",
["inputs","histories"],"all pairs (and nested compositions) of transforms, all inputs and splits, all channel contents and lengths around the internal chunk size",
"Tests never use compose on buffering transforms with partial input, and use the channel helpers on one or two inputs.",
[ML],[("compose",ML+" class compose"),("transform_string/transform_channel/hash_string/hash_channel",ML)],observe=["compose","transform_string","transform_channel","hash_string","hash_channel","auth_transform_string"])
prop("C12","Base64 and hexadecimal codecs are exact and reject bad input",
"Encoding any byte sequence yields the standard text (alphabet, padding variant, line structure with lines of at most 76 characters), and decoding any encoder's output, with blanks inserted anywhere, yields the original bytes. Decoding raises the bad-encoding error on any character outside the alphabet and blanks, on data after final padding, and on an incomplete final group that cannot be decoded, and never otherwise. The result does not depend on how the input is split.",
["inputs","histories"],"all byte sequences and all texts of any length, all variants, all positions of blanks, line breaks and invalid characters, all splits",
"Tests round-trip a few strings; line-boundary lengths, every invalid character, misplaced padding and blanks in the middle of groups are not covered.",
[ML],[("Base64 encoder/decoder",ML+" module Base64"),("hexadecimal encoder/decoder",ML+" module Hexa")],observe=["codec transforms"])
prop("C13","Compression is lossless and emits valid streams; bad streams raise errors",
"For every input, level, header choice and sequence of puts, flushes and reads, the compressor's output is a well-formed DEFLATE (or zlib) stream that decodes to the input, everything put before a flush is decodable from the output available after it, and the decompressor returns the input exactly. The decompressor decodes every valid stream, and raises the compression error, never crashing, looping or returning wrong data silently, on malformed streams, wrong checksums and data following the end of the stream.",
["inputs","histories"],"all data, levels, header options, splits, flush positions, output sizes around internal buffer boundaries; all malformed, truncated or extended streams",
"Tests round-trip one or two strings; buffer-boundary sizes, flush histories and malformed streams are not covered.",
[ML,"src/stubs-zlib.c"],[("compress/uncompress loops",ML+" module Zlib"),("zlib bindings","src/stubs-zlib.c")],observe=["Zlib transforms"])
prop("C14","Random generators fill exactly the requested bytes with the specified stream",
"A seeded generator's output is a deterministic function of the significant part of its seed, equal to the documented ChaCha20 or AES-counter key stream, continuing without gap or repetition across requests of any sizes. A file-backed generator returns the file's bytes in order, whatever the sizes of partial reads, and raises the entropy-source-closed error at end of file instead of returning. Every generator writes exactly the requested range and no byte outside it, and system and hardware generators fill every requested byte with what the source delivered, or raise an error: a source that is missing or stuck is refused at construction, one that stops delivering raises the entropy-source-closed error, and one that merely delays is retried.",
["inputs","histories","fault_sequences"],"all seeds of length 16 and more, all request sequences, ranges and sizes; all patterns of short reads, end-of-file and failures of device, system and processor sources",
"Tests print statistics of one generator; seeds of unusual length, request histories, range boundaries, short reads and EOF are not tested.",
[ML,"src/stubs-rng.c","src/stubs-chacha20.c"],[("pseudo generators",ML+" Random.pseudo_rng, pseudo_rng_aes_ctr"),("device generator loop",ML+" Random.device_rng"),("system/hardware generators","src/stubs-rng.c")],observe=["random_bytes","Random.string"])
prop("C15","RSA operations are mutually inverse modular powers for every valid key",
"For every valid key and every message below the modulus, encryption returns the message raised to the public exponent modulo n as a fixed-size big-endian string, decryption and its CRT variant both return the original message, and signing (plain or CRT) followed by unwrapping returns the message. Messages not below the modulus raise the message-too-long error. Generated keys are consistent (n is the product of two distinct primes of half the requested size and all CRT components match) for every even size from 32 bits and every legal requested exponent.",
["inputs","histories"],"all valid keys (any size, either order of the primes, any exponent), all messages including 0, 1, n-1 and multiples of a prime factor, all generator outputs",
"Tests use one fixed key and one or two messages; keys with unusual sizes or prime order and boundary messages are not covered.",
[ML,"src/cryptokitBignum.ml"],[("RSA operations",ML+" module RSA"),("CRT exponentiation and conversions","src/cryptokitBignum.ml")],observe=["RSA functions"])
prop("C16","Paillier decryption inverts encryption and addition is homomorphic",
"For every generated key and every message below the modulus, decrypting an encryption returns the message's value, whatever the randomness used. Adding two ciphertexts yields a ciphertext that decrypts to the sum of the two messages modulo n. Generated keys satisfy the documented relations between their components.",
["inputs","histories"],"all keys, messages (including 0 and n-1), random blinding values, chains of additions",
"Tests use one key size and two messages.",
[ML,"src/cryptokitBignum.ml"],[("Paillier operations",ML+" module Paillier"),("modular arithmetic","src/cryptokitBignum.ml")],observe=["Paillier functions"])
prop("C17","Diffie-Hellman parties derive equal secrets; key derivation is exact",
"For all parameters (any prime size, any generator, any private length), both parties compute the same shared secret, equal to the group element defined by the two private secrets and encoded on exactly the length of the prime. Generated parameters contain a prime of exactly the requested size, a generator above 1 and the requested private length. Key derivation returns exactly the requested number of bytes, each prefix-consistent with longer requests, equal to the concatenated counter-mode hashes of diversification string and secret.",
["inputs","histories"],"all parameter sizes, generator outputs, private lengths, secrets, diversification strings and output lengths",
"Tests run one exchange with 256-bit parameters.",
[ML,"src/cryptokitBignum.ml"],[("DH functions",ML+" module DH"),("conversions and powers","src/cryptokitBignum.ml")],observe=["DH functions"])
prop("C18","Utility functions: equality, xor, wiping and modular arithmetic are exact",
"String and byte-sequence equality return true exactly for equal contents, and their running time depends only on the lengths, not on the contents. The xor functions change exactly the designated range of the destination to the bytewise xor, for every alignment, length and overlap-free placement; wiping overwrites every byte with zero. Modular power and product return the mathematically correct residue on as many bytes as the modulus, for all operands and moduli of any length.",
["inputs"],"all strings, offsets, alignments and lengths; all operands, exponents (including 0) and moduli (odd, even, any byte length)",
"Tests use these functions indirectly on a few inputs; unaligned xor tails, timing and unusual moduli are untested.",
[ML,"src/stubs-misc.c","src/cryptokitBignum.ml"],[("seq_equal",ML),("xor stub","src/stubs-misc.c"),("modular arithmetic","src/cryptokitBignum.ml, "+ML+" mod_power, mod_mult")],observe=["string_equal","bytes_equal","xor_bytes","xor_string","wipe_bytes","wipe_string","mod_power","mod_mult"])
prop("C19","Illegal parameters and ranges are refused with the documented error",
"Constructing an object with a key, IV, seed, digest size or numeric parameter of illegal size raises the documented error, and every legal size is accepted. Calls whose substring designates bytes outside the given buffer raise an exception, never read or write outside it and never crash or hang; a refused call to a cipher, hash or generator primitive changes nothing.",
["inputs"],"all sizes of every parameter of every constructor (all key/IV/seed lengths around the legal ones, all chunk sizes), all offset/length combinations including negative and overflowing ones",
"Tests only use legal parameters and ranges.",
[ML],[("size checks in constructors",ML),("range checks in transform/add_substring/random_bytes methods",ML)],observe=["constructors and substring-taking methods"])
prop("C20","Wiping leaves no key- or data-dependent state in an object",
"After a cipher, stream cipher, chaining mode, hash, MAC, authenticated transform, codec, or seeded generator is wiped, the memory reachable from the object, and the memory it gives back when wiped, carry no information about its key, IV, or the data it processed, at whatever point of its life it is wiped. Composite objects wipe all of their components, and wiping private keys erases all their secret components. The helpers that consume a transform or hash wipe it.",
["inputs","histories"],"all object kinds, all keys and data, all histories before the wipe (fresh, mid-block, after output growth, after finish)",
"No test looks at memory after wipe.",
[ML,"src/stubs-sha3.c","src/stubs-blake3.c","src/stubs-ghash.c"],[("wipe methods",ML),("C context wiping","src/stubs-sha3.c, src/stubs-blake3.c")],observe=["heap reachable from an object after wipe (two runs with different secrets must be indistinguishable)"])
prop("C21","Results do not depend on memory management or on other live objects",
"The result of every operation is the same whenever the garbage collector happens to run during it, and objects never influence each other: any interleaving of operations on several objects gives each the result it would have alone. Strings and byte sequences passed as keys, IVs, headers or messages are never modified by an operation (other than the documented wiping), and may be changed or collected after construction without effect on the object.",
["schedules","histories"],"all points at which a collection can strike inside any operation, all interleavings of operations on sets of objects, including garbage collection of finished ones",
"Tests run single objects with no memory pressure; missing registration of a value or sharing of state only shows under a collection at a precise allocation.",
["src/stubs-*.c",ML],[("rooting of values in C stubs","src/stubs-*.c (CAMLparam/CAMLlocal, order of allocation and access)"),("per-object contexts",ML)],observe=["all operations under forced collections"])
prop("C22","All build configurations and code paths compute the same results",
"Hardware-accelerated and portable implementations, native code and bytecode, 64-bit and 32-bit arithmetic variants give bit-for-bit identical results for every operation and input, and an instruction that the processor at hand does not announce is never executed. A build without compression support refuses compression with the documented error and is otherwise identical.",
["configurations","inputs"],"builds with and without hardware support, processors with and without AES and carry-less multiplication instructions, native and bytecode, Poly1305 32- and 64-bit variants, with and without zlib; all operations and inputs",
"The test suite runs in a single configuration on a single machine: the portable AES and GHASH code is never executed on CPUs with AES instructions, and bytecode stubs never at all.",
["src/stubs-aes.c","src/stubs-ghash.c","src/stubs-chacha20.c","src/stubs-arcfour.c","src/stubs-zlib.c","src/poly1305-donna.c","src/rijndael-alg-fst.c","src/ghash.c","src/config/flags.ml"],
[("run-time dispatch","src/stubs-aes.c, src/stubs-ghash.c"),("bytecode entry points","src/stubs-*.c *_bytecode"),("configuration","src/config/flags.ml")],observe=["all operations in every build variant"])
prop("C23","Very long inputs are processed correctly",
"Messages longer than half a gigabyte and longer than four gigabytes, given in one call or in many, are hashed and authenticated to the value the standard defines, i.e. internal byte, bit and block counters do not overflow or lose carries. Long key streams and large single operations are likewise exact, as is output that grows to many megabytes before being read.",
["inputs","histories"],"message lengths crossing 2^29, 2^31 and 2^32 bytes, in one call or many; block counters crossing their word sizes",
"Tests use messages of at most a few megabytes.",
["src/sha1.c","src/sha256.c","src/sha512.c","src/ripemd160.c","src/stubs-md5.c","src/blake2.c","src/blake3.c","src/chacha20.c",ML],
[("length counters","src/sha1.c, src/sha256.c, src/sha512.c, src/ripemd160.c, src/stubs-md5.c, src/blake2.c"),("buffer growth",ML+" class buffered_output")],observe=["digests and key streams of long inputs"])
prop("C24","Objects give back the resources they hold",
"However often objects are created, used, finished, made to fail, wiped or simply dropped, memory that is no longer reachable is reclaimed by the collector: neither C memory (cipher and hash contexts, compression streams) nor the OCaml heap grows with the number of objects used, whatever stage of its life each had reached, including after errors. No memory is freed twice or used after being freed. Wiping a generator that reads from a file closes the file.",
["histories","fault_sequences"],"all object kinds, all points of their life at which they are dropped or wiped (fresh, in progress, finished, failed), repeated any number of times",
"Tests run for a second and create a few hundred objects; a leak of a context or of a compression stream shows in no result.",
["src/stubs-sha3.c","src/stubs-blake3.c","src/stubs-ghash.c","src/stubs-zlib.c",ML],[("finalizers and wiping of C contexts","src/stubs-sha3.c, src/stubs-blake3.c, src/stubs-ghash.c"),("compression streams","src/stubs-zlib.c"),("device_rng#wipe",ML)],observe=["growth of C memory, of the heap and of open descriptors over repeated lives"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
