#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from vk import props
T={
"C01":"TLA+ definitions of AES/DES/3DES/Blowfish; traces of the real block primitives and ECB transforms validated by TLC",
"C02":"TLA+ model of the chaining modes over arbitrary block permutations, explored by TLC; recorded traces of real mode objects validated against it",
"C03":"TLA+ model of padding and padded transforms, explored by TLC; recorded traces incl. all malformed last blocks validated against it",
"C04":"TLC-generated put/get/flush histories replayed into every real transform; recorded traces validated against the TLA+ transform model",
"C05":"TLA+ definitions of ChaCha20 and ARCfour; traces at every key stream position and counter carry validated by TLC",
"C06":"TLA+ definitions of all hash functions; traces of the real hash objects over every boundary length validated by TLC",
"C07":"TLC-generated add histories replayed into every real hash and MAC object, traces validated against the TLA+ specification",
"C08":"TLA+ definitions of all MACs; recorded traces over key and message boundaries validated by TLC",
"C09":"TLA+ definitions of AES-GCM and ChaCha20-Poly1305; recorded traces validated by TLC",
"C10":"TLA+ specification of authenticated checking (accept iff authentic) explored by TLC; traces with every kind of alteration validated against it",
"C11":"TLA+ semantics of composition and of the string/channel helpers; recorded traces validated by TLC",
"C12":"TLA+ definitions of the codecs, explored by TLC; recorded traces over valid and invalid texts validated by TLC",
"C13":"TLA+ DEFLATE/zlib decoder as the specification; traces of real compressors and decompressors validated by TLC",
"C14":"TLA+ model of the generators (key streams, partial reads, failures); recorded traces incl. injected short reads, errors and a simulated failing RDRAND instruction validated by TLC",
"C15":"TLA+ arithmetic specification of RSA, explored exhaustively for small keys by TLC; recorded traces of real keys validated by TLC",
"C16":"TLA+ arithmetic specification of Paillier, explored for small keys by TLC; recorded traces of real keys validated by TLC",
"C17":"TLA+ specification of DH and key derivation, explored for small primes by TLC; recorded traces validated by TLC",
"C18":"TLA+ definitions of the utilities and modular arithmetic; recorded traces (incl. instruction counts of equality) validated by TLC",
"C19":"TLA+ preconditions of every constructor and range-taking call; traces over illegal and boundary parameters, also under AddressSanitizer, validated by TLC",
"C20":"TLA+ action Wipe with a non-interference monitor: traces recording all memory reachable from wiped objects validated by TLC",
"C21":"TLA+ model of independent objects; traces with garbage collections injected at every allocation point and interleaved objects validated by TLC",
"C22":"the same TLA+-generated traces recorded from seven builds (hardware, portable, bytecode, without zlib, sanitized, and two with a simulated processor lacking instructions), each validated by TLC against the one specification",
"C23":"TLA+ definitions evaluated on messages of several gigabytes (Java-accelerated folds); recorded traces of bulk operations validated by TLC",
"C24":"TLA+ model of block ownership (wipe, finalizer, stream end) explored by TLC; traces recording the growth of C memory, heap and descriptors over repeated random object lives validated by TLC",
}
NOTE="Every operation of every recorded trace of the real code (rebuilt from /repo) is a step of the explicit TLA+ specification or the check fails; exhaustive only within the stated bounds, elsewhere randomised from VERIF_SEED. Trusts TLC, the TLA+ definitions (validated against published vectors in spec/KAT.tla) and the driver that records the traces."
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m={"version":1,"setup_cmd":"bash setup.sh",
 "checks":[{"property":p,"quick_cmd":"python3 check.py %s quick"%p,"thorough_cmd":"python3 check.py %s thorough"%p,"technique":T[p],"level":"model_checking","level_note":NOTE} for p in ids if p in props.PROPS],
 "not_applicable":[{"property":p,"reason":"no check registered yet (the specification covers it; generator under construction)"} for p in ids if p not in props.PROPS],
 "notes":"TLA+ / TLC. No hooks in /repo: the driver in /verif/harness is compiled against /repo's sources in scratch directories under /verif/build."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
