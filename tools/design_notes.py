"""The hand-written part of DESIGN.md per property."""
TREES = ("Build specifications (`tree_model.tree_spec`): schema, names with any bytes, prefixes, locators, packet size at the smallest "
         "sufficient one plus a slack, degree, number of chunks, annotations, expiry times, AES-GCM/CCM with and without KDF and salts, "
         "RSA-OAEP wrapping, signer, first name constructor id, kind of data (random, all zero, periodic, so that packets repeat).")
NOTES = {
    "C01": dict(oracle="The input itself (round trip), and the independent reader of `tree_model.walk`, which must find the same bytes.",
                gen=TREES + " Streams that deliver short reads, data cut beforehand, several trees in one store, shuffled stores, "
                "directories with and without links, chains thousands of levels deep.",
                bounds="Up to 60 chunks per tree (400 thorough, packets up to 30 kB), deep chains up to thousands of manifests.", cost="about 45 s"),
    "C02": dict(oracle="Lengths of the encodings, and numbers of pointers the independent reader counts, against the options; upper bounds "
                "for a sufficient packet size computed from the documented format.",
                gen=TREES + " Packet sizes from 1000 bytes below to a few hundred above what is needed; file metadata of millions of chunks.",
                bounds="40 chunks (300 thorough).", cost="about 30 s"),
    "C03": dict(oracle="The reference encoder `core_model`, written from RFC 8609; equality of parsed and original objects; field values.",
                gen="Specifications of every TLV class, content object, validation section, packet and header; values at and beyond the "
                "limits of the fields.", bounds="Packets up to 65535 bytes; all integers of few bytes are enumerated by length.", cost="about 20 s"),
    "C04": dict(oracle="The reference encoder `flic_model`, written from the draft and the README.",
                gen="Specifications of every class in `flic/tlvs`, of security contexts and of whole manifests, in any form the constructors take.",
                bounds="Objects that fit a packet.", cost="about 20 s"),
    "C05": dict(oracle="A strict reference reading of the bytes for what is accepted; the list of clean rejections; idempotence of encode and "
                "parse; a CPU limit; unchanged input.",
                gen="Valid encodings of all kinds with 0 to 4 mutations that know the TLV structure (and fix up lengths, or not), trees of "
                "TLVs of the format's type numbers, arbitrary bytes; and coverage-guided search (atheris, with the code under test "
                "instrumented, from valid encodings): about 0.5 million executions in the quick tier, more than 20 million in the thorough one.",
                bounds="Inputs up to 64 kB, nesting up to thousands; 1.5 kB in the coverage-guided search.", cost="about 35 s"),
    "C06": dict(oracle="The encodings of the reference: equal exactly when these are equal; snapshots of everything observable before and "
                "after sequences of reading operations.",
                gen="Pairs of specifications (equal, one field changed, independent) of all kinds; sequences of operations, interleaved iterators.",
                bounds="Sequences of about 10 operations.", cost="about 30 s"),
    "C07": dict(oracle="`hashlib` on the independent encoding.", gen="Packets, mutations, sets of packets in a store, trees.",
                bounds="Trees up to 40 chunks.", cost="about 20 s"),
    "C08": dict(oracle="`cryptography` and a table-driven CRC-32C on the encoding: the validator accepts exactly when the reference does.",
                gen="Packets, signers with all options, mutations of signed packets (structure-aware, including swaps of the validation "
                "sections of two packets), sets of keys, messages in any number of buffers.",
                bounds="RSA keys of 1024 to 2048 bits.", cost="about 15 s"),
    "C09": dict(oracle="AES-GCM and AES-CCM of `cryptography`, with nonce, salt, associated data and derived key built from the documentation.",
                gen="Nodes, keys, salts, key numbers, KDF settings; readers that differ in one of them; one changed bit or part in each field.",
                bounds="Up to 100000 encryptions per encryptor for nonces.", cost="about 60 s"),
    "C10": dict(oracle="RSA-OAEP of `cryptography` with the documented label and layout; the C09 reference for what it opens.",
                gen="Keys, labels, readers with any subset of keys, orders of arrival, changes to each field.", bounds="RSA 1024 to 2048 bits.", cost="about 30 s"),
    "C11": dict(oracle="A ten-line HKDF on `hmac`, itself checked with the vectors of RFC 5869.", gen="Keys, infos, salts, lengths up to and beyond 255 blocks.",
                bounds="255 blocks of output (the definition's own limit).", cost="about 10 s"),
    "C12": dict(oracle="`cryptography` used directly: DER, key ids, signatures, OAEP.", gen="Chains of conversions, passwords, messages in buffers, damage.",
                bounds="A fixed set of keys of 1024 to 2048 bits, and a few generated.", cost="about 40 s"),
    "C13": dict(oracle="Three dictionaries.", gen="Histories of additions and lookups with colliding identifiers.", bounds="Up to 30 operations.", cost="about 10 s"),
    "C14": dict(oracle="Structural invariants of the tree the independent reader finds; the height full manifests need.",
                gen=TREES, bounds="60 chunks (400 thorough); more with file metadata.", cost="about 45 s"),
    "C15": dict(oracle="Bytes of data counted by the independent reader under every manifest and group.", gen=TREES + " All eight combinations of size options.",
                bounds="60 chunks (400 thorough).", cost="about 25 s"),
    "C16": dict(oracle="Simulation of full trees in exact integer arithmetic, brute force over all divisions of the pointers.",
                gen="All small pairs; random pairs up to 2^50 chunks, with those that fill a tree exactly and off by one; requests for ids; builds.",
                bounds="All pairs up to a bound are enumerated.", cost="about 25 s"),
    "C17": dict(oracle="Two lists.", gen="Sequences of append, prepend, sizes, makes, with limits small enough to be reached.", bounds="About 30 operations.", cost="about 25 s"),
    "C18": dict(oracle="Names counted by the independent reader.", gen=TREES + " Segmented only; some with over 256 chunks or manifests; file metadata for more.",
                bounds="80 chunks, some 400 (700 thorough).", cost="about 30 s"),
    "C19": dict(oracle="Definitions and names read by the independent reader.", gen=TREES + " Hashed and prefix only.", bounds="60 chunks.", cost="about 20 s"),
    "C20": dict(oracle="Expiry fields read by the independent reader.", gen=TREES + " Three independent times.", bounds="60 chunks.", cost="about 20 s"),
    "C21": dict(oracle="A reference traversal, which says which packets are asked for under which names, and what the data is.",
                gen="Trees of manifests encoded by the reference: any groups, scopes, redefinitions, padding, repeated pointers, mixed keys.",
                bounds="Tens of packets; extremes with thousands of groups or levels are enumerated.", cost="about 60 s"),
    "C22": dict(oracle="The true data: an error, and a prefix of it written; or all of it.", gen=TREES + " One or two faults: loss, bit errors, truncation, substitution, "
                "exchange; stores in memory, of a careless kind, and on disk; readers with other keys.", bounds="30 chunks.", cost="about 90 s"),
    "C23": dict(oracle="A model of the directory's files and links.", gen="Histories of writes, reads, reopened writers and damages.", bounds="About 15 operations.", cost="about 40 s"),
    "C24": dict(oracle="The concatenation of the encodings.", gen="Sequences of packets up to 65535 bytes, receivers with any pace and buffer.",
                bounds="Loopback TCP; a fault of the connection is not injected.", cost="about 40 s"),
    "C25": dict(oracle="Lists of components.", gen="URIs, programs of appends, numbers up to 2^64.", bounds="URIs without escapes (none are decoded).", cost="about 10 s"),
    "C26": dict(oracle="The input file, and the independent reader of the output directory for each option.", gen="Random command lines for the three programs, "
                "key files with and without passwords, one thing that goes wrong.", bounds="Files up to tens of chunks; standard output for text only (other bytes are left out of it by design).", cost="about 130 s"),
    "C27": dict(oracle="Nodes and edges of the independent reader.", gen=TREES + " Histories of additions, pauses and saves.", bounds="Trees up to 40 chunks.", cost="about 25 s"),
    "C28": dict(oracle="What the keys known so far allow, decided by a model, and the node by `cryptography`.",
                gen="Histories of manifests under several keys, modes, wrapped keys, good and damaged, and of keys learned.",
                bounds="About 12 events.", cost="about 45 s"),
    "C29": dict(oracle="The reference encoder, byte for byte.", gen="Options and several requests to one factory, from pointers, groups, nodes.", bounds="Manifests in one packet.",
                cost="about 30 s"),
    "C30": dict(oracle="The independent reader of the wire format, and the data, names and counts each operation must give alone.",
                gen="Two to four builds and traversals with own or shared options, keys, keystore, signer and store, and a schedule of turns. Each operation runs "
                    "in a thread that stops at every read of its source, write of its sink and read of a store; a scheduler says which goes on.",
                bounds="Up to four operations; they change at reads and writes only (ccnpy makes no promise for truly parallel threads on one object).",
                cost="about 20 s"),
    "C31": dict(oracle="The same operation without faults; the independent reader of the wire format; a set model of the directory.",
                gen="Sequences of builds (fault at a read, before or after a write, between the stages, a packet size too small, files then cut short) and of "
                    "traversals (fault of the store or the sink, a missing packet, no packet, no key), that share options, keystore, graph, store or the Traversal.",
                bounds="Up to 4 builds or 6 traversals; faults are exceptions and cut files, not the death of the process.",
                cost="about 45 s"),
}
