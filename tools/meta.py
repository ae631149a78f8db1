#!/usr/bin/env python3
"""
The one source of the text of the properties: writes properties.jsonl and MANIFEST.json.
A property is written once its module harness/props/<id>.py exists.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe))


prop("C01", "A published manifest tree gives back exactly the bytes that were put in",
     "Data published as a manifest tree, with any naming schema, packet size, tree degree, encryption, signature, expiry times and "
     "size annotations, is given back byte for byte by a reader who has the root's name, its hash and the keys, from memory or from "
     "a packet directory. What is returned does not depend on how the input stream delivers its bytes, on the order in which packets "
     "are stored, on which other trees share the store, or on the depth of the tree. Every packet the reader needs was written, and an "
     "independent reader of the wire format gets the same bytes.",
     ["inputs", "configurations", "histories"],
     "All non-empty inputs; all combinations of options a writer accepts; several trees in one store in any order; trees up to "
     "thousands of levels deep.",
     "The tests build a few fixed trees with fixed sizes; the loss or duplication of a chunk depends on the arithmetic between number of "
     "chunks, degree, packet size and overhead, which is only sampled.",
     ["ccnpy/flic/ManifestTree.py", "ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/tree/Traversal.py", "ccnpy/flic/tree/TreeIO.py",
      "ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/name_constructor"],
     [("bottom-up construction of the tree from the last chunk to the first", "ccnpy/flic/tree/TreeBuilder.py:build, _leaf_manifest, _node_manifest"),
      ("pre-order traversal that fetches every pointer", "ccnpy/flic/tree/Traversal.py:preorder"),
      ("cutting the input into chunks", "ccnpy/flic/name_constructor/*SchemaImpl.py:chunk_data")],
     "property-based testing: random writer configurations, differential against an independent reader",
     "Random search over trees up to a few hundred chunks (and deep chains), round trip plus a reader that shares no code with ccnpy.")

prop("C02", "Packets fit in the configured packet size and manifests in the tree degree",
     "No packet below the root of a manifest tree is larger than the configured maximum packet size, whatever names, locators, expiry "
     "times, size annotations and encryption it carries, and no manifest holds more pointers than the configured tree degree. When a "
     "packet size is too small to build a tree, the writer says so with an error and does not write an oversized or broken tree.",
     ["inputs", "configurations"],
     "All configurations and data sizes, with packet sizes around the exact overhead of the packets.",
     "The overhead of a packet depends on every option at once; the tests use a few generous packet sizes.",
     ["ccnpy/flic/tree/TreeParameters.py", "ccnpy/flic/tree/TreeOptimizer.py", "ccnpy/flic/tree/TreeBuilder.py",
      "ccnpy/flic/ManifestFactory.py", "ccnpy/flic/name_constructor"],
     [("room left in a manifest after its overhead", "ccnpy/flic/tree/TreeParameters.py:create_optimized_tree"),
      ("room left in a data packet after its overhead", "ccnpy/flic/name_constructor/SchemaImpl.py:_calculate_data_payload_size")],
     "property-based testing: size invariant over random tight configurations",
     "Random search with packet sizes within a few bytes of the limits; the root manifest is outside the limit (it only warns).")

prop("C03", "Packets have the documented wire format and survive a round trip",
     "Every content object packet that is made encodes to the bytes of the RFC 8609 packet format (fixed header, body, validation "
     "algorithm and payload), and parsing the encoding gives an object equal to the original which encodes to the same bytes. Fields "
     "read back have the values they were given, and values that do not fit are refused, never truncated.",
     ["inputs"], "All content objects (any subset of fields, any values), all validation algorithms and fixed headers.",
     "The tests encode one or two objects of each kind with short fields.",
     ["ccnpy/core"],
     [("TLV encoding and parsing", "ccnpy/core/Tlv.py"), ("packet framing", "ccnpy/core/Packet.py, ccnpy/core/FixedHeader.py"),
      ("content object fields", "ccnpy/core/ContentObject.py")],
     "property-based testing: differential against a reference encoder, round trip",
     "Random search against a reference encoder written from RFC 8609.")

prop("C04", "Manifest objects have the documented wire format and survive a round trip",
     "Every object of a FLIC manifest (node, hash groups, pointers, name constructor definitions, locators, security contexts, "
     "encrypted nodes) encodes to the documented bytes, and parsing the encoding gives an equal object which encodes to the same bytes. "
     "Fields read back have the values they were given.",
     ["inputs"], "All manifest objects with any combination of optional fields.",
     "The tests encode one or two objects of each kind.",
     ["ccnpy/flic/tlvs", "ccnpy/flic/aeadctx", "ccnpy/flic/RsaOaepCtx"],
     [("TLV classes of a manifest", "ccnpy/flic/tlvs/*.py"), ("security contexts", "ccnpy/flic/aeadctx/AeadCtx.py, ccnpy/flic/RsaOaepCtx/RsaOaepCtx.py, WrappedKey.py")],
     "property-based testing: differential against a reference encoder, round trip",
     "Random search against a reference encoder written from the FLIC draft and the repository's documentation.")

prop("C05", "Malformed packets are rejected cleanly",
     "Parsing any byte string ends promptly, either with an object or with one of the documented parse errors, and leaves no damage "
     "behind: it does not hang, recurse without bound or fail with an unrelated error. Whatever is accepted can be printed and encodes again, and the new "
     "encoding parses to an equal object.",
     ["inputs"], "All byte strings, in particular truncations and corruptions of valid packets and manifests.",
     "The tests parse valid packets only.",
     ["ccnpy/core", "ccnpy/flic/tlvs", "ccnpy/flic/aeadctx", "ccnpy/flic/RsaOaepCtx", "ccnpy/exceptions"],
     [("bounds checks of TLV parsing", "ccnpy/core/Tlv.py:deserialize"), ("type checks in every parser", "parse() of every TLV class")],
     "fuzzing: random, structure-aware and coverage-guided mutation of valid encodings, idempotence of parse and encode",
     "Random byte strings and mutated encodings; errors allowed: ParseError, CannotParseError, ValueError, TypeError and their kin as documented in DESIGN.md.")

prop("C06", "Protocol objects behave as values",
     "Two protocol objects of one type are equal exactly when they encode to the same bytes, objects of different types with different "
     "encodings are never equal, equal objects have equal hashes where they have hashes, and comparing never fails. Reading an object "
     "(encoding, printing, iterating, measuring, comparing, hashing, embedding it in another) any number of times, in any order, also "
     "interleaved, never changes it or what it gives.",
     ["inputs", "histories"], "All pairs and triples of protocol objects, all sequences of read operations on them.",
     "The tests compare a few pairs once.",
     ["ccnpy/core", "ccnpy/flic/tlvs"],
     [("equality and hashing", "__eq__ and __hash__ of the TLV classes"), ("iterators", "ccnpy/core/Tlv.py, ccnpy/core/Link.py, ccnpy/flic/tlvs/Pointers.py")],
     "property-based testing: algebraic laws over generated pairs, operation sequences on one object",
     "Random search; near-equal pairs are made by changing one field.")

prop("C07", "Content object hashes identify packets",
     "The content object hash of a packet, made or parsed, is the SHA-256 of everything after its headers; changing any byte of the "
     "message changes it and changing the fixed header does not. Every pointer in a manifest tree is the hash of a packet that was "
     "written, and a store asked for a hash returns the packet with that hash.",
     ["inputs", "histories"], "All packets, damaged packets, sequences of stores into memory or a directory, and trees.",
     "The tests hash a few packets.",
     ["ccnpy/core/Packet.py", "ccnpy/flic/tree/TreeIO.py", "ccnpy/flic/name_constructor/FileMetadata.py"],
     [("hash of the message", "ccnpy/core/Packet.py:content_object_hash"), ("stores indexed by hash", "ccnpy/flic/tree/TreeIO.py")],
     "property-based testing: differential against hashlib over an independent encoding",
     "Random search; SHA-256 collisions are assumed not to occur.")

prop("C08", "Packet validation accepts exactly what was signed",
     "A packet signed by the library (CRC32C or RSA-SHA256, with any embedded key, key link and signature time) validates with the right "
     "key, and its signature is one that an independent implementation accepts. Any change to the signed part, the algorithm or the "
     "signature makes validation fail, and so does a different key; a missing key is reported as such. Signatures do not depend on how the "
     "message is split over buffers.",
     ["inputs", "fault_sequences"], "All packets, signers, corruptions of the encoding and sets of keys held by the reader.",
     "The tests validate one good packet and at most one bad one of each kind.",
     ["ccnpy/core/PacketValidator.py", "ccnpy/crypto/Crc32c.py", "ccnpy/crypto/RsaSha256.py", "ccnpy/core/ValidationAlg.py"],
     [("choice of verifier and its input", "ccnpy/core/PacketValidator.py:validate_packet"), ("signers and verifiers", "ccnpy/crypto/Crc32c.py, ccnpy/crypto/RsaSha256.py")],
     "property-based testing: corruption of signed packets, differential against the cryptography library",
     "Random search; the verdict of the validator is compared with that of a reference verifier on the same encoding.")

prop("C09", "Encrypted manifests decrypt to what was encrypted, and to nothing else",
     "A manifest node encrypted with AES-GCM or AES-CCM under any key, key number, salt and key derivation decrypts to the same node with "
     "the same parameters, also by an independent implementation of the documented scheme. Any change to the ciphertext, authentication "
     "tag, nonce or security context, or a different key, salt or derivation, is refused; no two encryptions use the same nonce.",
     ["inputs", "configurations", "fault_sequences"], "All nodes, keys, modes, salts, KDF settings and corruptions.",
     "The tests encrypt one node per mode with fixed keys and corrupt nothing.",
     ["ccnpy/flic/aeadctx", "ccnpy/crypto/AeadKey.py", "ccnpy/crypto/KDF.py"],
     [("nonce, salt and associated data", "ccnpy/flic/aeadctx/AeadImpl.py"), ("AEAD ciphers", "ccnpy/crypto/AeadKey.py")],
     "property-based testing: round trip, differential against the cryptography library, corruption",
     "Random search; the reference decryption is built from the documentation on the cryptography library's AEAD.")

prop("C10", "Wrapped manifest keys open with the right private key only",
     "A manifest encrypted with a key wrapped by RSA-OAEP decrypts for a reader who has the private key, or the content key, and for no one "
     "else; the wrapped key opens, with the documented label and layout, in an independent implementation. A change to the wrapped key, or "
     "to any field it is bound to, is refused. After a wrapped key was opened, manifests that leave it out decrypt too.",
     ["inputs", "configurations", "histories", "fault_sequences"], "All keys, RSA sizes, salts, key numbers, KDF settings, corruptions and orders of arrival.",
     "The tests wrap one key.",
     ["ccnpy/flic/RsaOaepCtx", "ccnpy/crypto/RsaKey.py"],
     [("label and layout of the wrapped key", "ccnpy/flic/RsaOaepCtx/WrappedKey.py"), ("unwrapping and key caching", "ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py, RsaOaepDecryptor.py")],
     "property-based testing: round trip, differential against the cryptography library, corruption",
     "Random search with a fixed set of RSA keys of 1024 to 2048 bits.")

prop("C11", "Derived keys are those of HKDF",
     "For each supported hash function, key derivation gives the HKDF (RFC 5869) output for the input key, salt, info and length, for all "
     "of them and in every call, and refuses unknown functions. Derived keys are what the manifests are encrypted with.",
     ["inputs"], "All input keys, salts, infos and lengths.",
     "The tests have no vector for most combinations.",
     ["ccnpy/crypto/KDF.py", "ccnpy/crypto/HpkeKdfIdentifiers.py", "ccnpy/flic/aeadctx/AeadImpl.py"],
     [("HKDF", "ccnpy/crypto/KDF.py:derive"), ("what goes in as info and salt", "ccnpy/flic/aeadctx/AeadImpl.py")],
     "property-based testing: differential against a reference HKDF built on hmac",
     "Random search against a 10-line HKDF, itself checked with the RFC 5869 vectors.")

prop("C12", "RSA keys keep their identity and their meaning in every form",
     "A key loaded from PEM, from its DER public key, or saved (with or without a password) and loaded again is the same key: same key id, "
     "same signatures accepted, same decryptions. The key id is the SHA-256 of the DER public key; a public key never signs or decrypts; a "
     "wrong password, a foreign signature, a wrong label or a damaged ciphertext is refused.",
     ["inputs", "histories"], "All keys, chains of conversions, passwords, messages, labels and corruptions.",
     "The tests use one key and one conversion each.",
     ["ccnpy/crypto/RsaKey.py"],
     [("PEM and DER conversion", "ccnpy/crypto/RsaKey.py"), ("signatures and OAEP", "ccnpy/crypto/RsaKey.py")],
     "property-based testing: conversion chains, differential against the cryptography library",
     "Random search with a fixed set of RSA keys; two keys are generated per run at the thorough tier.")

prop("C13", "A keystore returns the key that was stored under an identifier",
     "After any sequence of additions, looking up a key by key number, name or key id gives the key last added under it, and an unknown "
     "identifier gives the documented error; additions under one identifier never change what others give.",
     ["histories"], "All sequences of additions and lookups.",
     "The tests add one key.",
     ["ccnpy/crypto/InsecureKeystore.py"],
     [("indexes by number, name and key id", "ccnpy/crypto/InsecureKeystore.py")],
     "model-based testing: operation sequences against a dictionary",
     "Random histories against a dictionary model.",
     state=[("keys by number, by name, by key id", "the indexes of the keystore", "ccnpy/crypto/InsecureKeystore.py")])

prop("C14", "The tree keeps the data in order and fills its manifests",
     "In the tree of a file the root points to one top manifest, data packets are reached from first to last, all full but the last, in a "
     "manifest data comes before manifests, and each packet written is reached exactly once and was written before what points to it. Every "
     "manifest off the left edge of the tree is full, and the tree is no deeper than full manifests require.",
     ["inputs", "configurations"], "All sizes of data, degrees, packet sizes and schemas.",
     "The tests compare a handful of trees.",
     ["ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/ManifestTree.py"],
     [("distribution of chunks over manifests", "ccnpy/flic/tree/TreeBuilder.py"), ("direct and indirect pointers of a manifest", "ccnpy/flic/HashGroupBuilder.py")],
     "property-based testing: structural invariants of the tree read back by an independent reader",
     "Random search over trees up to hundreds of chunks.")

prop("C15", "Size annotations are true",
     "When a manifest says how many bytes of data lie below it, below one of its groups, or in each of a group's leaves, that is the number "
     "of application bytes a traversal finds there, in every manifest at every height, and the annotation is there exactly when it was asked for.",
     ["inputs", "configurations"], "All trees with any combination of size options.",
     "The tests check a few manifests of a few trees.",
     ["ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/ManifestFactory.py"],
     [("sizes added up while building", "ccnpy/flic/tree/TreeBuilder.py, ccnpy/flic/HashGroupBuilder.py")],
     "property-based testing: annotations compared with the bytes an independent traversal counts",
     "Random search over trees up to hundreds of chunks.")

prop("C16", "The tree plan is arithmetically right and its choice is optimal",
     "For every number of chunks and pointers per manifest, the planned tree has room for all chunks in its direct and indirect pointers, its "
     "height is exactly what that many manifests need, and its waste is the difference. Among the divisions of pointers it considers, the "
     "chosen one is the best by the stated criterion.",
     ["inputs"], "All pairs of number of chunks and pointers per manifest (exhaustive up to a bound, random beyond).",
     "The tests look at a few pairs.",
     ["ccnpy/flic/tree/TreeOptimizer.py", "ccnpy/flic/tree/OptimizerResult.py", "ccnpy/flic/tree/TreeParameters.py"],
     [("formulas and search", "ccnpy/flic/tree/TreeOptimizer.py"), ("height of a tree", "ccnpy/flic/tree/OptimizerResult.py")],
     "property-based testing: exhaustive small pairs and random big ones, differential against brute force",
     "Brute force by simulation of the tree, all pairs up to a bound, random big ones with exact integer arithmetic.")

prop("C17", "Hash groups keep every pointer in order within their limits",
     "After any sequence of appended and prepended pointers, a hash group under construction holds exactly those pointers in that order, with "
     "counts, sizes and fullness that match, and refuses a pointer beyond its limits. When data and manifests have different name constructors, pointers to data "
     "go in a first group and pointers to manifests in a second, each with its own id, start number and sizes. A hash group already made does not change afterwards.",
     ["histories"], "All sequences of operations and limits.",
     "The tests do one sequence.",
     ["ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/tlvs/HashGroup.py", "ccnpy/flic/tlvs/GroupData.py"],
     [("pointer lists and sizes", "ccnpy/flic/HashGroupBuilder.py")],
     "model-based testing: operation sequences against two lists",
     "Random histories against a list model.")

prop("C18", "Segmented names count the packets of a tree without gaps",
     "With the segmented schema, data packets are named with the data prefix and chunk numbers 0, 1, 2 in the order of the data, the last one "
     "alone carrying the final chunk number, and manifests with the manifest prefix and a number of their own, 0 for the top one. No two packets share a "
     "name, and the start number in each group gives exactly the names of the packets it points to; one prefix for both is refused.",
     ["inputs", "configurations"], "All trees with the segmented schema and any prefixes.",
     "The tests check a few names.",
     ["ccnpy/flic/name_constructor/SegmentedSchemaImpl.py", "ccnpy/flic/ManifestIdFactory.py", "ccnpy/flic/tree/TreeBuilder.py"],
     [("chunk and manifest numbers", "ccnpy/flic/name_constructor/SegmentedSchemaImpl.py"), ("manifest numbers by height", "ccnpy/flic/ManifestIdFactory.py")],
     "property-based testing: names compared with those an independent reader constructs",
     "Random search over trees up to hundreds of chunks.")

prop("C19", "Hashed and prefix schemas name packets as the root manifest says",
     "With the hashed schema packets below the root carry no name and the root lists the locators it was given; with the prefix schema every data packet "
     "and manifest below the root carries exactly its prefix. Name constructors are defined in the root only, with distinct ids, one for both data and "
     "manifests if they agree and else one for each, and every group refers to the one for what it points to.",
     ["inputs", "configurations"], "All trees with these schemas, any prefixes and locators.",
     "The tests check a few names.",
     ["ccnpy/flic/name_constructor"],
     [("name constructor definitions and names", "ccnpy/flic/name_constructor/HashedSchemaImpl.py, PrefixSchemaImpl.py, SchemaImplFactory.py")],
     "property-based testing: names and definitions read back by an independent reader",
     "Random search over trees.")

prop("C20", "Expiry times are on the packets they were asked for",
     "A root, manifest or data expiry time given to the writer is, to the millisecond, on the root, on every other manifest or on every data "
     "packet, and packets for which none was given have none. The root is signed if and only if a signer was given, and nothing else is.",
     ["inputs", "configurations"], "All combinations and values of expiry times, all schemas and encryptions.",
     "The tests set one time.",
     ["ccnpy/flic/ManifestTreeOptions.py", "ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/ManifestTree.py", "ccnpy/flic/name_constructor"],
     [("expiry times put on packets", "ccnpy/flic/ManifestTree.py, ccnpy/flic/tree/TreeBuilder.py, ccnpy/flic/name_constructor/*SchemaImpl.py")],
     "property-based testing: expiry times read back by an independent reader",
     "Random search over trees.")

prop("C21", "A reader follows any well formed manifest tree, not only those of the writer",
     "Data reachable through any well formed tree of manifests, with several groups per manifest, name constructors defined and redefined at any "
     "level, padding, mixed data and manifest pointers, repeated pointers and mixed encryption, is returned in pre-order, and each packet is asked "
     "for by its hash and by the name its name constructor gives.",
     ["inputs", "configurations"], "All trees of manifests and data packets built by hand.",
     "The tests traverse trees of the writer only.",
     ["ccnpy/flic/tree/Traversal.py", "ccnpy/flic/name_constructor", "ccnpy/flic/ManifestDecryptor.py"],
     [("scopes of name constructors", "ccnpy/flic/tree/Traversal.py:NameConstructorCache"), ("names of pointers", "ccnpy/flic/name_constructor/*SchemaImpl.py:get_name")],
     "property-based testing: generated manifest trees, differential against a reference traversal",
     "Random trees encoded by the reference encoder; the requests and the data are compared with a reference traversal.")

prop("C22", "A missing or wrong packet is never passed over in silence",
     "When a packet of a tree is missing, corrupted, or replaced by another packet, a traversal that needs it raises an error; the data written "
     "until then is a prefix of the true data. A traversal that ends without an error has written all the data.",
     ["fault_sequences", "inputs"], "All trees, packets and kinds of damage: loss, substitution, bit errors, truncation, exchange of two packets, in memory or on disk.",
     "The tests remove or damage nothing.",
     ["ccnpy/flic/tree/Traversal.py", "ccnpy/flic/tree/TreeIO.py", "ccnpy/core/PacketValidator.py"],
     [("check of the hash of a fetched packet", "ccnpy/flic/tree/Traversal.py, ccnpy/flic/tree/TreeIO.py"), ("validation of the root", "ccnpy/core/PacketValidator.py")],
     "fault injection with generated faults; prefix oracle",
     "Random faults on random trees.")

prop("C23", "A packet directory holds exactly what was put in it",
     "After any sequence of writes, a packet directory has one file per distinct packet, holding its encoding under the name of its hash, and a "
     "link for each named packet when links are on; reading by hash or by link gives the packet back and refuses files that do not match. The writer's counters are true.",
     ["histories", "fault_sequences"], "All sequences of writes of signed and unsigned, named and nameless packets, with and without links, and damaged files.",
     "The tests write one packet.",
     ["ccnpy/flic/tree/TreeIO.py"],
     [("file names, links and counters", "ccnpy/flic/tree/TreeIO.py:PacketDirectoryWriter"), ("lookup", "ccnpy/flic/tree/TreeIO.py:PacketDirectoryReader")],
     "model-based testing: histories of writes and reads in a scratch directory against a model of its files",
     "Random histories in scratch directories.")

prop("C24", "The network writer sends each packet whole, in order",
     "A receiver of the network writer's connection gets the encodings of the packets put, complete and in order, and nothing else, whatever their size.",
     ["histories"], "All sequences of packets, over a loopback connection whose reader reads in pieces of any size.",
     "No test uses the network writer.",
     ["ccnpy/flic/tree/TreeIO.py"],
     [("sending", "ccnpy/flic/tree/TreeIO.py:PacketNetworkWriter")],
     "property-based testing over a loopback connection",
     "Random sequences over loopback TCP.")

prop("C25", "Names parse, print and compose consistently",
     "A URI becomes a name with one segment per path element, in order, and a name built from components or from its encoding has exactly these "
     "components, in number, kind and value, and chunk and manifest numbers are printed as what they are, in full. Appending a component, chunk number or manifest number gives a new name and leaves all others alone; names are equal "
     "exactly when their components are, so different numbers give different names.",
     ["inputs", "histories"], "All names, URIs and sequences of operations.",
     "The tests use a few URIs.",
     ["ccnpy/core/Name.py"],
     [("URI parsing and printing", "ccnpy/core/Name.py"), ("composition", "ccnpy/core/Name.py:append and its kin")],
     "property-based testing: model of a name as a list of components",
     "Random search against a list model.")

prop("C26", "What the command line writer publishes, the command line reader gives back",
     "For every combination of command line options the manifest writer accepts, it writes a tree to the output directory that has what the options "
     "ask for (the tree that TreeOptions would give), prints the root's hash, and the manifest reader, given these and the keys, writes a file identical to the input; without an output "
     "file, the text of a text file comes out on standard output, whole. Wrong keys, "
     "hashes or missing packets make the reader fail and not report success.",
     ["inputs", "configurations"], "All accepted option combinations, files and keys.",
     "No test runs the programs end to end.",
     ["ccnpy/apps/manifest_writer.py", "ccnpy/apps/manifest_reader.py", "ccnpy/apps/cli_utils.py", "ccnpy/apps/packet_reader.py", "ccnpy/apps/packet_utils.py"],
     [("options to tree options", "ccnpy/apps/manifest_writer.py"), ("options to a traversal", "ccnpy/apps/manifest_reader.py")],
     "property-based testing: random command lines, end to end in a scratch directory",
     "Random command lines run in-process in scratch directories.")

prop("C27", "The manifest graph shows the tree",
     "A graph collected while a tree is written or read has one node per packet and one edge from each manifest to each packet it points to, and saving it gives a file that says the same; "
     "collecting it does not change the packets or the data.",
     ["inputs", "configurations"], "All trees, writers and readers.",
     "The tests save one graph and look at nothing.",
     ["ccnpy/flic/tree/ManifestGraph.py", "ccnpy/flic/tree/Traversal.py", "ccnpy/flic/ManifestTree.py"],
     [("nodes and edges", "ccnpy/flic/tree/ManifestGraph.py")],
     "property-based testing: graph compared with the tree an independent reader finds",
     "Random search over trees.")

prop("C28", "Decryption does not depend on what was decrypted before",
     "A reader that meets manifests under many keys, modes and wrapped keys, in any order and any number of times, decrypts each to the node it "
     "was made from, exactly when the key is in its keystore or was unwrapped before, as if it were the first.",
     ["histories"], "All interleavings of manifests under several keys and contexts.",
     "The tests decrypt one manifest per context.",
     ["ccnpy/flic/ManifestDecryptor.py", "ccnpy/flic/tree/Traversal.py", "ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py", "ccnpy/flic/aeadctx/AeadDecryptor.py"],
     [("caches of decryptors", "DecryptorCache, RsaOaepDecryptor")],
     "model-based testing: histories of decryptions against stateless decryption",
     "Random histories against a model of the keys known.",
     state=[("cached decryptors", "the last decryptor used and the keys unwrapped", "DecryptorCache, RsaOaepDecryptor")])

prop("C29", "A manifest factory builds the manifest it is asked for",
     "A manifest made from pointers, hash groups or a node holds exactly these with the annotations given, encrypted when the options have an encryptor, and in a "
     "packet with the name, expiry time and signature asked for. What is not asked for is not there, and inconsistent requests are refused.",
     ["inputs", "configurations"], "All sources, annotations, encryptors and signers.",
     "The tests build a few manifests with one option each.",
     ["ccnpy/flic/ManifestFactory.py", "ccnpy/flic/tlvs/Manifest.py", "ccnpy/flic/tlvs/Node.py"],
     [("composition of a node, a manifest and a packet", "ccnpy/flic/ManifestFactory.py")],
     "property-based testing: differential against a reference encoder",
     "Random search against a reference encoder.")

prop("C30", "Trees built and read at the same time do not influence each other",
     "Builds and traversals that overlap in one process, in any interleaving of their reads and writes, each give what they give alone: the same data, names, "
     "shape and counts. This holds whether they have options, keys, a keystore, a signer or a store of their own or share them. The number sequences and "
     "state of one tree are never seen in another.",
     ["histories", "schedules", "configurations"], "All sets of two or more overlapping builds and traversals, all interleavings at their reads and writes.",
     "The tests build or read one tree at a time; state that leaks between trees that overlap is not seen.",
     ["ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/tree/ManifestIdFactory.py", "ccnpy/flic/name_constructor/SchemaImplFactory.py",
      "ccnpy/flic/name_constructor/SchemaImpl.py", "ccnpy/flic/tree/Traversal.py", "ccnpy/flic/tree/DecryptorCache.py"],
     [("number sequences of the names of one tree", "ccnpy/flic/name_constructor/SchemaImpl.py"),
      ("cache of name constructors of a traversal", "ccnpy/flic/tree/Traversal.py"),
      ("state of a build", "ccnpy/flic/tree/TreeBuilder.py")],
     "property-based testing: generated schedules of builds and traversals, against each run alone",
     "Random search over operations and the schedule of their turns; turns change at reads and writes only.")

prop("C31", "A failed build or traversal leaves nothing behind that changes the next",
     "When the input, the output or the store of a build or traversal fails at any step, a packet is missing or a packet size is too small, it raises, and does "
     "not report success; the packets written until then are whole, and each manifest among them comes after all it points to. The next build or traversal "
     "with the same options, encryptor, signer, keystore, graph, store, directory or Traversal gives what it gives without the failure, also "
     "when the directory has files that were written in part.",
     ["fault_sequences", "crash_points", "histories"], "All faults at all reads, writes and fetches; all sequences of failing and succeeding builds and traversals.",
     "The tests have next to no faults, and nothing is done after them.",
     ["ccnpy/flic/ManifestTree.py", "ccnpy/flic/tree/TreeBuilder.py", "ccnpy/flic/tree/Traversal.py", "ccnpy/flic/tree/TreeIO.py", "ccnpy/flic/tree/DecryptorCache.py"],
     [("order of writes in a build", "ccnpy/flic/tree/TreeBuilder.py"), ("state of a traversal", "ccnpy/flic/tree/Traversal.py"),
      ("files of a packet directory", "ccnpy/flic/tree/TreeIO.py")],
     "property-based testing with fault injection: generated sequences of faults, against each operation without them",
     "Random search over faults, the step they happen at, and what follows.")

NOT_APPLICABLE = []

NOTES = ("Every check is property-based testing (Hypothesis) over plain-data cases, run in up to 8 forked shards, importing ccnpy from /repo's "
         "working tree (nothing is compiled). Failing cases are shrunk and saved under evidence/replay; run_check.sh <ID> --replay FILE runs one again. "
         "Exit 2 means the harness itself failed.")


def done(p):
    return os.path.exists(os.path.join(HERE, "harness", "props", p["id"].lower() + ".py"))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if not done(p):
                continue
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./run_check.sh %s" % p["id"],
                     "thorough_cmd": "./run_check.sh %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if done(p)],
         "not_applicable": NOT_APPLICABLE, "notes": NOTES}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
