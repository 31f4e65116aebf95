#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'protocol/bin-prot/src/'
TECH = 'abstract interpretation of the compiler\'s MIR (path classes, interval and byte value numbering)'
NOTE = ('Covers every path class of the entry points listed in the evidence for all input bytes, all failure points of the source or '
        'sink and all values; loops are summarised for any number of repetitions. Trusts rustc\'s lowering to MIR and the models of the '
        'standard library and dependencies; an obligation the domain cannot decide is counted as undetermined, never reported.')
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique=TECH, note=NOTE, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


p('C01', 'Signed integers: canonical encoding, exact inverse',
  'Every signed integer is written in the one canonical bin_prot form: a single byte for 0..127, otherwise the shortest of the 1, 2, 4 or 8 byte forms with its prefix byte and the two\'s complement value in little endian order. '
  'Reading such bytes into any integer type that can hold the value returns exactly that value. A value the target type cannot hold is an error, never a wrapped or truncated number.',
  ['inputs'], 'every integer of every width and every byte string presented to the integer readers',
  'the tests sample a few values around the width limits; the statement ranges over 2^64 values and all prefix and width combinations',
  [B + 'write_ext.rs', B + 'read_ext.rs', B + 'ser.rs', B + 'de.rs', B + 'consts.rs'],
  [('integer writer', B + 'write_ext.rs bin_write_integer'), ('integer reader', B + 'read_ext.rs bin_read_integer'), ('width dispatch', B + 'ser.rs serialize_i8..serialize_u64')])
p('C02', 'Natural numbers and lengths: canonical encoding, exact inverse',
  'Natural numbers, and the lengths of strings and sequences, are written in the canonical unsigned form (one byte below 128, otherwise the shortest of the 2, 4 or 8 byte forms after its prefix byte, little endian). '
  'Reading returns exactly the number written, and a number that does not fit the target type is an error.',
  ['inputs'], 'every natural number of every width, every string and sequence length',
  'the tests use short strings and sequences, so the multi byte length forms are sampled at a handful of points',
  [B + 'write_ext.rs', B + 'read_ext.rs', B + 'integers/nat0.rs', B + 'ser.rs', B + 'de.rs'],
  [('nat0 writer', B + 'write_ext.rs bin_write_nat0'), ('nat0 reader', B + 'read_ext.rs bin_read_nat0')])
p('C03', 'Input outside the grammar is rejected',
  'Decoding succeeds only for input that is in the bin_prot grammar of the requested type: prefix bytes, booleans, option flags, unit bytes, sum indices, polymorphic variant tags, numeric ranges and UTF-8 of strings. Everything else is reported as an error; no invalid input is mapped to some value.',
  ['inputs'], 'every byte string, for every type of the data model',
  'tests feed well formed input; the complement is most of the input space',
  [B + 'read_ext.rs', B + 'de.rs', B + 'consts.rs'],
  [('prefix dispatch', B + 'read_ext.rs bin_read_integer, bin_read_nat0'), ('flag bytes', B + 'read_ext.rs bin_read_bool, bin_read_unit'), ('variant lookup', B + 'de.rs Enum, PolyvarAccess')])
p('C04', 'Decoding never panics',
  'No byte string, truncated or failing source, and no layout can make decoding panic, whether into a static type or loosely typed with a layout. Every problem is returned as an error.',
  ['inputs', 'fault_sequences'], 'every byte string, every point at which the source ends or fails, every layout value',
  'panics hide behind inputs nobody thought of; tests cover valid encodings',
  [B + 'read_ext.rs', B + 'de.rs', B + 'loose_deserializer.rs', B + 'value/layout/traverse.rs', B + 'value/visitor.rs'],
  [('error returns', B + 'error.rs'), ('loose decoder', B + 'loose_deserializer.rs deserialize_any'), ('rule traversal', B + 'value/layout/traverse.rs next')])
p('C05', 'Memory used in decoding is bounded by the input received',
  'While decoding, memory is not reserved in proportion to a length announced by the input before that amount of input has actually been received. A short hostile message therefore cannot make the process run out of memory.',
  ['inputs'], 'every length that the input can announce, for strings, byte strings, sequences, maps and loosely typed lists',
  'a test with an announced length of 2^60 is not written, and smaller ones pass unnoticed',
  [B + 'read_ext.rs', B + 'de.rs', B + 'loose_deserializer.rs', B + 'value/layout/traverse.rs'],
  [('string bytes', B + 'read_ext.rs bin_read_bytes'), ('sequence access', B + 'de.rs SeqAccess'), ('list rules', B + 'value/layout/traverse.rs push_n')])
p('C06', 'Writes are complete and byte counts are right',
  'When a writer reports success the whole encoding has been handed to the sink, also when the sink accepts fewer bytes per call than offered. The byte count that the primitive writers return is the number of bytes they emitted.',
  ['inputs', 'fault_sequences'], 'every value and every sequence of short writes of the sink',
  'tests write into vectors, which never accept less than offered, and ignore the count',
  [B + 'write_ext.rs', B + 'ser.rs'],
  [('write_all in the primitive writers', B + 'write_ext.rs'), ('raw writes of the serializer', B + 'ser.rs Serializer::write')])
p('C07', 'Failures of the source or sink are reported and end the operation',
  'When a read from the source or a write to the sink fails (or the input ends early) inside an encoding or decoding operation, the operation fails with an error that carries this cause, and nothing more is read or written. No failure is reported as success, and no value is made up for missing input.',
  ['fault_sequences', 'inputs'], 'every read and write of every operation as the failing one',
  'tests use memory buffers that never fail',
  [B + 'read_ext.rs', B + 'write_ext.rs', B + 'ser.rs', B + 'de.rs', B + 'loose_deserializer.rs', B + 'error.rs'],
  [('error propagation', B + 'error.rs From<io::Error>'), ('readers and writers', B + 'read_ext.rs, write_ext.rs')])
p('C08', 'Strict decoding accepts exactly complete input',
  'Strict decoding succeeds only if the source holds no further byte after the value, however the source splits its data over reads. If the value is complete and the source is exhausted, it succeeds with that value.',
  ['inputs', 'fault_sequences'], 'every value, any number of trailing bytes, any chunking of the source',
  'tests decode from slices; the guarantee must hold for sources that return data in pieces',
  [B + 'de.rs'], [('from_reader_strict', B + 'de.rs')])
p('C09', 'Sum types go by declaration index, polymorphic variants by name hash',
  'A variant of a sum type is identified on the wire by one byte, its position in the declaration; a variant of a polymorphic variant type by the four byte tag derived from the OCaml hash of its name. Reading selects the variant with that position or hash, its payload included, and an index or tag that no variant of the type has is an error.',
  ['inputs'], 'every index and tag on the wire, every variant and payload kind',
  'tests cover a few enums in the forward direction; wrong tags and payload kinds are not sampled',
  [B + 'ser.rs', B + 'de.rs', B + 'polyvar/mod.rs', B + 'read_ext.rs', B + 'write_ext.rs'],
  [('variant writer', B + 'ser.rs write_variant_index'), ('sum access', B + 'de.rs Enum'), ('polymorphic variant access', B + 'polyvar/mod.rs')])
p('C10', 'Composite values: parts in order, read back as written',
  'Every shape of value (unit, boolean, character, float, string, option, tuple, array, sequence, record, newtype, nested types) is written as exactly the bin_prot encoding of its parts in declaration order with the flag or length of the format, and nothing else. Reading consumes exactly those bytes and rebuilds the same value, each part in its own place.',
  ['inputs', 'programs'], 'every shape of the data model with arbitrary part types and values',
  'tests roundtrip particular structs; an error that cancels out in a roundtrip, or a shape that no test type has, is not seen',
  [B + 'ser.rs', B + 'de.rs', B + 'read_ext.rs', B + 'write_ext.rs'],
  [('serializer', B + 'ser.rs'), ('deserializer', B + 'de.rs SeqAccess, MapAccess')],
  note=NOTE + ' Part types are opaque: what is shown for the arbitrary part holds for any part type.')
p('C11', 'Loose decoding follows the layout exactly',
  'Decoding with a layout reads, for every kind of rule, exactly the encoding that this rule describes, and returns the value with the names, indices and tags of the layout. Every rule is applied exactly once, in order, to the part of the input it describes, and input that the rule does not admit is an error.',
  ['inputs', 'configurations'], 'every layout (any nesting of rules) and every byte string',
  'the tests decode a few recorded blocks with one layout; other rules and nestings are not reached',
  [B + 'loose_deserializer.rs', B + 'value/layout/traverse.rs', B + 'value/visitor.rs', B + 'value/enum_data.rs', B + 'de.rs'],
  [('rule dispatch', B + 'loose_deserializer.rs deserialize_any'), ('rule stack', B + 'value/layout/traverse.rs BinProtRuleIterator'), ('value construction', B + 'value/visitor.rs ValueVisitor')],
  note=NOTE + ' Nested rules are taken by induction over the decoding depth (each level takes exactly the topmost pending rule).')
p('C12', 'A loosely typed value is written in the encoding it was read from',
  'For every loosely typed value the encoder writes what the loose decoder reads for a rule of that kind: names are dropped, indices, tags, flags, lengths and parts are kept in order. Decoding followed by encoding therefore reproduces the input bytes of any canonical encoding.',
  ['inputs'], 'every value that loose decoding can return, at any nesting',
  'the tests re-encode a few recorded messages',
  [B + 'value/ser.rs', B + 'ser.rs', B + 'write_ext.rs'],
  [('Value serializer', B + 'value/ser.rs')],
  note=NOTE + ' Nested values are taken by induction over the nesting.')
p('C13', 'A polymorphic variant\'s tag is the OCaml hash of its whole name',
  'The tag that identifies a polymorphic variant is computed from every byte of its name, in order, by the recurrence OCaml uses: start at 0 and repeatedly take 223 times the hash plus the byte, keeping the low 31 bits. '
  'A tag computed here therefore equals the one OCaml computes for the same name, for every name.',
  ['inputs'], 'every variant name of any length and content',
  'the tests compare a few short names with recorded tags',
  [B + 'polyvar/caml_hash_variant.rs', B + 'polyvar/mod.rs', B + 'ser.rs', B + 'de.rs'],
  [('hash of a name', B + 'polyvar/caml_hash_variant.rs')])
p('C14', 'Version wrappers carry the version of their type at every layer',
  'However a version wrapper is built (constructor, conversion, default), it carries the version number of its type at every layer and the payload unchanged. On the wire it is the version as an integer followed by the payload, once per layer, and reading it returns what was written.',
  ['inputs', 'programs'], 'every payload type and value, every way to build a wrapper, any supported number of layers',
  'tests build wrappers of particular types with particular values',
  ['protocol/versioned/src/lib.rs', 'protocol/versioned/src/macros.rs'],
  [('wrapper and conversions', 'protocol/versioned/src/lib.rs Versioned')])
p('C15', 'Generated conversions between type families lose and swap nothing',
  'A conversion generated between a wire type and its counterpart maps every field to the field of the same name (or position) and every variant to the variant of the same name, converting the contents element by element and in order. Version wrappers on the way are removed in one direction and added with the right version in the other, so converting there and back gives the original.',
  ['inputs', 'programs'], 'every supported shape of type (records, tuple structs, enums, options, vectors, wrappers) and every value',
  'tests convert a few types; a shape that is not among them is not seen',
  ['protocol/serialization-types-macros/src/lib.rs', 'protocol/serialization-types-macros/src/auto_from.rs', 'protocol/versioned/src/lib.rs'],
  [('conversion generator', 'protocol/serialization-types-macros/src AutoFrom')])
p('C16', 'A layout description is read as the rules it states',
  'Every tag of a layout description yields the rule of that name, with each part taken from its own place in the description, and an unknown tag or one with the wrong number of parts is an error. Each part of a record in the description is taken from the key of its own name and no other; a missing one is an error, save those the format makes optional (version_opt, and source_module_path and bin_io_derived of a resolved reference).',
  ['inputs', 'configurations'], 'every tag, every number of parts, every layout description',
  'tests read a few layouts; a rule that is not in them is never read',
  [B + 'value/layout/mod.rs', B + 'value/layout/list_tagged_enum.rs'],
  [('tagged list to rule', B + 'value/layout TryFrom')])
p('C17', 'Looking into a loosely typed value finds exactly the addressed part',
  'Looking up a position or a name in a loosely typed value returns the part at that position or under that name, looking through the payload of a sum variant. What is not there is reported as absent (or panics, for the indexing operator); no other part is ever returned.',
  ['inputs'], 'every loosely typed value, every position and name',
  'tests look up a few paths in recorded messages',
  [B + 'value/mod.rs', B + 'value/index.rs'],
  [('lookup', B + 'value/index.rs')])
p('C18', 'The layout reader reports success only if every step and the round trip held',
  'The layout reader parses the whole layout file, whatever its nesting, and decodes the whole binary file (hex-decoded if all of it is hex, raw otherwise) with the rule of that layout. It succeeds exactly if every step did: with --roundtrip only if the re-encoding of the decoded value equals all of the input bytes. On success the decoded value has been written to the requested output file, or to standard output; a failure to open, read, parse, decode, encode or write ends with an error status.',
  ['inputs', 'fault_sequences'], 'every combination of options, every content of the two files, every failing open, read or write',
  'no test runs the tool; failures of files and streams are not reproduced',
  ['apps/bin-prot-layout-reader/src/main.rs'],
  [('verdict of the tool', 'apps/bin-prot-layout-reader/src/main.rs')])
p('C19', 'The checker encodes and decodes exactly the selected test',
  'Each of the test names nat0, bool, int, int32, int64, enum, record and variant selects the test of that kind, and no other name is accepted. `serialize` writes to the given file (or standard output) the bin_prot encoding of the value of the selected test and no other bytes; `deserialize` reads a value of the type of the selected test from the given file (or standard input) and prints the value it decoded. The exit status is that of success exactly if nothing failed.',
  ['inputs', 'fault_sequences'], 'every test name, every value of the tests, every input, every failing open, read or write',
  'the interoperability script needs the OCaml tool and is not part of the test suite; it samples one value per test',
  ['protocol/bin_prot_checker/src/main.rs'],
  [('selection, destination and status', 'protocol/bin_prot_checker/src/main.rs')])
p('C20', 'A Merkle proof verifies exactly when it leads from its item to the root',
  'The root hash of a Merkle proof is the merger applied level by level from the hash of the item, each node on the side its position has among its siblings and with the depth and height of the node above, and verification holds exactly if that hash equals the given root. A proof whose number of peers is not the depth of its position, or whose peers are not the siblings on the way to the root, is an error, as is a merge that yields nothing; no proof makes the program stop. The depth of a node is exact for every position of every tree, and its height is the rest of the height of the tree.',
  ['inputs'], 'every item, position, list of peers and hashes, every hasher and merger',
  'tests check a handful of proofs that are right, of trees with a few levels',
  ['merkle/src/proof.rs', 'merkle/src/metadata.rs'],
  [('proof evaluation', 'merkle/src/proof.rs root_hash, verify'), ('node position', 'merkle/src/metadata.rs')])
p('C21', 'Chain selection follows the fork rules and errors leave the chain alone',
  'A candidate of a short range fork replaces the chain exactly if it is longer, or as long with a greater VRF digest, or equal in both with a greater state hash; of a long range fork, if its sub-windows are eleven of at most seven blocks each and its relative minimum window density is greater, or equal and the short range order prefers it; candidates are taken in order, and an error or an unsuitable candidate leaves the chain as it was. A fork is short range exactly if both chains are in the same epoch with equal staking lock checkpoints, or one is an epoch ahead with its staking lock checkpoint equal to the next one of the other, whose slot is not before two thirds of its epoch. The relative density is the recorded minimum before the end of the grace period and afterwards never more than that or than the blocks in the window; a block is appended only to an empty chain or at the next height.',
  ['inputs', 'histories'], 'every pair and sequence of chains and every header',
  'tests compare a few recorded chains; ties, epoch boundaries and malformed windows are not among them',
  ['consensus/src/common.rs'],
  [('fork choice', 'consensus/src/common.rs ChainSelection'), ('appending', 'consensus/src/common.rs push')])
p('C22', 'Wire messages have the layout of the OCaml node and read back what they write',
  'Every value of the block, protocol state and SNARK work messages is written as the bytes the OCaml layouts in protocol/layouts describe: the same primitive at every position, the version numbers, the sum and polymorphic variant tags, and each field at the place of the layout\'s field of that name. Every wire type, the stored accounts included, reads each written part back into the field and variant it came from, for every value.',
  ['inputs'], 'every value of every wire type, every variant',
  'tests decode a few recorded blocks, in which most variants never occur and neighbouring fields of one type hold similar values',
  ['protocol/serialization-types/src', 'protocol/versioned/src/lib.rs', 'protocol/layouts/external_transition.json'],
  [('wire types', 'protocol/serialization-types/src/*.rs derive(Serialize, Deserialize)'), ('layouts', 'protocol/layouts/*.json')])
p('C23', 'Hash inputs hold every field once, in the order and width of the protocol',
  'The random oracle input of an account, a payment or delegation payload, a coinbase, a fee transfer, a consensus or protocol state and everything nested in them is the same sequence of fields and bits, each of the fixed width of its kind and each exactly once, for every value; this holds for the legacy inputs that are signed and for the chunked inputs of state and account hashes. Packing of chunks into field elements keeps their order, never splits a chunk and never lets an element exceed 254 bits. Each hash is taken under the domain of its type, and the hash of a state is that of the previous state hash followed by that of the body.',
  ['inputs'], 'every value of every hashed type, every variant',
  'tests compare a few recorded hashes, in which most optional parts are absent and most variants never occur',
  ['base/src', 'proof-systems-shim/src', 'crypto/src/hash/types.rs'],
  [('hash inputs', 'base/src impl Hashable, ToChunkedROInput'), ('packing', 'proof-systems-shim/src/roinput.rs ChunkedROInput'), ('state hash', 'base/src/protocol_state.rs')])
p('C24', 'A block verifies exactly when each of its commands is signed by its signer',
  'A signed command verifies exactly if its signer is a valid public key and its signature is that key\'s signature of its payload; a block, or a diff, verifies exactly if every command of every diff in it does, however many there are, and nothing in it makes verification panic. Signing a payload yields a command with that payload, the key of the signer and the legacy signature for the given network. A transfer built by the builder holds each value it was given in the field meant for it, and for the others the defaults: the default token, the sender as fee payer, no expiry and the memo of an empty text.',
  ['inputs'], 'every command, every list of commands, every outcome of the signature scheme',
  'tests sign four payments and verify each alone; none verifies a block with a bad command',
  ['base/src/user_commands', 'base/src/staged_ledger_diff.rs', 'base/src/external_transition.rs', 'base/src/verifiable.rs'],
  [('verification', 'base/src impl Verifiable'), ('signing', 'base/src/user_commands/signed_command/mod.rs from_payload'), ('builder', 'base/src/user_commands/signed_command/builder.rs')])
p('C25', 'Conversions between library, wire and text-form types lose and mix up nothing',
  'Converting a value between its library type, its wire type and the type of its text form, in whatever version wrappers, keeps every part of it: each field goes to the field of the same name, each variant to the variant of the same name, list elements keep their number and order, absent stays absent, integers keep their bits, keys, signatures and hashes their bytes and flags, and version wrappers get their declared version. Converting there and back gives the value it started from, and each conversion ends, without a panic.',
  ['inputs'], 'every value of each of some 2,000 conversions, most of them generated by macros',
  'tests convert a few sample blocks; fields that are equal in the sample can be exchanged unnoticed',
  ['base/src', 'crypto/src/hash', 'crypto/src/serialization_type_conversions.rs', 'protocol/serialization-types/src', 'protocol/serialization-types-macros/src', 'protocol/versioned/src/macros.rs'],
  [('generated conversions', 'protocol/serialization-types-macros/src/auto_from.rs'), ('newtype conversions', 'protocol/versioned/src/macros.rs'), ('numbers', 'base/src/serialization_type_conversions/numbers.rs'), ('keys and signatures', 'protocol/serialization-types/src/signatures.rs mod conversions')])
p('C26', 'A value written as text is read back the same; invalid text is an error',
  'The text forms of numbers, decimals, amounts, bytes, hashes, keys, signatures, memos, proofs and field elements (decimal digits, nine-digit fractions, base58check with the kind byte of the type, base64, hex, the memo of a text) and the list-tagged forms of sum types are written as specified, and reading what was written gives the value that was written. Text of another form, of another kind, of a wrong length, out of range or malformed is refused with an error. No text makes reading panic or gives another number than the one it denotes.',
  ['inputs'], 'every value and every text of each form',
  'tests read the text of a few sample blocks; malformed, extreme and boundary texts are not among them',
  ['protocol/serialization-types/src/common.rs', 'protocol/serialization-types/src/macros.rs', 'protocol/serialization-types/src/field_and_curve_elements.rs', 'protocol/serialization-types/src/signatures.rs', 'base/src/numbers.rs', 'protocol/serialization-types/src/version_bytes.rs', 'crypto/src/hash'],
  [('numbers and bytes', 'protocol/serialization-types/src/common.rs'), ('base58 forms', 'protocol/serialization-types/src/macros.rs'), ('list-tagged sums', 'protocol/serialization-types/src/macros.rs'), ('amounts', 'base/src/numbers.rs')])
p('C27', 'Data of the GraphQL API is read from the entry of its name, and completely',
  'An account, its permissions and timing, epoch data, and blockchain, consensus and protocol state read from GraphQL data have each part from the entry that the API names after it, read in the text form of its type. If a required entry is missing or is no valid text of that form (a number out of range, a hash of another kind, an invalid address), the whole is refused with an error; nothing is refused whose entries are all valid, and nothing panics. A delegate is absent exactly if its entry is, and an account is timed exactly if all entries of its timing are valid.',
  ['inputs'], 'every JSON value',
  'tests read one sample protocol state and the permissions of one account, in which many entries are equal and none is missing or malformed; reading an account has no test',
  ['base/src/account/mod.rs', 'base/src/account/permissions.rs', 'base/src/account/timing.rs', 'base/src/epoch_data.rs', 'base/src/blockchain_state.rs', 'base/src/consensus_state.rs', 'base/src/protocol_state.rs'],
  [('trait', 'base/src/from_graphql_json.rs'), ('account', 'base/src/account/mod.rs impl FromGraphQLJson'), ('consensus state', 'base/src/consensus_state.rs impl FromGraphQLJson')])
p('C28', 'A Merkle tree stands for all its items, however they were added',
  'The root, item count and height of a Merkle tree depend only on the items added, in order (and the fixed height, if any): not on how they were divided into batches nor on whether roots or proofs were asked for in between; the root is the merging of the items\' hashes level by level in a complete tree of the smallest sufficient or the fixed height, with absent subtrees as empty ones. The proof of an item names its position and its siblings on the way to the root with their current hashes, so that it leads to the root of the tree. A tree without anything above its only item has no proof, and nothing panics within the capacity of the tree.',
  ['inputs', 'histories'], 'every sequence of batches, roots and proofs',
  'tests compare roots of trees filled at once or item by item with one merger and a few sizes; a stale hash appears only after particular sequences of adding and asking at particular sizes',
  ['merkle/src/tree_impl.rs', 'merkle/src/tree.rs', 'merkle/src/metadata.rs'],
  [('adding and dirty hashes', 'merkle/src/tree_impl.rs add_batch, clear_dirty_hashes'), ('roots', 'merkle/src/tree_impl.rs calculate_hash_if_needed, root'), ('proofs', 'merkle/src/tree_impl.rs get_proof')])
p('C29', 'Ledger hashes: nodes and paths are hashed as the Mina protocol does',
  'The hash of a node of the ledger\'s Merkle tree is the Poseidon hash (legacy or kimchi) of its left and right child under the domain string of its height counted from the leaves (CodaMklTree000 for the lowest nodes), where an absent child stands for the empty subtree of that height above the empty account, and the hash of a leaf is the hash of its item under its own domain; both kinds of tree may be used in one program. A Merkle path of the GraphQL API is turned into a proof whose item and siblings are at the positions that its sides describe, each with its hash. A path that is empty, too long for an index, or has a node with both or neither side is refused.',
  ['inputs', 'histories'], 'every pair of children at every height, in every order of use, and every path',
  'tests hash a few trees of one kind per program and paths of some accounts; empty hashes are cached in statics, so the order of use matters, and sides and lengths of paths combine freely',
  ['merkle/src/merger_poseidon.rs', 'merkle/src/hasher_poseidon.rs', 'merkle/src/prefixes.rs', 'merkle/src/path.rs'],
  [('merging', 'merkle/src/merger_poseidon.rs merge_poseidon_hash_*, get_empty_hash_*'), ('domain', 'merkle/src/prefixes.rs'), ('paths', 'merkle/src/path.rs to_proof')])
p('C30', 'A wallet opens to its private key with the password, otherwise to an error',
  'A wallet file is read if and only if it is JSON of the wallet form, names xsalsa20poly1305 and argon2i, and its nonce, salt (3 to 48 bytes) and ciphertext are base58 of kind 2 with valid checksums; written again, it has the same contents. Opening it gives what XSalsa20-Poly1305 decrypts from its ciphertext under its nonce and the key that Argon2i (version 1.3, one lane, the memory limit in KiB and the passes of the file) derives from the password and its salt, without the first byte, and the key pair is the one of those bytes in big-endian order. A nonce that has not 24 bytes, a memory limit or number of passes outside the range of Argon2, a text that is not authentic and an empty one give an error: nothing panics and no number is truncated.',
  ['inputs'], 'every wallet text and password',
  'tests open one wallet file with one right and one wrong password',
  ['secrets/src/secret_box/types_impls.rs', 'secrets/src/secret_box/utils.rs', 'secrets/src/secret_box/types.rs'],
  [('reading', 'secrets/src/secret_box/types_impls.rs TryFrom<SecretBoxJson> for SecretBox'), ('opening', 'secrets/src/secret_box/types_impls.rs get_private_key_bytes, try_gen_secret'), ('key pair', 'secrets/src/secret_box/types_impls.rs get_keypair')])
# --- end of table


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']],
                            **({'observe_at': list(x['observe'])} if x['observe'] else {})}}) + '\n')
            assert len(x['title']) <= 80, x['id']
            assert x['statement'].count('. ') <= 2, x['id']
    m = {
        'version': 1,
        'setup_cmd': 'python3 analysis/build.py',
        'checks': [{'property': x['id'], 'quick_cmd': 'bash check.sh ' + x['id'], 'thorough_cmd': 'bash check.sh %s --thorough' % x['id'],
                    'technique': x['technique'], 'level': 'other', 'level_note': x['note']} for x in P if not x['na']],
        'not_applicable': [{'property': x['id'], 'reason': x['na']} for x in P if x['na']],
        'notes': 'No hooks in /repo. Recorded defects and repairs: known_findings.txt; see DESIGN.md.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
