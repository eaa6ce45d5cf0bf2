I = ['inputs']
IP = ['inputs', 'programs']
SUS, API, CVS = 'single_use_seals/src/lib.rs', 'src/api.rs', 'commit_verify/src/'
GEN = 'any implementation of the traits and '

p('C01', 'A seal closing verifies only when every seal is included and committed',
  'Verification of a seal witness against a set of seals and a message succeeds exactly when the published witness reports every seal of the set '
  'as included with that message, the client-side witness turns the message into a published message, and the published witness accepts that very '
  'published message. Verification of many seals, of one seal and of any sub-witness agree on this, and in every other case an error is returned.',
  IP, GEN + 'every seal set (empty ones too), message and witness',
  'No test in the repository exercises the seals crate at all.', [SUS],
  [('SealWitness::verify_seal_closing', SUS), ('SealWitness::verify_seals_closing', SUS), ('SingleUseSeal::is_included, PublishedWitness::verify_commitment', SUS)])
p('C02', 'A failed seal closing names the failing seal or witness and carries its error',
  'When a seal closing does not verify, the error identifies which step failed: for an inclusion failure, the first seal that is not included together '
  'with the publication it was looked up in; for a client-side or published witness failure, exactly the error that witness returned. '
  'The error can be displayed, debugged and traced to its source without losing that information.',
  IP, GEN + 'every seal set, message and witness which does not verify',
  'No test exercises the seals crate; error renderings are not tested.', [SUS],
  [('SealError', SUS), ('SealWitness::verify_seals_closing', SUS)])
p('C03', 'The witness-less client side passes messages through and merges as identity',
  'A seal protocol without a client-side witness publishes the message itself: its empty witness maps every message to itself, never fails, '
  'is unchanged by merging, and all its values are equal.',
  IP, 'every message and seal type', 'No test exercises the seals crate.', [SUS], [('NoWitness', SUS)])
p('C04', 'The verdict is Valid exactly when there are no failures and no seal issues',
  'The verdict of a validation report is invalid if it has at least one failure, otherwise it reports seal issues if there is at least one, and is '
  'valid otherwise. Warnings and informational entries never influence it.',
  I, 'every validation report', 'No test covers the validation API.', [API], [('Status::validity', API)])
p('C05', 'Collecting validation results never loses, duplicates or misfiles an entry',
  'Each way to build or extend a validation report - adding a failure, a seal issue, a warning or an information entry, constructing a report from '
  'one of them, collecting failures from an iterator, joining two reports - puts each given entry into the log of its own kind once, in order, and '
  'leaves all other entries as they were.',
  ['inputs', 'histories'], 'every sequence of operations on reports with any entries', 'No test covers the validation API.', [API],
  [('Status::add_failure, add_warning, add_info, AddAssign, FromIterator', API)])
p('C06', 'Validation checks the data, every item and every seal once and reports it all',
  'Validating client-side data runs the internal consistency check of the data as a whole and of every item it contains, and tries to resolve every '
  'seal of every item against the resolver, each exactly once, without stopping at the first problem. The returned report contains all the results '
  'of the consistency checks, one seal issue per failed resolution, and nothing else.',
  IP, GEN + 'all data with any number of items and seals, and every outcome of the resolver', 'No test covers the validation API.', [API],
  [('ClientSideValidate::client_side_validate', API), ('ClientData, VerifiableItem traits', API)])
p('C07', 'Plain and fallible commitments verify exactly against the recomputed commitment',
  'A plain commitment verifies exactly when committing to the message again gives that commitment; a fallible one additionally requires that the '
  'message can be committed to, and otherwise reports the message as invalid. A mismatch is always reported as an invalid commitment.',
  IP, GEN + 'every message and commitment', 'Tests verify a few hand-made commitments of one implementation.', [CVS + 'commit.rs'],
  [('CommitVerify::verify', CVS + 'commit.rs'), ('TryCommitVerify::verify', CVS + 'commit.rs')])
p('C08', 'Embedded commitments verify only when re-embedding gives an equal result',
  'A container verifies against a message and a proof exactly when the original container restored from the proof, after embedding the message into it '
  'again, produces an equal proof and an equal container. Each way to fail is reported as its own error, and errors of restoring are passed on unchanged.',
  IP, GEN + 'every container, message and proof', 'Tests use two toy containers with a handful of messages.', [CVS + 'embed.rs'],
  [('EmbedCommitVerify::verify', CVS + 'embed.rs'), ('VerifyEq', CVS + 'embed.rs')])
p('C09', 'Convolved commitments verify only when re-convolving gives an equal result',
  'A convolution proof verifies against a message and a commitment exactly when convolving the restored original with the supplement taken from the '
  'proof and the message produces an equal proof and an equal commitment. Each way to fail is reported as its own error.',
  IP, GEN + 'every proof, message and commitment', 'Tests use one toy implementation with a handful of messages.', [CVS + 'convolve.rs'],
  [('ConvolveCommitProof::verify', CVS + 'convolve.rs')])
p('C10', 'A commitment id is the tagged hash of exactly what its encoding committed to',
  'The commitment id of any value is the SHA-256 digest of a hasher started with the doubled hash of the tag of its own id type (BIP-340 style) which '
  'has absorbed exactly what the value\'s commitment encoding wrote, and the id holds that digest unchanged. Every type gets its id through this one pipeline.',
  IP, 'every committed type and value', 'Tests compare a few digests of fixed values of a few types.', [CVS + 'id.rs', CVS + 'digest.rs'],
  [('CommitEngine::new, finish', CVS + 'id.rs'), ('CommitId::commit_id', CVS + 'id.rs'), ('DigestExt::from_tag', CVS + 'digest.rs')])
p('C11', 'Each engine operation absorbs the whole value once and records its layout step',
  'Every operation of the commitment engine hashes the complete strict encoding of the value it is given (or of its commitment id, merkle root or '
  'concealed form, for the operations which say so) exactly once, and adds to the recorded layout exactly one step describing that operation with the '
  'type it was given. A value which can not be encoded never goes unnoticed.',
  ['inputs', 'programs', 'histories'], 'every value of every encodable type, at any point of any sequence of engine operations',
  'Tests run three operations on sample values and do not look at the layout.', [CVS + 'id.rs'],
  [('CommitEngine::commit_to_*', CVS + 'id.rs'), ('CommitStep', CVS + 'id.rs')])
p('C12', 'Every committed type hashes the content its commitment strategy promises',
  'The commitment id of a value is computed from: all of its strict encoding when its strategy is strict, its concealed form when it is conceal, its '
  'inner value when it is transparent, its merkle root when it is merklization. This holds for all the types of the library and for types which derive '
  'their commitment encoding with the provided macro.',
  IP, 'every value of every committed type of the library, and of types deriving the encoding',
  'Tests compare digests of a few values of a few derived types.', [CVS + 'mpc/atoms.rs', CVS + 'mpc/block.rs', CVS + 'merkle.rs', 'commit_verify/derive/src/derive.rs'],
  [('CommitEncode implementations', CVS + 'id.rs'), ('derive(CommitEncode)', 'commit_verify/derive/src/derive.rs')])
p('C13', 'Commitment domains are separated by their tags and by leaf and node codes',
  'Each commitment id type of the library has its own domain tag, equal to the published one. Within the merkle tree domain, the encoding of a leaf '
  'and that of a branch node start with different bytes, and so do an inhabited and an entropy leaf.',
  I, 'all commitment id types and all leaf and node kinds (finite, enumerated exhaustively)',
  'Tests do not compare tags or type codes.', [CVS + 'merkle.rs', CVS + 'mpc/atoms.rs', CVS + 'id.rs'],
  [('CommitmentId::TAG', CVS + 'id.rs'), ('Leaf and NodeBranching tag values', CVS + 'mpc/atoms.rs')])
p('C14', 'The strict encoding of a structure contains each of its fields once, in order',
  'Strictly encoding a structure of the library - which is what gets hashed and stored - writes every field of it (of the active variant, for enumerations) '
  'exactly once, in the declared order, so that no part of the data escapes commitment or serialization.',
  I, 'all values of all the strict encoded types of the library', 'Tests do not decode or compare encodings.',
  [CVS + 'merkle.rs', CVS + 'mpc/atoms.rs', CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs', CVS + 'lib.rs'], [('StrictEncode implementations', CVS)])
p('C15', 'A merkle node commits to its branching, depth, width and both children',
  'A merkle tree node hash commits to whether the node is void, single or branching, to its depth, to the width of the whole tree and to the hashes '
  'of both children, each in its own place; in place of an absent child there is the virtual leaf constant.',
  I, 'all depths, widths and child hashes', 'Tests compare two fixed trees.', [CVS + 'merkle.rs'],
  [('MerkleNode::void, single, branches, with', CVS + 'merkle.rs')])
p('C16', 'Merklization commits to every leaf once, in order, in the documented tree shape',
  'Merklizing a collection hashes every leaf exactly once, in order, into the documented shape: a single leaf is its own root; an inner node at depth d '
  'branches into the first half of its leaves (rounded up) and the rest, both at depth d+1; and all nodes carry the total number of leaves. '
  'Different implementations of a leaf collection iterate all their leaves in order.',
  I, 'all collections of leaves of any size and content', 'Tests cover trees of up to a few leaves.', [CVS + 'merkle.rs'],
  [('MerkleHash::merklize, _merklize', CVS + 'merkle.rs'), ('MerkleLeaves', CVS + 'merkle.rs')])
p('C17', 'A buoy surfaces exactly when its subtree closes, and measures the open depth',
  'Traversing a merkle cross-section, a buoy reports the depth of the subtree which is still open, and surfaces one level exactly when both halves of '
  'that subtree have been seen, outer levels surfacing after the inner ones.',
  ['inputs', 'histories'], 'all sequences of pushed depths', 'One test pushes a few sequences.', [CVS + 'merkle.rs'],
  [('MerkleBuoy::push, level', CVS + 'merkle.rs')])
p('C18', 'Length-prefixed input is preceded by its exact length',
  'Data hashed with a length prefix is preceded by its exact length in little-endian bytes, 1, 2, 3 or 4 of them depending only on the declared maximum '
  'size; data longer than the prefix can represent is rejected and never hashed with a truncated length.',
  I, 'all data lengths and maximum sizes', 'Not tested.', [CVS + 'digest.rs'], [('DigestExt::input_with_len', CVS + 'digest.rs')])

p('C19', 'The leaf position of a protocol is its id modulo the factored width',
  'In multi-protocol trees and blocks the position of a protocol is its 256-bit id, read as a little-endian number, modulo the factored width '
  '2^depth - cofactor (at least 1). Width and factored width of trees, blocks and proofs follow from their depth and cofactor; the depth of a proof '
  'is the length of its path, and every path a proof can hold has a depth.',
  I, 'all protocol ids, depths, cofactors and paths', 'Tests sample random trees of small depth.', [CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs'],
  [('protocol_id_pos', CVS + 'mpc/block.rs'), ('MerkleTree::protocol_id_pos, width_limit, factored_width', CVS + 'mpc/tree.rs'), ('MerkleProof::depth', CVS + 'mpc/block.rs')])
p('C20', 'A multi-message commitment places every message at its own position',
  'Committing to a multi-source gives a tree with the method, messages and entropy (or a fresh random one, when none is given) of the source, whose map holds every '
  'message at the position of its protocol computed with the very depth and cofactor stored in the tree; depths are tried from the minimal one upwards, cofactors from 0 upwards; '
  'two messages never share a position. A source with no messages and zero minimal depth, with more than 2^31 messages, or which does not fit the maximal depth is an error.',
  I, 'all sources', 'Tests sample random message sets and check only the resulting depth.', [CVS + 'mpc/tree.rs'],
  [('MerkleTree::try_commit', CVS + 'mpc/tree.rs')])
p('C21', 'A tree verifies exactly against the sources that commit to that very tree',
  'Verifying a multi-source against a tree succeeds exactly when committing to that source - with its own entropy, or with the entropy of the tree when it has none - '
  'gives the very same tree. A source which can not be committed to is reported as an invalid message, a different tree as an invalid commitment.',
  I, 'all trees and sources', 'Not tested.', [CVS + 'mpc/tree.rs', CVS + 'commit.rs'],
  [('MerkleTree::verify', CVS + 'mpc/tree.rs'), ('TryCommitVerify', CVS + 'commit.rs')])
p('C22', 'A tree and its block have the same leaves, messages and placeholders in place',
  'The leaves of a multi-protocol tree are, for each position below 2^depth in order, the message mapped to the position, or otherwise a placeholder made of the entropy of the tree and the position. '
  'The root of the tree merklizes exactly these leaves; the block made from the tree has the same leaves (placeholders as their commitment ids at the depth of the tree), '
  'and the method, depth, cofactor and entropy of the tree.',
  I, 'all trees', 'Tests compare roots of a few random trees and blocks.', [CVS + 'mpc/tree.rs', CVS + 'mpc/block.rs'],
  [('MerkleTree::root', CVS + 'mpc/tree.rs'), ('From<MerkleTree> for MerkleBlock', CVS + 'mpc/block.rs')])
p('C23', 'A proof is accepted only at the position of its protocol, and opens one leaf',
  'Building a block from a proof, protocol id and message fails with the expected and actual position exactly when the position in the proof is not the position of the protocol for the depth and cofactor of the proof. '
  'Otherwise the block has the message as the only revealed leaf at that position and the siblings of the path on the sides the position dictates, at their depths; it keeps the method and cofactor and has no entropy. '
  'Convolving a proof gives the commitment id of that block, or its error.',
  I, 'all proofs, protocol ids and messages', 'Tests convolve proofs of a few random trees.', [CVS + 'mpc/block.rs'],
  [('MerkleBlock::with', CVS + 'mpc/block.rs'), ('ConvolveCommitProof / MerkleProof::convolve', CVS + 'mpc/block.rs')])
p('C24', 'Concealing hides just the other leaves and merges all siblings, or does nothing',
  'Concealing all leaves except for given protocols fails, naming a protocol which has no revealed leaf, without changing the block; or else drops the entropy, replaces every other '
  'revealed leaf by the concealed node of its commitment id at tree depth, keeps the given ones, and then merges concealed siblings - neighbours of the same depth which belong to one branch - into their parent '
  'until none are left, never losing count of the offset within the tree. The number of concealments made is returned; method, depth and cofactor do not change. '
  'Concealing a single other protocol is the same for one protocol.',
  I, 'all blocks and sets of protocols', 'Tests conceal blocks of a few random trees and compare ids.', [CVS + 'mpc/block.rs'],
  [('MerkleBlock::conceal_except, conceal_other', CVS + 'mpc/block.rs')])
p('C26', 'Merging keeps the commitment and all revealed leaves, or changes nothing',
  'Merging blocks with different commitment ids is an error with both ids, which leaves the block as it was. Merging related blocks changes only the section; it returns only after it has checked, in release builds too, that the sizes of the '
  'nodes sum up to the tree width and that the commitment id is the same as before; every node of either block is in the result unless it was concealed or equal to one which is, so no revealed leaf is lost; and the number of '
  'nodes in the result is returned. Merging the path of a proof fails with the error of the proof, leaving the block as it was, or merges the block of the proof.',
  I, 'all pairs of blocks, proofs and messages', 'Tests merge proofs back into blocks of a few random trees.', [CVS + 'mpc/block.rs'],
  [('MerkleBlock::merge_reveal, merge_reveal_path', CVS + 'mpc/block.rs')])
p('C27', 'Known ids, messages and proofs of a block are those of its revealed leaves',
  'The known protocol ids and the message map of a block are those of all its revealed leaves. The proof of a protocol is taken by concealing everything else (failing like concealing does), '
  'and holds the hashes of the nodes left concealed from the lowest depth up, the position of the protocol and the method and cofactor of the block. All known proofs hold one such proof per revealed leaf; '
  'proofs of a tree are the ones of its block. Taking a proof by reference does not change the block.',
  I, 'all blocks and protocol ids', 'Tests take proofs of a few random trees.', [CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs'],
  [('MerkleBlock::known_protocol_ids, to_known_message_map, into_merkle_proof, into_known_proofs', CVS + 'mpc/block.rs'), ('MerkleTree::into_proofs', CVS + 'mpc/tree.rs')])
p('C28', 'A tree, its block and their concealed form have the same commitment',
  'Concealing a block gives its depth, its cofactor and the single hash left when all leaves are concealed; concealing a tree conceals its block; concealing what is concealed changes nothing. '
  'Trees, blocks and their concealed form commit to the encoding of the concealed form only, so all of them have the same commitment id.',
  I, 'all trees and blocks', 'Tests compare ids of a few random trees and blocks.', [CVS + 'mpc/tree.rs', CVS + 'mpc/block.rs'],
  [('Conceal for MerkleTree', CVS + 'mpc/tree.rs'), ('Conceal for MerkleBlock, CommitStrategy', CVS + 'mpc/block.rs')])
p('C29', 'Proofs match exactly when they commit to the same tree',
  'Multi-protocol proofs match when they prove the same tree: trees and blocks exactly when their commitment ids are equal; merkle proofs never when their cofactors or the siblings in their paths are unrelated.',
  I, 'all pairs of proofs', 'Not tested.', [CVS + 'mpc/tree.rs', CVS + 'mpc/block.rs', CVS + 'mpc/mod.rs'],
  [('Proof::matches', CVS + 'mpc/block.rs')])

p('C30', 'A tree takes the first depth and cofactor at which no messages collide',
  'The same messages always give the same tree shape: depths are tried from the requested minimum upwards and, at each depth, cofactors from 0 to the smaller of 500 and '
  'the width of the previous depth (1 for the first depth), and the first attempt at which all protocols get different positions is taken. '
  'Only depths with fewer positions than there are messages are passed over without trying, and no other attempt is left out.',
  ['inputs', 'histories'], 'every set of messages and minimal depth', 'Tests check a few sets, and only that the result is consistent.', [CVS + 'mpc/tree.rs'],
  [('try_commit, COFACTOR_ATTEMPTS', CVS + 'mpc/tree.rs')])

p('C31', 'Nothing but the placeholder entropy depends on anything but the inputs',
  'Validation, commitment and verification are deterministic: their results depend on their arguments only. No library function (client_side_validation, commit_verify, single_use_seals) reads the clock, the environment, '
  'files, threads, mutable global state, the iteration order of a hash table, an address or the name of a type or call site; randomness is drawn only when a MerkleTree is committed to a source (for the entropy of its placeholders) and nowhere else.',
  ['inputs', 'histories', 'schedules'], 'every call at any time, in any process and thread, on any platform state', 'A test observes one process and one moment.', [CVS, 'src/api.rs', 'single_use_seals/src/lib.rs'],
  [('thread_rng in try_commit', CVS + 'mpc/tree.rs')])
p('C32', 'Optional features only add code and change no result',
  'Parties which build the crates with different optional features (serde, stl, derive, rand) agree on every result: each function which exists in two feature configurations gives the same outcome for the same input in both, '
  'except for the random entropy of a MerkleTree committed to a source without a static one, for which a build without the rand feature panics.',
  I, 'all functions and inputs, in the configurations all features, default features and no features', 'Tests run in one configuration.', [CVS, 'src/api.rs', 'single_use_seals/src/lib.rs'],
  [('cfg(feature = ...)', CVS + 'mpc/tree.rs')])
p('C33', 'Reserved bytes always hold their reserved value and decode from nothing else',
  'A ReservedBytes<LEN, VAL> made by this crate always consists of LEN bytes VAL: its default value does, conversion from an array panics for any other content, strict decoding fails for any other content and succeeds for this one, '
  'and serde deserialization always gives it. So a value reserved by a future version is never silently accepted.',
  I, 'all lengths, reserved values and inputs', 'Not tested.', [CVS + 'lib.rs'], [('ReservedBytes', CVS + 'lib.rs')])

p('C34', 'An identifier consists of exactly the bytes it was made from',
  'The 32-byte identifiers of the crate (protocol ids, messages, commitments, Merkle hashes, strict hashes) are made of exactly the bytes given: each conversion from a 32-byte array, and each conversion or view back, '
  'is the identity on the bytes, and conversion from a slice gives the bytes of the slice or the error of the array type. So an identifier travels through any of these conversions unchanged.',
  I, 'all byte contents and all conversions', 'Tests compare a few hex strings.', [CVS + 'mpc/atoms.rs', CVS + 'mpc/tree.rs', CVS + 'merkle.rs', CVS + 'id.rs'],
  [('ProtocolId::copy_from_slice', CVS + 'mpc/atoms.rs'), ('MerkleHash', CVS + 'merkle.rs')])
p('C35', 'Equality and ordering of values consider all of their content',
  'Two values of any type of the workspace are equal exactly when they are the same variant with all fields equal, and they are ordered by their variant and then by the first field which differs; the partial order agrees. '
  'So proofs, trees, blocks, sources, errors and statuses which differ in anything are never taken for the same, and sets and maps of them lose nothing.',
  I, 'all pairs of values of all types with equality or ordering', 'Tests compare whole equal values; a field left out stays unnoticed.', [CVS + 'mpc/atoms.rs', CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs', CVS + 'id.rs'],
  [('MultiSource', CVS + 'mpc/atoms.rs'), ('MerkleProof', CVS + 'mpc/block.rs'), ('MerkleTree', CVS + 'mpc/tree.rs')])
p('C36', 'Accessors and constructors give back the parameters they were given',
  'The accessors of Merkle trees, blocks, proofs and commitment layouts return the field they are named after, unchanged; the constructors of leaves, seal witnesses and message sources store each argument in the field meant for it, '
  'and a default source has no messages and no static entropy.',
  I, 'all values', 'Getters are generated by a derive macro from attributes and are hardly tested.', [CVS + 'mpc/tree.rs', CVS + 'mpc/block.rs', CVS + 'mpc/atoms.rs', CVS + 'id.rs', 'single_use_seals/src/lib.rs'],
  [('MerkleProof', CVS + 'mpc/block.rs'), ('Leaf::inhabited', CVS + 'mpc/atoms.rs'), ('SealWitness::new', 'single_use_seals/src/lib.rs')])
p('C37', 'The published layout of a commitment lists its id type, tag and every step',
  'The layout published for a commitment type names the type and tag of its id and holds the steps recorded by committing to a value of the type with an engine for that tag; its Vesper description has the tag as attribute and exactly one entry per step, '
  'in order, with the kind, type and parameters (size range, concealed type, key and value types) of the step.',
  I, 'all commitment types and layouts of any length', 'Tests print single examples.', [CVS + 'id.rs', CVS + 'vesper.rs'],
  [('commitment_layout', CVS + 'id.rs'), ('to_vesper', CVS + 'vesper.rs')])

p('C38', 'Strict decoding inverts strict encoding',
  'Decoding a strict encoded type of this workspace succeeds exactly when reading each of its parts does; the i-th value read is then the i-th field of the result (the place the encoder wrote it from), a union tag builds the variant '
  'the tag is written for, every variant can be decoded, and the byte of a field-less enum is written and read alike. Hence decoding an encoding gives back an equal value, provided this holds for the library types the fields bottom out in.',
  I, 'all values and all byte streams', 'Tests decode a handful of values.', [CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs', CVS + 'mpc/atoms.rs', CVS + 'merkle.rs', CVS + 'id.rs', SUS],
  [('MerkleBlock', CVS + 'mpc/block.rs'), ('MerkleTree', CVS + 'mpc/tree.rs'), ('Leaf', CVS + 'mpc/atoms.rs'), ('NodeBranching', CVS + 'merkle.rs')])

p('C39', 'The text form of an identifier is the text form of its bytes, both ways',
  'For every 32-byte identifier type (protocol id, message, commitment, Merkle hash, generic commitment id): displaying or hex formatting it prints exactly what the byte array prints; parsing text gives the identifier of exactly the bytes the byte array parser '
  'gives, and fails exactly when that parser fails; indexing and slicing an identifier reads those bytes, and it can not be changed in place.',
  I, 'all identifiers, all strings, all formatter flags', 'Tests parse and print single values.', [CVS + 'mpc/atoms.rs', CVS + 'id.rs', CVS + 'merkle.rs'],
  [('ProtocolId', CVS + 'mpc/atoms.rs'), ('MerkleHash', CVS + 'merkle.rs'), ('CommitId', CVS + 'id.rs')])
p('C40', 'A clone equals its original, and equal values hash alike',
  'Cloning a value of any workspace type gives the same variant with every field cloned from the same field of the original, and never panics; what a value feeds to a hasher (as a hash map key) depends only on its variant and the fields equality compares: '
  'never on addresses, time, randomness or other state.',
  I, 'all values of all clonable and hashable workspace types', 'Tests do not compare clones or hashes.', [CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs', CVS + 'mpc/atoms.rs', CVS + 'id.rs', SUS, 'src/api.rs'],
  [('MerkleBlock', CVS + 'mpc/block.rs'), ('MerkleTree', CVS + 'mpc/tree.rs'), ('SealWitness', SUS)])
p('C41', 'The serde form of a value carries each field once and is read back in place',
  'With the serde feature, serializing a value of a serializable workspace type writes each field of its variant exactly once, under a name unique in the type; deserializing puts what is found under that name, and at that position, into the same field, and each '
  'variant is read under the name (and number) it is written with. No field is lost, doubled, swapped or replaced by a default on the way.',
  I, 'all values of all serializable types, all serde formats', 'Tests do not use serde for these types.', [CVS + 'mpc/block.rs', CVS + 'mpc/atoms.rs', CVS + 'convolve.rs', 'src/api.rs', SUS],
  [('MerkleProof', CVS + 'mpc/block.rs'), ('MerkleBlock', CVS + 'mpc/block.rs'), ('SealWitness', SUS)])
p('C42', 'Every verdict, error and layout word has its own complete text',
  'Displaying any verdict, error, method or layout word never fails and never panics; two different variants of one type never print the same text; an error shows each piece of data its text promises, each once and in its own place; '
  'a seal error shows, and gives as its source, exactly the error it wraps.',
  I, 'all values of all displayable workspace types, all formatter flags', 'Tests do not render errors or verdicts.', ['src/api.rs', SUS, CVS + 'mpc/block.rs', CVS + 'commit.rs', CVS + 'convolve.rs', CVS + 'embed.rs', CVS + 'vesper.rs'],
  [('Validity', 'src/api.rs'), ('SealError', SUS), ('InvalidProof', CVS + 'mpc/block.rs'), ('AttrExpr', CVS + 'vesper.rs')])
p('C43', 'No unsafe code in the libraries or their derives: no input corrupts memory',
  'Neither the libraries nor the code their derive macro emits into a user crate contain an unsafe block, an unsafe function or implementation, an extern block, a union or a mutable static: whatever is decoded, merged or verified, memory safety rests on the '
  'language and the dependencies alone.',
  IP, 'all functions, implementations, statics and types, in all feature sets', 'Undefined behaviour often goes unnoticed in a test.', [CVS, SUS, 'src/api.rs', 'commit_verify/derive/src/derive.rs'],
  [('library crates', CVS), ('derive expansions', 'commit_verify/derive/src/derive.rs')], tech='effect analysis over the compiler\'s HIR and item tables')
p('C44', 'Trees, proofs and ids cannot be altered; blocks change only by their own means',
  'Code outside the library cannot change a Merkle tree, a proof, a concealed tree, an identifier, a layout or reserved bytes in place, nor reach into their fields; a Merkle block changes only by concealing and merging, a commitment engine only by being fed '
  'and finished, a buoy only by a push. Reading any value never changes it and all of them can be shared between threads.',
  IP, 'all programs using the public interface', 'Tests cannot show that something is impossible.', [CVS + 'mpc/block.rs', CVS + 'mpc/tree.rs', CVS + 'mpc/atoms.rs', CVS + 'id.rs', CVS + 'merkle.rs', SUS],
  [('MerkleTree', CVS + 'mpc/tree.rs'), ('MerkleBlock', CVS + 'mpc/block.rs'), ('CommitEngine', CVS + 'id.rs')],
  tech='ownership and visibility analysis over the compiler\'s type and visibility tables')
p('C45', 'The derive refuses a missing, unknown or unsupported strategy or id',
  'Deriving the commitment encoding without an attribute, without a strategy or an id, with an unknown, doubled or unsupported one (a type which can not be concealed, unwrapped, merklized or serialized that way; an id which is not a commitment id) is an error at '
  'compile time, at the derive: it never falls back on another strategy.',
  ['programs'], 'all programs using the derive with such a mistake (one witness of each kind)', 'Tests only contain programs that compile.', ['commit_verify/derive/src/params.rs', 'commit_verify/derive/src/derive.rs'],
  [('ContainerAttr, StrategyAttr', 'commit_verify/derive/src/params.rs'), ('derive_encode', 'commit_verify/derive/src/derive.rs')],
  tech='compile-fail witnesses decided by the Rust type checker', note='Type-checks programs against the current sources; each kind of mistake is represented by one program. Trusts rustc.')
p('C46', 'Mixed-up ids, forged values and spent engines do not compile',
  'A program that passes a message for a protocol id, a Merkle root for a commitment or an id of another kind, compares or converts them, builds or reads into a tree, block or proof by its fields, uses a finished commitment engine, merklizes or hashes values with the '
  'wrong kind of id, verifies under another protocol, or mixes two kinds of seals, does not compile; the right programs do.',
  ['programs'], 'all programs with such a mistake (one witness of each kind)', 'Tests only contain programs that compile.', [CVS + 'mpc/atoms.rs', CVS + 'id.rs', CVS + 'merkle.rs', CVS + 'commit.rs', SUS],
  [('ProtocolId, Message, Commitment', CVS + 'mpc/atoms.rs'), ('CommitEngine', CVS + 'id.rs'), ('SingleUseSeal', SUS)],
  tech='compile-fail witnesses decided by the Rust type checker', note='Type-checks programs against the current sources; each kind of mistake is represented by a line of a program. Trusts rustc.')

# ---------------------------------------------------------------- not applicable
p('N01', 'No two different values have the same commitment id',
  'Commitment ids are collision resistant: no two different values (under one id type) share an id, and an id reveals nothing about concealed values.',
  I, 'all pairs of values', 'Cryptographic: no test can settle it.', [CVS + 'id.rs'], [('Sha256', CVS + 'id.rs')],
  na='Rests on the strength of SHA-256 and on injectivity of an encoding implemented in another crate; not a fact about the shape of this code. The structural necessary parts are decided by C10-C16.')
p('N02', 'The bytes and serde documents read are those that were written',
  'The byte stream and the serde document a value was written to are read back as the same sequence of primitive values, for every primitive, collection and serde format involved.',
  I, 'all values, byte streams and serde formats', 'Tests do not round-trip.', [CVS + 'mpc/block.rs'], [('StrictDecode', CVS)],
  na='The byte level of reading and writing lies in external crates (strict_encoding, amplify, serde and its formats), whose numeric formats no static argument in reach covers. The structural part, in this repository, is decided by C14, C38 and C41.')
p('N03', 'Any realistic set of protocols fits in a tree of practical depth',
  'For any set of distinct protocols up to the size limit the tree construction succeeds with a depth, time and memory use that stay practical.',
  I, 'all message sets', 'Tests sample random sets.', [CVS + 'mpc/tree.rs'], [('try_commit', CVS + 'mpc/tree.rs')],
  na='Whether and where a set fits depends on the numeric values of 256-bit residues; a static argument can not bound them. What the search does at each depth and cofactor is decided by C20 and C30.')
