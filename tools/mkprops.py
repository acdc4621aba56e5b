"""Writes /verif/properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p('P01', 'Value arithmetic is exact or an explicit overflow error',
  'Note values are exactly the unsigned 64-bit integers, and sums and differences of them are exact signed integers. An operation whose exact result lies outside the range of a signed value sum (magnitude at most 2^64-1), or does not fit the requested integer type, reports an overflow and never wraps, saturates or panics. Sign and magnitude of a value sum always recombine to it.',
  ['inputs'], 'all 64-bit note values, all value sums in range, all finite sequences of them',
  'unit tests sample random in-range values; the claim is about every value including both ends of the range and every sequence length',
  ['src/value.rs'], [('NoteValue', 'src/value.rs'), ('ValueSum and its Add, Sum, TryFrom implementations', 'src/value.rs')])
p('P02', "A bundle's declared value balance is exactly spends minus outputs",
  'When a bundle is built, its value balance equals the exact sum of the values of the notes spent minus the exact sum of the values of the notes created, in the caller\'s amount type. If that number or a partial sum cannot be represented, building fails with an error rather than producing a bundle with another balance. Changing the amount type of a finished bundle changes nothing else in it.',
  ['inputs', 'histories'], 'all sequences of added spends and outputs and all their values, up to overflow',
  'the existing builder test checks a couple of fixed bundles; overflow boundaries, empty bundles and mixed signs are unexplored',
  ['src/builder.rs', 'src/value.rs', 'src/bundle.rs'], [('Builder::value_balance', 'src/builder.rs'), ('bundle', 'src/builder.rs'), ('Bundle::try_map_value_balance', 'src/bundle.rs')])
p('P03', 'Value commitments are binding-key homomorphic',
  'A value commitment to v with trapdoor r is [v]V + [r]R for the two protocol generators, for every signed v and every r. Sums and differences of commitments and trapdoors correspond, so that for any bundle the binding verification key recomputed from its actions and balance is the one matching the sum of the trapdoors used. Encodings of commitments round-trip and reject non-canonical strings.',
  ['inputs'], 'all values with magnitude at most 2^64-1, all trapdoors, all numbers of actions',
  'the existing proptest samples up to 8 values with 1 family of trapdoors; it cannot cover sign handling at the boundaries or all lengths',
  ['src/value.rs', 'src/bundle.rs'], [('ValueCommitment::derive', 'src/value.rs'), ('ValueCommitTrapdoor arithmetic and into_bsk', 'src/value.rs'), ('Bundle::binding_validating_key', 'src/bundle.rs')])
p('P04', 'An action describes exactly the note spent and the note created',
  'An action assembled for a spent and a new note reveals the nullifier of the spent note, a note commitment of the new note, a value commitment to (spent value - new value), and the spend validating key randomized by the spend-auth randomizer. The new note\'s uniqueness input is the revealed nullifier, so an action cannot be re-linked to another spend. The attached ciphertexts are those of the new note and its memo under the sender\'s outgoing key and the recipient\'s address.',
  ['inputs'], 'all spends, outputs, memos and randomness',
  'round-trip tests exercise the assembled action only through a few random instances and never isolate each component against its definition',
  ['src/builder.rs', 'src/action.rs'], [('ActionInfo::build', 'src/builder.rs'), ('Action', 'src/action.rs')])
p('P05', 'The proof witness is the data of the action it proves',
  'The private witness given to the prover for an action contains exactly the spent note\'s recipient, value, uniqueness data, commitment, authentication path and position, the full viewing key data of the scope that owns the note, the spend-auth randomizer, the new note\'s data and the value commitment trapdoor of that same action. No component is taken from the other note or from another scope. A witness is only produced for a viewing key that owns the spent note. Creating a proof places exactly these values in the constraint system, each where its role requires, the net value as its magnitude and sign and every hashed message as the bits of its parts, so that a proof of a valid action can be created whatever its values are.',
  ['inputs'], 'all spends (either key scope), outputs, randomizers and trapdoors',
  'proving tests run one or two circuits; swapping internal and external scope material or old and new note data, or placing a wrong bit of a value in the circuit, only shows on particular inputs',
  ['src/circuit.rs'], [('Circuit::from_action_context', 'src/circuit.rs'), ('Circuit::synthesize', 'src/circuit.rs'), ('value_commit_orchard, derive_nullifier', 'src/circuit/gadget.rs'), ('commit_ivk', 'src/circuit/commit_ivk.rs'), ('note_commit and its decompositions', 'src/circuit/note_commit.rs')])
p('P06', 'The public inputs of a proof are the effects of the action',
  'The public inputs used to create and to verify a proof are, in the fixed order of the protocol, the anchor, both coordinates of the value commitment, the nullifier, both coordinates of the randomized key, the new note commitment and the two enable flags, each taken from that action or from the bundle it is in. Distinct action descriptions never yield equal public inputs. Producing them never fails or panics for any action that can be parsed.',
  ['inputs'], 'all actions with all flag combinations and anchors, identity points included',
  'tests verify proofs of honest actions only; degenerate points and reordered or dropped slots of rarely-set fields are not reached',
  ['src/circuit.rs', 'src/bundle.rs', 'src/action.rs'], [('Instance::to_halo2_instance', 'src/circuit.rs'), ('Instance::from_parts', 'src/circuit.rs'), ('Bundle::to_instances', 'src/bundle.rs')])
p('P07', 'Note commitments and note randomness follow the protocol definition',
  'The commitment of a note is the protocol\'s Sinsemilla commitment to its recipient\'s diversified base and transmission key, value, uniqueness input and psi, with trapdoor, psi and ephemeral secret expanded from its random seed and uniqueness input under the protocol\'s domain separators. Notes whose commitment is undefined can never be constructed, and random seeds giving a zero ephemeral secret are rejected. Equal extracted commitments mean equal encodings.',
  ['inputs'], 'all recipients, values, uniqueness inputs and random seeds',
  'test vectors fix a few notes; the claim covers every input and each individual field of the commitment',
  ['src/note.rs', 'src/note/commitment.rs', 'src/spec.rs'], [('Note::from_parts', 'src/note.rs'), ('Note::commitment', 'src/note.rs'), ('RandomSeed', 'src/note.rs'), ('NoteCommitment::derive', 'src/note/commitment.rs')])
p('P08', 'The nullifier of a note is the protocol derivation of note and key',
  'The nullifier of a note under a full viewing key is the x-coordinate of [PRF_nk(rho) + psi] K plus the note commitment, computed from that key\'s nullifier key and that note\'s data only. It depends on every part of the note through the commitment, so that it is the same for everyone holding the viewing key.',
  ['inputs'], 'all notes and full viewing keys',
  'test vectors cover a handful of notes; dropping or swapping a term on particular inputs would not show',
  ['src/note/nullifier.rs', 'src/note.rs', 'src/spec.rs'], [('Nullifier::derive', 'src/note/nullifier.rs'), ('Note::nullifier', 'src/note.rs')])
p('P09', 'Merkle paths compute the root the protocol defines',
  'The root computed from an authentication path and a note commitment hashes, at each of the 32 levels from the leaf, the current node with the sibling at that level, left or right according to that bit of the position, under the level-indexed protocol hash. Empty subtrees have the protocol\'s fixed roots and undefined hashes are replaced by zero. Anchors and node hashes have canonical encodings that round-trip.',
  ['inputs'], 'all leaves, positions, sibling values and levels',
  'tests use fixed trees of few leaves; positions with high bits set and arbitrary siblings are never reached',
  ['src/tree.rs'], [('MerklePath::root', 'src/tree.rs'), ('MerkleHashOrchard::combine', 'src/tree.rs'), ('empty roots', 'src/tree.rs')])
p('P10', 'All keys derive from the spending key as the protocol defines',
  'Spend authorizing, nullifier, commitment randomness, diversifier, incoming and outgoing viewing keys, external and internal, are the protocol\'s functions of the spending key, with the protocol\'s domain separation, and a spend validating key always has even y. Invalid keys (zero or undefined components) are rejected when parsed, so that no later derivation from an accepted key can fail. The same viewing key results whether derived from the spending key or decoded.',
  ['inputs'], 'all 32-byte spending keys, all 96-byte viewing keys, both scopes',
  'test vectors cover ten keys; the sign adjustment, the internal scope and rejection conditions depend on the input',
  ['src/keys.rs', 'src/spec.rs'], [('SpendAuthorizingKey::from', 'src/keys.rs'), ('FullViewingKey', 'src/keys.rs'), ('KeyAgreementPrivateKey::derive_inner', 'src/keys.rs')])
p('P11', 'Addresses are derived and recognised consistently for each scope',
  'The address at a diversifier index, or for a diversifier, under an incoming viewing key is the diversifier with the transmission key [ivk] of its diversified base. The index of an address is reported exactly when deriving that index gives that address back, and the scope of an address exactly when one of the two scopes of the key owns it. Raw address encodings round-trip and invalid ones are rejected.',
  ['inputs'], 'all keys, diversifier indices, diversifiers, addresses and both scopes',
  'unit tests check a few indices of one key; foreign addresses sharing a diversifier and internal addresses are hardly covered',
  ['src/keys.rs', 'src/address.rs'], [('IncomingViewingKey::diversifier_index', 'src/keys.rs'), ('FullViewingKey::scope_for_address', 'src/keys.rs'), ('Address raw encoding', 'src/address.rs')])
p('P12', 'Byte encodings are canonical: parse then serialize is the identity',
  'For every public type with a byte encoding, every byte string is either rejected or parsed to a value whose encoding is that same string, and every value\'s encoding parses to that value. Parsing untrusted bytes never panics. Reserved flag bits, non-canonical field elements and forbidden points are rejected.',
  ['inputs'], 'all byte strings of the type\'s length and all values of the type',
  'tests round-trip random valid values; non-canonical and boundary strings are hardly tried',
  ['src/keys.rs', 'src/address.rs', 'src/note.rs', 'src/note/nullifier.rs', 'src/note/commitment.rs', 'src/value.rs', 'src/tree.rs', 'src/bundle.rs', 'src/spec.rs'],
  [('from_bytes and to_bytes pairs', 'src/keys.rs, src/note.rs, src/value.rs, src/tree.rs'), ('Flags::from_byte', 'src/bundle.rs')])
p('P13', 'Note plaintexts are encoded and validated as the protocol requires',
  'A note plaintext is the lead byte 2, diversifier, little-endian value, random seed and 512-byte memo, in that order, and decoding accepts exactly plaintexts with that lead byte whose fields yield a valid note. A decrypted note is only accepted when its seed reproduces the ephemeral key of the action and its commitment matches. The memo is returned unchanged and outgoing plaintexts are the transmission key followed by the ephemeral secret.',
  ['inputs'], 'all plaintext strings, actions, keys and notes',
  'test vectors decrypt ten fixed ciphertexts; malformed plaintexts and each boundary between fields are not explored',
  ['src/note_encryption.rs'], [('orchard_parse_note_plaintext_without_memo', 'src/note_encryption.rs'), ('OrchardDomain', 'src/note_encryption.rs')])
p('P14', 'Note-encryption key material follows the protocol derivations',
  'The shared secret of sender and recipient is the same point, and the symmetric key is the protocol hash of that point and the ephemeral key. The outgoing cipher key is the protocol PRF of the outgoing viewing key, value commitment, note commitment and ephemeral key, in that order. Batched derivation returns for every position what the single derivation returns there, with invalid ephemeral keys left out without shifting the others.',
  ['inputs'], 'all keys, ephemeral keys, commitments and batches with any pattern of invalid entries',
  'test vectors cover single derivations; batches with invalid entries in arbitrary positions are not tested',
  ['src/note_encryption.rs', 'src/keys.rs', 'src/spec.rs'], [('prf_ock_orchard', 'src/note_encryption.rs'), ('SharedSecret', 'src/keys.rs'), ('BatchDomain for OrchardDomain', 'src/note_encryption.rs')])
p('P15', 'Scanning a bundle returns exactly what each key can decrypt, by position',
  'Decrypting or recovering all outputs of a bundle with a list of keys returns, for each action in order, the note, address and memo that single-output decryption of that action returns with the first key of the list that succeeds, paired with the index of the action, and nothing else. Asking for one action by index gives the same result as the whole-bundle scan, and an index outside the bundle gives nothing.',
  ['inputs'], 'all bundles, key lists and action indices',
  'the existing tests decrypt single outputs; multi-key, multi-action indexing is sampled once',
  ['src/bundle.rs'], [('Bundle::decrypt_outputs_with_keys', 'src/bundle.rs'), ('Bundle::recover_outputs_with_ovks', 'src/bundle.rs')])
p('P16', 'The bundle commitment covers every effecting field exactly once',
  'The transaction-id digest of a bundle is the protocol\'s (ZIP 244) hash tree over, for all actions in order, nullifier, commitment, ephemeral key and ciphertext pieces, value commitment, randomized key and outgoing ciphertext, and then the flags, value balance and anchor. It depends on none of the authorizing data, and the digest of an empty bundle is the protocol\'s constant. Any two bundles with different effecting data hash different preimages.',
  ['inputs'], 'all bundles, any number of actions',
  'no test in the repository pins this digest on multi-action bundles field by field',
  ['src/bundle/commitments.rs', 'src/bundle.rs'], [('hash_bundle_txid_data', 'src/bundle/commitments.rs'), ('Bundle::commitment', 'src/bundle.rs')])
p('P17', 'The authorizing commitment covers proof and every signature',
  'The authorizing digest of a bundle is the protocol\'s hash of the proof bytes, every action\'s spend authorization signature in order, and the binding signature. It does not depend on anything else, and the digest for an absent bundle is the protocol\'s constant.',
  ['inputs'], 'all authorized bundles, any number of actions, any proof length',
  'no test covers bundles with several actions field by field',
  ['src/bundle/commitments.rs', 'src/bundle.rs'], [('hash_bundle_auth_data', 'src/bundle/commitments.rs'), ('Bundle::authorizing_commitment', 'src/bundle.rs')])
p('P18', 'A bundle is authorized only with a correct signature for every spend',
  'Signing fills exactly the spends whose validating key matches the given key with signatures over the transaction digest under the key randomized for that action, dummy spends are signed with their own key, and the binding signature is made with the bundle\'s binding key over the same digest. Externally supplied signatures are attached to the one action they verify for and are otherwise rejected: none matching is an invalid signature, more than one match is a duplicate. A bundle becomes fully authorized only when no signature is missing.',
  ['inputs', 'histories'], 'all bundles, sets of signing keys and external signatures in any order',
  'tests sign one bundle with one key; missing, foreign and duplicate signatures over arbitrary action patterns are not covered',
  ['src/builder.rs'], [('Bundle::prepare, sign, append_signature, finalize', 'src/builder.rs')])
p('P19', 'Batch validation accepts only if every proof and signature is checked',
  'Adding a bundle to a batch adds its proof with all its public inputs and, for the given digest, each action\'s spend authorization signature under that action\'s randomized key and the binding signature under the bundle\'s binding key. Validation succeeds only if all of those verify; an empty batch succeeds.',
  ['inputs', 'histories'], 'all sequences of bundles and digests',
  'the repository has no test of a batch containing an invalid member in each position and of each kind',
  ['src/bundle/batch.rs', 'src/bundle.rs', 'src/circuit.rs'], [('BatchValidator::add_bundle', 'src/bundle/batch.rs'), ('BatchValidator::validate', 'src/bundle/batch.rs')])
p('P20', 'The builder enforces anchors, flags, padding and key ownership',
  'A spend is accepted only if spends are allowed, its viewing key owns the note and its path leads to the builder\'s anchor (zero-valued notes excepted from the anchor rule); an output only if outputs are allowed; coinbase bundles contain no real spends and transactional bundles are padded to at least two actions, more if spends or outputs require it. Disabled parts of a built bundle contain only dummies. A bundle that is not required and has no requests is not built, and the flags and anchor of a built bundle are those of the builder.',
  ['inputs', 'histories'], 'all bundle types, flags, anchors and sequences of requests',
  'tests cover a few valid builder sequences and one or two error cases',
  ['src/builder.rs'], [('Builder::add_spend, add_output', 'src/builder.rs'), ('BundleType', 'src/builder.rs'), ('bundle', 'src/builder.rs'), ('SpendInfo', 'src/builder.rs')])
p('P21', 'Shuffling loses nothing: metadata locates each request in the bundle',
  'Every requested spend and every requested output appears in exactly one action of the built bundle, whatever the shuffle. The metadata maps the i-th requested spend and the i-th requested output to the index of the action that contains it, and maps nothing else.',
  ['inputs', 'schedules'], 'all request lists and every outcome of the random shuffle',
  'one test checks one shuffle; the claim is for every permutation and request count',
  ['src/builder.rs'], [('bundle', 'src/builder.rs'), ('BundleMetadata', 'src/builder.rs')])
p('P22', 'Hierarchical derivation follows ZIP 32 with hardened indices only',
  'Master and child extended spending keys are the protocol\'s hash derivations of seed, parent key and hardened index; depth, parent tag and child index are recorded exactly. Deriving along a path is deriving each index in turn, and an out-of-range coin type, or a key that is invalid, is reported as an error rather than truncated or replaced. Account keys use the path purpose 32, coin type, account.',
  ['inputs', 'histories'], 'all seeds, coin types, accounts and derivation paths',
  'test vectors pin one seed and path; the boundary and error behaviour over all inputs is not covered',
  ['src/zip32.rs', 'src/keys.rs'], [('ExtendedSpendingKey', 'src/zip32.rs'), ('SpendingKey::from_zip32_seed', 'src/keys.rs')])
p('P23', 'The Action circuit is satisfied exactly by valid action witnesses',
  'The proving system\'s constraints are satisfiable for given public inputs exactly when there are notes, keys, path and randomness meeting the protocol\'s action statement. No assignment outside the statement satisfies them.',
  ['inputs'], 'all witnesses and public inputs',
  'tests prove a few honest witnesses; soundness is a claim about all dishonest assignments',
  ['src/circuit.rs', 'src/circuit/note_commit.rs', 'src/circuit/commit_ivk.rs'], [('Circuit::synthesize', 'src/circuit.rs'), ('NoteCommitChip', 'src/circuit/note_commit.rs'), ('CommitIvkChip', 'src/circuit/commit_ivk.rs')])
p('P24', 'Proofs cover every action of the bundle, in order',
  'Creating a proof for a bundle proves one circuit per action with that action\'s public inputs, in bundle order, and verifying checks the proof against the public inputs of all actions of the bundle. A bundle whose number of circuits and public inputs differ, or whose proof does not verify, is reported as an error and is never accepted.',
  ['inputs'], 'all bundles with any number of actions',
  'tests prove and verify bundles of two actions; dropping or reordering inputs of further actions would not show',
  ['src/circuit.rs', 'src/builder.rs', 'src/bundle.rs'], [('Proof::create, Proof::verify', 'src/circuit.rs'), ('Bundle::create_proof', 'src/builder.rs'), ('Bundle::verify_proof', 'src/bundle.rs')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
