import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
T="commit_verify/src/mpc/tree.rs";B="commit_verify/src/mpc/block.rs";A="commit_verify/src/mpc/atoms.rs";M="commit_verify/src/merkle.rs";I="commit_verify/src/id.rs"
p("C01","Every committed message opens against the multi-message commitment",
 "For every set of protocol/message pairs for which a multi-message tree can be built, the tree, the full block derived from it, and the inclusion proof of every single protocol combined with that protocol's own message all yield one and the same commitment. No committed message is ever unprovable.",
 ["inputs"],"all protocol ids, messages, entropies, occupancies, depths and cofactors of a tree, within the stated tree depth",
 "The tests build a handful of random trees with protocol ids that only fill the low 128 bits and never compare a proof's commitment with the tree's; they cannot cover every placement of leaves.",
 [T,B,M],[("MerkleTree::root",T),("MerkleBlock::from(&MerkleTree)",B),("MerkleProof::convolve / MerkleBlock::with",B)],["MerkleTree::commit_id","MerkleBlock::commit_id","MerkleProof::convolve"])
p("C02","One commitment never opens to two messages under one protocol",
 "Assuming the hash function is collision-free, no two inclusion proofs - however crafted - that are accepted for the same protocol id can produce the same commitment from two different messages. Nor can a crafted proof make a commitment of a tree open to a message the tree does not hold under that protocol.",
 ["inputs"],"all pairs of decoded proofs (any path, position, cofactor), protocol ids and messages, per proof depth up to the stated bound",
 "A binding property quantifies over all forged proofs; the tests only check honest proofs, and no test contains a forgery attempt at all.",
 [B,M,A],[("hash preimage of MerkleNode commits to branching, depth, width and both children",M),("MerkleConcealed commits to depth, cofactor, root",B),("Leaf tags differ from node tags",A)],["MerkleProof::convolve","MerkleBlock::commit_id"])
p("C03","A proof is accepted only at the slot its protocol id determines",
 "An inclusion proof is accepted for a protocol exactly when its position equals the protocol id, read as a 256-bit little-endian number, modulo max(1, 2^depth - cofactor) (with the subtraction stopping at zero). Otherwise it is refused with an error that names the protocol, the expected position, the actual position and the tree width; the slot is always smaller than 2^depth and is the same whether asked from a tree or from a block.",
 ["inputs"],"all 256-bit protocol ids, all 16-bit cofactors, all 32-bit positions and every depth 0..31",
 "Tests never present a proof with a wrong position or a cofactor above the width, and sample a few of 2^256 protocol ids.",
 [T,B],[("protocol_id_pos",T),("position check in MerkleBlock::with",B)],["MerkleProof::convolve","MerkleBlock::protocol_id_pos","MerkleTree::protocol_id_pos"])
p("C04","Multi-message commitments have the standard LNPBP-4 value",
 "The commitment of a tree, of a block in any state of concealment, or of a proof opened with a message equals the tagged hash of (depth, cofactor, merkle root), where the root is the LNPBP-81 merklization of exactly 2^depth leaves: the protocol/message pair in each occupied slot, and a hash of the entropy value and slot number in every empty slot. The value depends on nothing else.",
 ["inputs"],"all leaf contents, entropies, cofactors and occupancies up to the stated depth; all proofs up to depth 31",
 "No test pins the numeric value of any MPC commitment, so a change of preimage layout, tag, width or entropy use passes all tests while breaking every deployed commitment.",
 [T,B,M,A],[("MerkleTree::root",T),("Leaf::commit_id",A),("MerkleHash::branches",M),("MerkleConcealed::commit_id",B)],["MerkleTree::commit_id","MerkleTree::root","MerkleBlock::commit_id"])
p("C05","Tree construction is first-fit, complete and deterministic",
 "Given a message set, a minimal depth and a fixed entropy, building a tree either fails (only for an empty set with zero minimal depth or when no allowed size fits) or returns a tree that keeps every message unchanged in its own slot, with no two protocols sharing a slot, the requested entropy, and the smallest depth not below the minimum and at that depth the smallest cofactor for which no two protocols collide. Building twice gives the same tree; without a fixed entropy the only thing that may differ is the entropy, which then is whatever the random source delivered.",
 ["inputs"],"all protocol ids (stated number of symbolic bits), messages, entropies and minimal depths for the stated number of messages",
 "Tests use random ids and check only that building succeeds; whether an earlier cofactor or depth would have fitted, or an entry was lost, is never compared.",
 [T,A],[("MerkleTree::try_commit",T),("protocol_id_pos",T)],["TryCommitVerify::try_commit","strict serialization of the tree"])
p("C06","Concealing never changes a block's commitment",
 "Whatever subset of the revealed protocols of a block is kept, and however many times and in whatever order concealing is repeated, the block's commitment, depth and cofactor stay the same - also when the request fails because a protocol is not known. Fully concealing a block or a tree gives the same (depth, cofactor, root) triple.",
 ["inputs","histories"],"all subsets of leaves kept, all leaf contents, two successive concealments, up to the stated depth",
 "Test code conceals only down to one or zero leaves of small random trees; the aggregation loop's behaviour depends on the geometry of the kept subset, of which there are 2^(2^depth).",
 [B],[("MerkleBlock::conceal_except",B),("Conceal for MerkleBlock / MerkleTree",B)],["MerkleBlock::commit_id","Conceal::conceal"])
p("C07","Concealing hides everything but what was asked to stay",
 "After successfully concealing all but a chosen set of protocols, the block reveals exactly the chosen protocols with their original messages; no other protocol id or message and no entropy value remains in it, and every subtree without a kept leaf is represented by one single hash. Asking to keep a protocol which the block does not reveal is refused, naming such a protocol.",
 ["inputs"],"all subsets of leaves kept and all leaf contents up to the stated depth, starting from full or already partially concealed blocks",
 "The tests never inspect what is left inside a concealed block; a leak of an undisclosed leaf or sibling hash would stay unnoticed.",
 [B],[("MerkleBlock::conceal_except",B)],["strict serialization of the block","MerkleBlock::to_known_message_map","MerkleBlock::entropy"])
p("C08","Merging disclosures yields exactly their union",
 "Merging two blocks of the same commitment succeeds and gives a block with the same commitment that reveals exactly the union of both message sets, independently of which one is merged into the other, and merging a block with itself or with a part of itself changes nothing. If both blocks were results of concealing, the merged block is again in canonical form (every subtree without a revealed leaf is one hash). Merging a block or an opened proof of a different commitment is refused as unrelated and leaves the base untouched.",
 ["inputs","histories"],"all pairs of revealed subsets of one tree up to the stated depth, deep pairs of proofs up to depth 31, all leaf contents",
 "One test merges proofs of one random tree in one order; the interleaving logic depends on both cross-section geometries, and refusals are never tested.",
 [B,M],[("MerkleBlock::merge_reveal / merge_reveal_path",B),("MerkleBuoy",M)],["MerkleBlock::merge_reveal","MerkleBlock::merge_reveal_path"])
p("C09","Proof and single-leaf block are interchangeable",
 "Extracting the proof of a revealed protocol from a full, partially concealed or merged block always gives the same proof, whose position, cofactor, method and depth are those of the tree; and rebuilding a block from that proof with the protocol's message gives exactly the block obtained by concealing everything else. Asking for a proof of a protocol which is not revealed is refused.",
 ["inputs"],"all trees, occupancies and revealed subsets up to the stated depth; all proofs up to depth 31 in the rebuild direction",
 "No enabled test compares rebuilt blocks with concealed ones (the old test file is not compiled).",
 [B],[("MerkleBlock::into_merkle_proof / to_merkle_proof / into_known_proofs",B),("MerkleBlock::with",B),("MerkleTree::into_proofs",T)],["MerkleProof fields","MerkleBlock equality"])
p("C10","Merklization follows LNPBP-81 for every number of leaves",
 "The merkle root of a list or set of leaves equals: the leaf's own hash for one leaf; otherwise the tagged hash tree in which a node splits its n leaves into the first ceil(n/2) and the rest, nodes with zero, one and two children are marked as such with virtual 0xFF leaves as placeholders, and every node commits to its depth and to the total number of leaves. Leaf order matters and the size limit of the collection type does not.",
 ["inputs"],"all leaf values for every leaf count up to the stated bound, for the vector and set collection types",
 "Only power-of-two counts are ever exercised (through MPC trees), and no value is pinned.",
 [M],[("MerkleHash::merklize / _merklize",M),("MerkleHash::void / single / branches",M)],["MerkleHash::merklize"])
p("C11","A merkle root binds the exact sequence of leaves",
 "Assuming the hash function is collision-free, two leaf lists have the same merkle root only if they have the same length and the same leaves in the same order. Two distinct nodes (differing in kind, depth, width or any child) never have the same hash. (For leaves whose serialization can't be that of a merkle node, as is the case for multi-message leaves.)",
 ["inputs"],"all pairs of leaf lists with lengths up to the stated bound, all pairs of nodes",
 "Second-preimage style properties quantify over all pairs of inputs; no test compares roots of related lists.",
 [M,A],[("MerkleNode commit encoding",M),("_merklize",M)],["MerkleHash::merklize","MerkleNode::commit_id"])
p("C12","Commitment ids hash the tag and every committed part, in order",
 "A commitment id is the SHA-256 hash of the tag's hash twice followed by the strict serialization of every committed part in the order in which the parts were committed - values, options, lists, sets and maps as their serialization, hashed parts as their 32-byte hash, merklized parts as their merkle root and concealed parts as the serialization of their concealed form. Consequently two values of a type differing in any committed part, or the same parts under different tags, never share an id (assuming a collision-free hash).",
 ["inputs"],"all values of the committed parts (collections up to the stated size), every kind of commitment step",
 "Derive tests pin seven concrete values; collections, options, hashes, merklized and concealed steps are not exercised with varied contents at all.",
 [I,"commit_verify/src/digest.rs"],[("CommitEngine::commit_to_*",I),("CommitId::commit_id",I),("DigestExt::from_tag","commit_verify/src/digest.rs")],["CommitId::commit_id","CommitEngine::finish"])
p("C13","Commitment layout records the steps actually performed",
 "For every commitment, the layout lists one entry per committed part, in commit order, with the part's kind, its fully qualified type name (key and value type for maps) and, for collections, the size limits of the collection type; it does not depend on the values. The layout of a type names its commitment id type and uses its tag.",
 ["inputs"],"all values and all orders of the kinds of commitment steps up to the stated length",
 "No test looks at a layout; only the generated type library id is pinned.",
 [I,"commit_verify/src/vesper.rs"],[("CommitEngine::layout",I),("CommitmentLayout::commitment_layout",I),("CommitLayout::to_vesper","commit_verify/src/vesper.rs")],["CommitEngine::into_layout","CommitmentLayout::commitment_layout","CommitLayout::to_vesper"])
p("C14","Length-prefixed hashing is unambiguous",
 "Feeding data with a declared maximum size into a hash feeds its little-endian length - in 1, 2, 3 or 4 bytes according to the declared maximum - followed by the data itself, and a tagged hasher starts from the tag's hash fed twice, for both supported hash functions. So two different sequences of chunks fed with the same declared maxima never produce the same hash input.",
 ["inputs"],"all chunk lengths and contents up to the stated size for each of the four prefix widths and both hash functions",
 "The only user in the tests uses one 4-byte prefix with messages of a few fixed lengths.",
 ["commit_verify/src/digest.rs"],[("DigestExt::input_with_len / input_raw / from_tag / finish","commit_verify/src/digest.rs")],["DigestExt::finish"])
p("C15","Consensus serialization is lossless, fixed and canonical",
 "Every multi-message and merkle structure survives serialization followed by deserialization unchanged, is serialized in the field order, widths and tags published in the type library, and any byte string that deserializes at all re-serializes to exactly those bytes. Byte strings with an out-of-range depth, an unknown method, unknown tags, an empty cross-section or missing data are refused with an error and never crash.",
 ["inputs"],"all values of the structures and all byte strings up to the stated number of nodes/path elements/map entries",
 "There is not a single serialization round-trip test in the repository; only the type library id is checked.",
 [A,B,T,M],[("StrictEncode / StrictDecode of the MPC and merkle types","commit_verify/src/mpc")],["StrictEncode::strict_write","StrictDecode::strict_read"])
p("C16","Verifying an untrusted inclusion proof never crashes",
 "For every byte string (or serde representation) that deserializes to an inclusion proof, every protocol id and every message, all operations a verifier performs on it (opening it to a commitment, rebuilding a block, reading depth and width, merging into an existing block) return a result or an error and never panic.",
 ["inputs"],"all decodable proofs with every path length up to the 32 the format admits, all positions and cofactors",
 "Proofs in tests all come from the library itself; hostile lengths, positions and cofactors are not tried.",
 [B,T],[("MerkleBlock::with",B),("MerkleProof::depth/width_limit/factored_width",B)],["MerkleProof::convolve","MerkleBlock::merge_reveal_path","MerkleProof::depth"])
p("C17","Verifying an untrusted block never crashes",
 "For every byte string (or serde representation) that deserializes to a multi-message block, computing its commitment, concealing it, extracting a proof from it, listing its messages and merging it into another block return a result or an error and never panic; nodes which do not form a cross-section of a tree of the given depth are refused at deserialization.",
 ["inputs"],"all decodable blocks up to the stated number of cross-section nodes",
 "Blocks in tests are all well-formed ones made by the library; nothing exercises a hostile cross-section.",
 [B],[("MerkleBlock::conceal_except / conceal / merge_reveal",B)],["MerkleBlock::commit_id","MerkleBlock::merge_reveal","MerkleBlock::conceal_except","MerkleBlock::to_merkle_proof"])
p("C18","A plain commitment verifies exactly its own message",
 "Verification of a commitment succeeds if and only if committing to the presented message again gives an equal commitment; a mismatch is reported as an invalid commitment, and a message for which no commitment can be created is reported as an invalid message. Verification has no other outcome.",
 ["inputs"],"all commitment values, all messages and all commitment functions (modelled as arbitrary functions, with arbitrary failures)",
 "The default verification is generic over user implementations; tests use none with a failing commit function.",
 ["commit_verify/src/commit.rs"],[("CommitVerify::verify","commit_verify/src/commit.rs"),("TryCommitVerify::verify","commit_verify/src/commit.rs")],["CommitVerify::verify","TryCommitVerify::verify"])
p("C19","An embedded commitment verifies only if re-embedding reproduces it",
 "Verification of an embedded commitment succeeds if and only if the original container can be restored from the proof, the message can be embedded into it again, and both the proof and the container obtained this way are equivalent to the presented ones. Failures are distinguished: unrestorable container (the error of the restoration), non-embeddable message (invalid message, with the cause), non-reproduced proof (proof mismatch), differing container (commitment mismatch), in this order of precedence; in particular every honestly produced commitment verifies with its own proof and message.",
 ["inputs"],"all containers, messages and proofs for arbitrary user-defined restore/embed functions (modelled as arbitrary functions with arbitrary failures and arbitrary equivalence relations)",
 "The one test implementation never fails, uses plain equality, and can distinguish only two of the outcomes.",
 ["commit_verify/src/embed.rs"],[("EmbedCommitVerify::verify","commit_verify/src/embed.rs"),("VerifyEq","commit_verify/src/embed.rs")],["EmbedCommitVerify::verify"])
p("C20","A convolved commitment verifies only if re-committing reproduces it",
 "Verification of a convolved commitment succeeds if and only if committing to the presented message again, from the original restored out of the presented commitment and with the supplement held by the proof, succeeds and gives a proof and a commitment equivalent to the presented ones. A message that can't be committed to, a differing proof and a differing commitment are reported as impossible message, invalid proof and commitment mismatch, in this order of precedence.",
 ["inputs"],"all sources, supplements, messages, proofs and commitments for arbitrary user-defined functions",
 "The one test implementation ignores the source, never fails and returns the supplement as the proof, so proof comparison and error paths are never exercised.",
 ["commit_verify/src/convolve.rs"],[("ConvolveCommitProof::verify","commit_verify/src/convolve.rs")],["ConvolveCommitProof::verify"])
p("C21","A seal closing is accepted only if every seal and the publication agree",
 "Verification of a witness for a list of single-use seals and a message succeeds if and only if every listed seal is included in the witness for that very message, the client-side witness can be convolved with the message, and the published witness confirms exactly the proof so obtained. The error identifies the first seal not included together with the publication id, or passes on the client-side or publication error unchanged; single-seal verification is the same as verification of a one-element list.",
 ["inputs"],"all lists of seals up to the stated length, all inclusion/convolution/publication outcomes of arbitrary seal protocols",
 "The seals crate has no tests at all.",
 ["single_use_seals/src/lib.rs"],[("SealWitness::verify_seals_closing / verify_seal_closing","single_use_seals/src/lib.rs"),("NoWitness","single_use_seals/src/lib.rs")],["SealWitness::verify_seals_closing","SealError"])
p("C22","Client-side validation visits every item and loses no report",
 "Validating client-side data returns a status holding, in visiting order, every failure, warning and info reported by the consistency check of the data and of each of its items, and exactly one seal issue for each seal of each item that the resolver could not resolve. Every seal of every item is presented to the resolver exactly once, in order, and no reported problem stops the rest of the validation.",
 ["inputs","histories"],"all data hierarchies up to the stated number of items, seals and reports, and every pattern of (stateful) resolver answers",
 "The umbrella crate has no tests.",
 ["src/api.rs"],[("ClientSideValidate::client_side_validate","src/api.rs"),("Status += Status","src/api.rs")],["ClientSideValidate::client_side_validate"])
p("C23","Validity verdict is exact and merging reports can't improve it",
 "A status is valid only and only if it contains neither failures nor seal issues; it is invalid exactly when it contains a failure, and has seal issues exactly when it contains seal issues but no failure; warnings and infos never matter. Merging statuses concatenates all four logs in order without loss, so a merged verdict is never better than that of either part, and each adding operation appends to exactly one log.",
 ["inputs","histories"],"all statuses with logs up to the stated length and all sequences of adding operations up to the stated length",
 "The umbrella crate has no tests.",
 ["src/api.rs"],[("Status::validity","src/api.rs"),("Status::add_* / from_failure / from_iter / +=","src/api.rs")],["Status::validity","Status fields"])
p("C24","Reserved bytes carry nothing but their reserved value",
 "A reserved-bytes field deserializes only from its reserved value - any other byte string of that length, whatever and wherever it differs, is refused with a data integrity error - and constructing it from a different array is refused; so a reserved field obtained in any way serializes to exactly the reserved bytes and takes part in commitments as such.",
 ["inputs"],"all byte arrays for the stated lengths and reserved values",
 "No test exercises reserved bytes apart from the type library listing.",
 ["commit_verify/src/lib.rs"],[("StrictDecode for ReservedBytes","commit_verify/src/lib.rs"),("From<[u8; LEN]> for ReservedBytes","commit_verify/src/lib.rs")],["StrictDecode::strict_read","StrictEncode::strict_write","CommitId::commit_id"])
p("C25","Subtree depth tracking surfaces exactly at complete subtrees",
 "When the nodes of a binary tree's cross-section are pushed left to right after its first node, the tracker reports as its level the depth of the largest complete subtree ending at the last pushed node inside the one being tracked, and reports surfacing exactly when the pushed node completes a larger subtree than before. Pushing a zero depth changes nothing.",
 ["inputs","histories"],"all cross-sections (sequences of node depths) of subtrees up to the stated height",
 "The tracker has no test of its own; merging tests reach only a few shapes.",
 [M],[("MerkleBuoy::push / level",M)],["MerkleBuoy::push","MerkleBuoy::level"])
p("C26","Derived commitment encodings commit to what their strategy names",
 "A type deriving its commitment encoding commits to its full strict serialization under the strict strategy, to the serialization of its inner value under the transparent strategy, to its concealed form under the conceal strategy and to its merkle root under the merklize strategy, always under the tag of the declared commitment id type; it does so for structs, tuples and enums and any field values.",
 ["inputs","programs"],"all field values of sample structs, tuple structs, enums, wrappers, generics and collections for each of the four strategies",
 "Derive tests pin single values, and the merklize strategy test is commented out.",
 ["commit_verify/derive/src/derive.rs","commit_verify/derive/src/params.rs",I],[("CommitDerive::derive_encode","commit_verify/derive/src/derive.rs"),("StrategyAttr","commit_verify/derive/src/params.rs")],["CommitId::commit_id of derived types"])
p("C27","Proof matching means same commitment",
 "Two trees, or two blocks, match each other exactly when they have the same commitment, whatever part of the messages each of them reveals. Two inclusion proofs match when they belong to the same tree, and do not match when they belong to trees with different roots or cofactors.",
 ["inputs"],"all pairs of trees, blocks and proofs up to the stated depth",
 "No test calls the matching operation.",
 [T,B],[("Proof::matches",B),("Proof::matches for MerkleTree",T)],["Proof::matches"])
p("C28","What a block says it reveals is exactly what it reveals",
 "The list of known protocols of a block, its known message map and its list of known proofs contain exactly the protocol/message pairs revealed by its leaves, each once; every listed proof opens with its message to the block's commitment. Protocols which are concealed or absent are never listed.",
 ["inputs"],"all trees, occupancies and revealed subsets up to the stated depth",
 "No test queries a block's known protocols, messages or proofs.",
 [B,T],[("MerkleBlock::known_protocol_ids / to_known_message_map / into_known_proofs",B),("MerkleTree::into_proofs",T)],["MerkleBlock::known_protocol_ids","MerkleBlock::to_known_message_map","MerkleBlock::into_known_proofs"])
p("C29","Serde representations are lossless",
 "Every structure offering serde support - multi-message atoms, proofs, blocks, concealed trees, hashes, errors, validation status, seal witnesses and reserved bytes - deserializes from its own serialized form to an equal value, for any values of its fields.",
 ["inputs"],"all values of the structures up to the stated sizes, over a self-contained binary serde format",
 "No test enables serde serialization of any structure.",
 [A,B,M,"commit_verify/src/lib.rs","src/api.rs","single_use_seals/src/lib.rs"],[("derive(Serialize, Deserialize) attributes","commit_verify/src/mpc"),("Serialize/Deserialize for ReservedBytes","commit_verify/src/lib.rs")],["serde::Serialize","serde::Deserialize"])
p("C30","Ids and hashes survive every text and byte form",
 "Protocol ids, messages, commitments, merkle hashes and strict hashes are shown as 64 lowercase hexadecimal digits in the order of their bytes (uppercase in the uppercase form) and are parsed back from them unchanged; a text is accepted exactly when it consists of 64 hexadecimal digits of any case, and a byte slice exactly when it has 32 bytes, with an error telling both lengths otherwise - never a panic. Their equality and order are those of their bytes, and construction from and conversion to bytes never reorder or lose anything.",
 ["inputs"],"all byte values at all positions, all characters at all positions of a text, all slice lengths up to the stated bound, all pairs of values",
 "Tests only ever parse valid literals.",
 [A,M,I],[("wrapper derives of ProtocolId, Message, Commitment, MerkleHash, StrictHash",A),("copy_from_slice",A)],["Display","FromStr","copy_from_slice","Ord"])
p("C31","A rendered commitment layout shows what is committed to, in order",
 "The rendering of a commitment layout names the id type, the hash function and the tag, and has exactly one entry per committed part, in the order of commitment: each with the kind of commitment (serialized, hashed, merklized, concealed, list, set, map) and the name of the committed type, with the size limits for collections, the concealed type for concealed parts, and the element type or the key and value types for collections. The text form prints one line per entry with the same contents.",
 ["inputs","programs"],"all sequences of committed parts up to the stated length, out of twenty kinds with any values",
 "Tests never render a layout; the layout of a type is its only reviewable specification.",
 ["commit_verify/src/vesper.rs",I],[("CommitLayout::to_vesper","commit_verify/src/vesper.rs"),("Attr::name / value","commit_verify/src/vesper.rs"),("CommitmentLayout::commitment_layout",I)],["CommitLayout::to_vesper","CommitLayout::to_string"])
p("C32","Error reports name what failed",
 "The text of an error names its subject: a seal which is not included and the publication; the protocol, both positions and the width of a proof with a wrong position; an unknown protocol; the commitments of both unrelated blocks, each in its role; the number of messages which can't be committed to. Errors of the publication and of the client-side witness are passed on with their own text and as the source of the report, distinct errors of a commitment scheme have distinct texts, and a validity verdict is shown as what it is.",
 ["inputs"],"all values of the named parties and all kinds of errors",
 "No test reads an error text or source.",
 ["single_use_seals/src/lib.rs",B,T,"commit_verify/src/embed.rs","commit_verify/src/convolve.rs","src/api.rs"],[("Display / Error for SealError","single_use_seals/src/lib.rs"),("MergeError, InvalidProof, LeafNotKnown",B),("mpc::Error",T)],["Display","Error::source"])
p("C33","A seal witness survives consensus serialization",
 "A seal witness is serialized as its published part followed by its client-side part and nothing else; deserialization gives back both parts unchanged, refuses incomplete and excessive data, and accepts exactly one serialization per witness. A deserialized witness closes exactly the seals the original one closes.",
 ["inputs"],"all values of a witness of a sample seal type, all byte strings up to the stated length",
 "The seals crate has no tests at all.",
 ["single_use_seals/src/lib.rs"],[("derive(StrictEncode, StrictDecode) for SealWitness","single_use_seals/src/lib.rs")],["StrictEncode::strict_encode","StrictDecode::strict_decode","SealWitness::verify_seals_closing"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
