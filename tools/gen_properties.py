#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=obs or [],hook_needed=hook)))
CL='libursa/src/cl/'
p('C01','Anonymous-credential issuance completes exactly on one consistent run',
 'The issuer signs blinded secrets only if their correctness proof is valid for the issuer key and the nonce it handed out, and the holder accepts an issued signature only if it and its proof are valid for that same key, the holder\'s nonce, its blinding factors and exactly the credential values (and revocation index and registry) the issuer signed. Every other combination of objects from different runs is refused with an error, not accepted and not a crash. A refused message changes nothing: retrying with the right objects afterwards still succeeds.',
 ['inputs','histories'],'every combination of keys, nonces, blinded secrets, signatures, proofs and values taken from up to several interleaved issuance runs, with and without revocation, hidden and committed attributes',
 'tests run one straight-line issuance (and a handful of single mismatches); they never mix objects of several runs systematically nor retry after a refusal',
 [CL+'issuer.rs',CL+'prover.rs',CL+'helpers.rs'],
 [('blinded secrets correctness proof check','Issuer::_check_blinded_credential_secrets_correctness_proof'),('signature correctness proof check','Prover::_check_signature_correctness_proof'),('r credential check','Prover::_test_witness_signature')],
 [('v / vr','blinding exponents that the holder folds into its signature','Prover::process_credential_signature')],
 ['Issuer::sign_credential','Issuer::sign_credential_with_revoc','Prover::process_credential_signature'])
p('C02','A presentation is accepted iff it proves exactly what was requested',
 'The verifier accepts a presentation iff, for each requested sub proof, the prover used a credential signed under the key the verifier holds, revealed exactly the requested attributes with the values the issuer signed, and built the proof for the verifier\'s nonce. Replaying it with another nonce, schema, key, request or order of credentials is not accepted. Whatever is revealed in an accepted presentation is the issuer-signed value.',
 ['inputs','configurations'],'all request shapes over a schema (subsets revealed, number of credentials), values including zero, small and 256-bit, and all pairings of presentation and verification context',
 'tests cover a few fixed schemas and requests with one correct context each',
 [CL+'prover.rs',CL+'verifier.rs',CL+'helpers.rs'],
 [('aggregated Fiat-Shamir challenge','ProofVerifier::verify / ProofBuilder::finalize'),('recomputed T value','ProofVerifier::_verify_equality'),('request check','ProofVerifier::_check_verify_params_consistency')],
 None,['ProofVerifier::verify'])
p('C03','Integer predicates are accepted iff they are true of the signed attribute',
 'A presentation carrying GE, GT, LE or LT predicates is produced and accepted iff each predicate is true, as a comparison of integers, of the attribute value in the signed credential. This holds for negative numbers and at the ends of the 32-bit range. A proof about some other number than the credential\'s own attribute is not accepted.',
 ['inputs'],'all four operators, all 32-bit values and bounds (boundary pairs enumerated), several predicates per credential, and predicate proofs spliced from other credentials',
 'tests check a handful of value/bound pairs for each operator, nothing at the range ends and nothing spliced',
 [CL+'mod.rs',CL+'prover.rs',CL+'verifier.rs'],
 [('difference and sign of the predicate','Predicate::get_delta / get_delta_prime / is_less'),('four-squares proof','Prover::_init_ne_proof / ProofVerifier::_verify_ne_predicate')],
 None,['ProofBuilder::add_sub_proof_request','ProofVerifier::verify'])
p('C04','Credentials in one presentation are bound by their common attributes',
 'When a verifier requires common attributes over several sub proofs, the presentation is accepted iff all those credentials hold the same value in each common attribute. Every sub proof must hold, at its own position: one that is missing, repeated, swapped or taken from another presentation is not accepted.',
 ['inputs','configurations'],'one to three credentials from one or several issuers and holders, any subset of common attributes, and all rearrangements of sub proofs',
 'tests present at most two or three credentials that honestly share a secret',
 [CL+'prover.rs',CL+'verifier.rs'],
 [('common blinding values','ProofBuilder::add_common_attribute / add_sub_proof_request'),('equality of responses','ProofVerifier::verify')],
 [('common_attributes','response expected for each common attribute','ProofVerifier')],
 ['ProofVerifier::verify'])
p('C05','Non-revocation is accepted iff the credential is live in the verifier\'s registry',
 'For every history of issuing, revoking and recovering in a registry, a presentation with a non-revocation proof is accepted against a registry state iff the credential\'s index is issued and not revoked in that state and the witness was computed for it. This holds for witnesses built at once or brought up to date step by step, for both issuance modes and every index up to capacity. A revoked credential never passes by means of an old witness, another credential\'s witness or by leaving the non-revocation part out.',
 ['histories','inputs'],'all histories of issue/revoke/recover/update over small registries in both issuance modes, witnesses created and updated at every point, presentations checked against every registry state',
 'tests walk a few hand-written histories of three or four steps',
 [CL+'issuer.rs',CL+'prover.rs',CL+'verifier.rs',CL+'mod.rs'],
 [('accumulator update','Issuer::revoke_credential / recovery_credential / update_revocation_registry / sign_credential_with_revoc'),('witness','Witness::new / update'),('pairing checks','ProofVerifier::_verify_non_revocation_proof')],
 [('accum','product of the tails of the live indices','RevocationRegistry'),('omega','witness value','Witness')],
 ['ProofVerifier::verify','Witness::update'])
p('C06','A registry\'s value depends only on which indices are live, and deltas compose',
 'After any history the accumulator is the one determined by the set of live indices: deltas published on the way, merged in order in any grouping, give the same registry and the same witnesses as following each step, and a delta that does not continue from the current one is refused. Revoking, recovering or issuing an index outside 1..capacity, or with a tails source that fails at any access, gives an error and leaves registry, witness and delta as they were.',
 ['histories','fault_sequences'],'all histories over small registries, all ways to group adjacent deltas, out-of-range indices, and a tails source that fails at any access',
 'tests merge two or three deltas and never inject a tails failure',
 [CL+'issuer.rs',CL+'mod.rs'],
 [('merge','RevocationRegistryDelta::merge'),('batch update','Issuer::update_revocation_registry'),('index check','Issuer::_get_index')],
 [('issued/revoked','indices changed since the delta\'s base','RevocationRegistryDelta')],
 ['RevocationRegistry','RevocationRegistryDelta','Witness'])
p('C07','A tampered or malformed presentation is refused, without a crash',
 'Starting from a valid presentation, changing, removing, duplicating or moving any number in it, or adding, removing, duplicating or moving a sub proof, predicate proof, revealed attribute or commitment, makes verification return false or an error. The verifier never accepts it and never panics on it. (Extra entries that no request names and no check reads may be ignored.)',
 ['inputs','fault_sequences'],'every field of every part of presentations with and without predicates and non-revocation proofs, every kind of edit (other value, zero, sign, out-of-size value, swap with another presentation, delete, duplicate)',
 'tests alter a few fields by hand',
 [CL+'verifier.rs',CL+'helpers.rs'],
 [('proof parameter checks','ProofVerifier::_check_verify_params_consistency / verify')],
 None,['ProofVerifier::verify'])
p('C08','A verifier\'s verdict depends on the request and the proof, not on its history',
 'Verifying a presentation any number of times, before or after verifying others on the same verifier object, gives the verdict that a fresh verifier configured in the same way gives. A refused presentation does not make a later valid one fail, nor an accepted one make a later invalid one pass.',
 ['histories'],'all sequences of valid and invalid presentations against one verifier object with and without common attributes',
 'each test verifies once per verifier object',
 [CL+'verifier.rs'],[('state of a verifier between calls','ProofVerifier::verify')],
 [('common_attributes','response remembered for each common attribute','ProofVerifier')],['ProofVerifier::verify'])
p('C09','BLS signatures (BN254) verify iff made by exactly those keys on that message',
 'A signature verifies under a generator, key and message iff it was made with that key\'s secret on that message. An aggregated signature verifies with a list of keys iff it combines exactly one signature on the message by each listed key, in any order; a proof of possession verifies only for its own key. An empty list, an identity element or undecodable bytes are refused.',
 ['inputs','configurations'],'all small assignments of signers, messages, generators and listed keys, including duplicates, empty lists and malformed encodings',
 'tests check one two-signer example and a couple of negatives',
 ['libursa/src/bls/mod.rs','libursa/src/pair/amcl.rs'],
 [('pairing check','Bls::verify / verify_multi_sig / verify_proof_of_posession')],None,['Bls::verify','Bls::verify_multi_sig','Bls::verify_proof_of_posession'])
p('C10','BLS signatures (BLS12-381) and their aggregates verify iff authentic',
 'In both key-size variants a signature verifies iff made by the key on the message. Aggregates made over any number of signers verify iff every listed key signed the message (with or without rogue-key protection, as the entry point documents) or, for lists of distinct messages, each key its own message. Neither a proof of possession nor a signature is accepted as the other, and empty lists, duplicated messages where forbidden and identity elements are refused.',
 ['inputs','configurations'],'all small assignments of signers, messages and listed keys for every aggregation entry point',
 'tests check one fixed example of each entry point',
 ['libursa/src/signatures/bls.rs'],[('verify and aggregate entry points','libursa/src/signatures/bls.rs normal and small')],None,['verify','verify_multi','batch_verify'])
p('C11','Ed25519 and secp256k1 signatures verify iff made by the key on the message',
 'Signing is deterministic in nothing but its inputs and every signature verifies under the matching public key for that exact message; with any other key or message, or any altered signature, it does not verify. Malformed keys or signatures give a negative answer or an error, never a crash.',
 ['inputs'],'message lengths from empty to several blocks, keys from all generation options, every byte of the signature altered, all wrong lengths of keys and signatures',
 'tests use one message and one or two keys',
 ['libursa/src/signatures/ed25519.rs','libursa/src/signatures/secp256k1.rs','libursa/src/keys.rs'],
 [('sign and verify','Ed25519Sha512 / EcdsaSecp256k1Sha256')],None,['SignatureScheme::verify'])
p('C12','Key exchange: both sides and only they derive the same secret; key options agree',
 'For X25519 and secp256k1, two parties derive the same shared secret from each other\'s public keys, and a different peer key gives a different secret. A key pair generated from a seed is a function of the seed, one rebuilt from its secret key has the original public key, and conversions between compressed and uncompressed public keys are inverse to each other. Keys or seeds of the wrong length give errors, never a crash.',
 ['inputs','configurations'],'all pairs of parties, all key generation options, seeds and keys of all lengths around the expected one',
 'tests use one pair of fixed keys',
 ['libursa/src/kex/x25519.rs','libursa/src/kex/secp256k1.rs','libursa/src/keys.rs','libursa/src/signatures/secp256k1.rs','libursa/src/signatures/ed25519.rs'],
 [('shared secret','KeyExchangeScheme::compute_shared_secret'),('key generation options','KeyGenOption')],None,['KeyExchangeScheme'])
p('C13','Authenticated encryption returns the plaintext or an error, nothing else',
 'Every symmetric cipher of the library decrypts what it encrypted, under the same key, nonce and associated data, for every plaintext including short and empty ones, and with and without associated data. If key, nonce, associated data or any byte of the ciphertext differs, decryption gives an error, and inputs of any length never crash it.',
 ['inputs'],'every cipher, plaintext lengths 0 to several blocks, associated data of any length, all truncations, extensions and single-byte changes, streaming and buffer interfaces',
 'tests cover one plaintext length per cipher',
 ['libursa/src/encryption/symm/mod.rs','libursa/src/encryption/symm'],
 [('encryptor wrapper','SymmetricEncryptor'),('composition of CBC and HMAC','Aes*CbcHmac*')],None,['SymmetricEncryptor::encrypt_easy','SymmetricEncryptor::decrypt_easy'])
p('C14','Any threshold of byte-string shares rebuilds the secret; fewer or bad do not',
 'For every secret, threshold and total accepted, any threshold or more of the shares, in any order, rebuild exactly the secret that was split, byte for byte or as the same number as documented. Fewer shares, duplicate or zero identifiers and impossible parameters are refused with an error. Malformed share bytes never crash it.',
 ['inputs','configurations'],'all thresholds and totals up to a bound, all subsets and orders of shares, secrets with leading zero bytes and of all sizes, malformed encodings',
 'tests try a few subsets of one sharing',
 ['libursa/src/sharing/shamir.rs','libursa/src/sharing/mod.rs'],
 [('polynomial and Lagrange interpolation','libursa/src/sharing/shamir.rs')],None,['split_secret','recover_secret'])
p('C15','Generic Shamir sharing reconstructs exactly, for every field and threshold',
 'For every prime field, threshold and limit, splitting a valid secret gives that many shares lying on one polynomial of degree below the threshold through the secret, and combining any threshold or more of them, in any order, gives the secret. Too few shares, duplicated or zero identifiers, undecodable or invalid values (zero counts as invalid) and impossible parameters are refused. Shares survive the trip through bytes unchanged.',
 ['inputs','configurations'],'all polynomials over small prime fields, all thresholds/limits, all selections and orders of shares; sampled large fields',
 'tests try random secrets with three parameter pairs',
 ['ursa_sharing/src/shamir.rs','ursa_sharing/src/lib.rs'],
 [('Horner evaluation','Polynomial::evaluate'),('Lagrange interpolation','Scheme::interpolate'),('argument checks','Scheme::new / combine_shares')],None,['Scheme::split_secret','Scheme::combine_shares'])
p('C16','Feldman and Pedersen accept a share iff it lies on the dealt polynomial',
 'A verifier accepts a share (for Pedersen with its blinding share) iff its identifier is a valid one and its value is the dealt polynomial\'s value there; every honestly dealt share is accepted, and accepted shares combine to the dealt secret. Verifiers, shares and blinding shares survive the trip through bytes unchanged, and malformed encodings give errors, never a crash.',
 ['inputs','configurations'],'all polynomials over small prime-order groups, all identifiers and claimed values, mixed share/blinding pairs, all wrong lengths of encodings',
 'tests verify honest shares, and a few wrong ones, in one large group',
 ['ursa_sharing/src/feldman.rs','ursa_sharing/src/pedersen.rs','ursa_sharing/src/lib.rs'],
 [('commitment check','FeldmanVerifier::verify_share / PedersenVerifier::verify_share')],
 [('commitments','one commitment for each coefficient','FeldmanVerifier / PedersenVerifier')],['verify_share'])
BB='libzmix/bbs/src/'
p('C17','BBS+ signatures, blind or not, verify iff made by the key on that message vector',
 'A signature verifies under a key iff made with its secret on exactly that vector of messages, for every vector length; a message changed, swapped, added or left out makes it fail. Blind signing succeeds iff the holder\'s commitment proof is valid for that key, nonce and set of blinded positions, and the completed signature verifies iff completed with the same blinding and the holder\'s own messages. Positions out of range, wrong counts and malformed bytes give errors or a negative answer, never a crash.',
 ['inputs','configurations'],'all vector lengths up to a bound, all subsets of blinded messages, all mix-ups of key, nonce, blinding and messages',
 'tests blind one message of a fixed vector',
 [BB+'signature.rs',BB+'issuer.rs',BB+'prover.rs',BB+'lib.rs',BB+'keys.rs'],
 [('pairing check','Signature::verify'),('commitment proof','BlindSignatureContext::verify')],None,['Signature::verify','Issuer::blind_sign','Prover::complete_signature'])
p('C18','BBS+ proofs of knowledge reveal exactly the requested signed messages',
 'A verifier accepts a proof iff it was made from a signature under the request\'s key, for that request\'s nonce and revealed set, and returns precisely the messages at the requested positions as they were signed. A proof that reveals other positions or other values, or that was altered in any component, is refused, and malformed proofs never crash the verifier.',
 ['inputs','configurations'],'all vector lengths up to a bound, all revealed subsets, all pairings of proof and request, every component altered',
 'tests use a five-message vector with two revealed sets',
 [BB+'pok_sig.rs',BB+'pok_vc.rs',BB+'verifier.rs',BB+'prover.rs'],
 [('proof check','PoKOfSignatureProof::verify / Verifier::verify_signature_pok')],None,['Verifier::verify_signature_pok'])
PS='libzmix/src/signatures/ps/'
p('C19','PS signatures, blind or not, and their proofs verify iff authentic',
 'A Pointcheval-Sanders signature, obtained directly or by blind signing and unblinding, verifies under a key iff it was made for exactly that message vector; a proof of knowledge of it verifies iff made for that key, challenge and exactly the claimed revealed messages. Wrong counts, positions out of range and altered components are refused, never a crash.',
 ['inputs','configurations'],'all vector lengths up to a bound, all blinded and revealed subsets, all mix-ups',
 'tests use vectors of one fixed length with a few subsets',
 [PS+'signature.rs',PS+'blind_signature.rs',PS+'pok_sig.rs',PS+'keys.rs'],
 [('pairing check','Signature::verify'),('proof check','PoKOfSignatureProof::verify')],None,['Signature::verify','PoKOfSignatureProof::verify'])
DG='libzmix/src/signatures/delg_cred_cdd/'
p('C20','A delegation chain verifies iff each link was signed by the holder of the last',
 'A credential chain of any depth is accepted iff it starts with a link signed by the root key and each next link, of the next level, was signed by the holder of the key in the link above, on exactly the attributes and delegate key it shows. Wrong order of levels, missing or foreign links, changed, missing or added attributes and wrong keys are refused, in one-by-one and batched verification alike, with errors and never a crash.',
 ['histories','inputs','configurations'],'all chains up to a bound in depth built from several delegators, with any link replaced, truncated, reordered or altered, all attribute counts',
 'tests build a few honest chains and two or three bad ones',
 [DG+'issuer.rs',DG+'groth_sig.rs'],
 [('link checks','CredChain::verify_delegations / verify_delegations_batched / validate'),('Groth signatures','Groth1Sig / Groth2Sig verify')],
 [('links','odd and even links in order of level','CredChain')],['CredChain::verify_delegations','CredChain::verify_delegations_batched'])
p('C21','An attribute token is accepted iff made from a valid chain for this disclosure',
 'A presentation of a delegated credential chain is accepted iff its holder knows the last secret key, every link is valid, the disclosed attributes are the ones in the chain, and it was made for that root key, set-up values and challenge. The check does not depend on the order in which sets of positions are stored or on whether values were precomputed. Malformed tokens give errors, never a crash.',
 ['inputs','configurations'],'all chain depths up to a bound, all sets of disclosed attributes on each level, precomputed or not, all mix-ups and alterations of parts',
 'tests disclose a few fixed sets on one chain',
 [DG+'attribute_token.rs'],
 [('challenge reconstruction','AttributeToken::reconstruct_commitment')],None,['AttributeToken::reconstruct_commitment'])
p('C22','Verifiable encryption decrypts to the proven messages, for its label and key',
 'A ciphertext decrypts under the right key and label to exactly the messages encrypted, and to an error under another key or label or when altered. The accompanying proof is accepted iff the ciphertext, made for that key and label, encrypts the messages whose responses it is checked with.',
 ['inputs'],'all message counts up to a bound, values at both ends of the allowed range, all mix-ups and alterations',
 'tests encrypt a few random messages once',
 ['libzmix/src/verifiable_encryption'],[('encrypt, prove, decrypt','CSEncryption')],None,['decrypt','reconstruct_blindings_ciphertext'])
p('C23','Proof about a vector commitment verifies iff complete and for its statement',
 'For every number of generators, a proof made from the exponents of a commitment verifies for exactly those generators, that commitment and that challenge, and no other. Proofs with missing, added or altered responses are refused, also after a trip through bytes, and never crash the verifier.',
 ['inputs','configurations'],'all numbers of generators up to a bound, fixed and random blindings, every component altered, both libraries and both source groups',
 'tests use one vector length',
 ['libzmix/src/commitments/pok_vc.rs',BB+'pok_vc.rs'],
 [('proof check','impl_PoK_VC! verify')],None,['Proof::verify'])
BP='libzmix/bulletproofs_amcl/src/'
p('C24','Range, non-zero and (non-)membership proofs verify iff the statement is true',
 'For every committed value: a bound proof verifies iff the value lies within the stated bounds, a non-zero proof iff it is not zero, a membership proof iff it is in the stated set and a non-membership proof iff it is not. A proof checked against another commitment, bound, set or transcript label is refused. Too few or too many commitments give an error, never a crash.',
 ['inputs','configurations'],'all values, bounds and sets over a small universe together with values at the ends of the 64-bit range, honest provers, provers with false witnesses, all mix-ups',
 'tests use one random value for each gadget, nearly always true statements',
 [BP+'r1cs/gadgets'],
 [('gadget constraints','bound_check / non_zero / set_membership / set_non_membership')],None,['Verifier::verify'])
p('C25','A constraint-system proof verifies iff the committed values satisfy the circuit',
 'For every system of linear and multiplication constraints, a proof made from an assignment is accepted iff the assignment satisfies all of them, and only together with the same circuit, commitments, generators and transcript. Proofs altered in any component or cut short are refused, never a crash.',
 ['programs','inputs'],'all circuits from a small grammar of variables, multipliers and linear combinations with satisfying and non-satisfying assignments, every component altered',
 'tests prove a shuffle and a few fixed circuits',
 [BP+'r1cs',BP+'ipp.rs'],
 [('prover and verifier','r1cs::Prover::prove / r1cs::Verifier::verify'),('inner product argument','ipp.rs')],None,['r1cs::Verifier::verify'])
p('C26','A sparse Merkle tree is a map; a path verifies iff it proves the stored value',
 'After any sequence of updates a tree returns for each index the value last written there (or the empty value), and its root depends only on that mapping. A membership path verifies iff index, value and root belong together; an altered, shortened or lengthened path is refused, never a crash.',
 ['histories','inputs'],'all update histories over small index sets for 4-ary and 8-ary trees of several depths, indices sharing all but one digit of the path, all mix-ups of index, value, root and path',
 'tests write a fixed ascending run of leaves and read them back',
 [BP+'r1cs/gadgets/merkle_tree'],
 [('path hashing','VanillaSparseMerkleTree4 / 8 update, get, verify_proof')],
 [('db','node hash to children','HashDb')],['verify_proof','get','root'])
p('C27','C interface: same results as the library, errors for bad arguments',
 'Each exported C function gives the result of the library call it wraps. A null or undecodable required argument gives the error code of that argument\'s position, writes nothing through any output and consumes no handle; every object survives export to JSON or bytes and import. Handles may be used any number of times in any order until freed.',
 ['inputs','histories'],'every exported function with each argument null in turn, all orders of builder calls, full flows of issuance, presentation and revocation over handles',
 'tests call each function once with good arguments',
 ['libursa/src/ffi'],[('argument checks','check_useful_* macros')],None,['ursa_cl_*','ursa_bls_*','ursa_ed25519_*','ursa_encryption_*'])
p('C28','Numbers and field elements compute as integers and residues do',
 'Big-number operations agree with integer arithmetic for every sign and size, conversions to and from decimal, hexadecimal and bytes are inverse to each other, and an operation with no result gives an error. Scalars modulo the group order form a field and points a group in the exponent, and pairings are bilinear.',
 ['inputs'],'all operand pairs over a small range with both signs, powers of two and their neighbours, operands at the modulus; identities over group elements',
 'tests check one or two constants per operation',
 ['libursa/src/bn/openssl.rs','libursa/src/pair/amcl.rs'],
 [('wrappers','BigNumber'),('field and point wrappers','GroupOrderElement / PointG1 / PointG2 / Pair')],None,['BigNumber','GroupOrderElement'])
p('C29','What one party sends as JSON or bytes is what the other reads',
 'Every key, request, credential, delta, witness, signature and proof that parties exchange, exported and imported again, is equal to the original or behaves identically in every later step. Truncated, extended or corrupted encodings are refused with an error or read as a different value, never accepted as the same object and never a crash.',
 ['inputs'],'every exchanged type in every optional shape, all truncations, and corrupted bytes at every position',
 'tests round-trip a few types once',
 ['libursa/src/cl','libzmix/bbs/src','libzmix/src/signatures/ps','ursa_sharing/src'],
 [('encoders and decoders','serde implementations, to_bytes/from_bytes')],None,['from_bytes','serde'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        if len(x['title'])>80: print(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=True)+'\n')
print(len(P))
