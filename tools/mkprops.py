#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os
OUT=[]
def P(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    OUT.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

S='src/core/gpsw/scheme.rs'; G='src/core/gpsw/mod.rs'; M='src/core/msp.rs'; E='src/core/engine.rs'
B='src/core/bilinear_map/bls12_381.rs'; BM='src/core/bilinear_map/mod.rs'; H='src/interfaces/hybrid_crypto/statics.rs'
FH='src/interfaces/ffi/hybrid_gpsw_aes.rs'; FK='src/interfaces/ffi/generate_gpsw_keys.rs'; FE='src/interfaces/ffi/error.rs'
PY='src/interfaces/pyo3/hybrid_gpsw_aes.rs'; PK='src/interfaces/pyo3/generate_gpsw_keys.rs'; PM='src/interfaces/pyo3/mod.rs'
WE='src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs'; WD='src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs'; WK='src/interfaces/wasm_bindgen/generate_gpsw_keys.rs'

P('C01','Every component of a ciphertext is masked by the same fresh secret exponent',
  'An encryption draws exactly one new random exponent, blinds the message with the public mask raised to that exponent, and, for the k-th attribute of the ciphertext, publishes that attribute\'s public element raised to that same exponent. The attribute list stored in the ciphertext is the one the components were computed for, in the same order.',
  ['inputs','programs'],'every message, attribute list and public key, for every group implementation used',
  'Round-trip tests accept any exponent relation that happens to decrypt, and sample a few attribute lists; reuse of an exponent or a component exposed unmasked decrypts fine.',
  [S,B],[('one scalar per call, used in gt_exp and every g2_exp','Gpsw::encrypt')],['GpswCipherText'])
P('C02','All secret randomness comes from a CSPRNG seeded by the OS for that operation',
  'Every random scalar, group element, nonce or symmetric key produced by the library is drawn from a cryptographic generator that was seeded from operating-system entropy inside that same operation. Successive draws are distinct draws: no drawn value is reused for a second purpose, and each element of a random vector is its own draw.',
  ['inputs','schedules','programs'],'every operation that draws randomness, every call',
  'A constant or reused seed still round-trips; no test looks at where the bits come from.',
  [BM,B,H,S],[('Hc128Rng::from_entropy per call; CsRng::new per nonce','gen_random_scalar, gen_random_scalar_vector, gen_random_msg_in_gt, encrypt_hybrid_header, encrypt_hybrid_block')])
P('C03','User keys are shares of the master secret, each divided by its attribute secret',
  'For every access structure, the exponents dealt to the columns of the structure sum to the master secret, with all but one drawn at random, and the key component of a row is the generator raised to the product of the row with those shares divided by the secret of the attribute of that very row. A structure with no column, or naming an attribute the master key has no secret for, is refused.',
  ['inputs'],'every access structure and master key',
  'Only sampled policies are decrypted; a wrong share for one row shape or one column count is invisible for policies that do not use it.',
  [S,M],[('u such that sum u_i = y; prod_scal(row,u)/t_attr','Gpsw::key_generation')])
P('C04','Delegated keys are built only from the parent key, re-randomised by zero',
  'A delegated or re-randomised key has, for every row of the new structure, the parent key\'s component for the same attribute multiplied by the delegation element of that attribute raised to the row\'s product with random exponents that sum to zero. A delegation asking for an attribute the parent key does not hold is refused.',
  ['inputs'],'every parent key, delegation key and target structure',
  'Tests delegate a few policies; they cannot show that no other structure lets a foreign attribute or an unbalanced exponent in.',
  [S,E],[('get_row_from_attr is Some or Err; u sums to zero','Gpsw::key_delegation, Gpsw::key_randomization, Engine::delegate_user_key')])
P('C05','Decryption pairs matching components and fails closed',
  'Decryption combines, for each ciphertext attribute the key holds, the key component and access-structure row of that attribute with the ciphertext component of that attribute, each weighted by the coefficient solved for it, and divides the masked message by the result. When the attributes do not satisfy the key it returns no plaintext, and the symmetric-key path turns that into an error.',
  ['inputs'],'every ciphertext and key',
  'Tests decrypt sampled ciphertexts; a misaligned index is invisible when attributes happen to line up.',
  [S,E,B],[('filtered triples (row, d_i, e_i) and coefficient filter','Gpsw::decrypt, Bls12_381::prod_gt_exp, Engine::decrypt_symmetric_key')])
P('C06','Access policies translate faithfully into key formulas',
  'Conjunctions become conjunctions and disjunctions become disjunctions of the translations of their two operands, an attribute becomes the alternative of all its values, and, in a hierarchical axis only, also of all values of every strictly lower attribute of that axis. Granting everything is the alternative of all values of all attributes and is accepted only at the top level; unknown axes and attributes are refused. The access structure computed from a formula is satisfied by exactly the sets of attributes that satisfy the formula.',
  ['inputs'],'every policy and access policy',
  'The tests enumerate a handful of policies and axes.',
  [M,E],[('recursive translation','policy_to_formula, policy_to_node, policy_to_msp')])
P('C07','An access structure never lists the same attribute twice',
  'Whether built from a formula or parsed from bytes, an access structure in which an attribute appears on more than one row is refused. Its attribute-to-row table always maps the attribute of each row back to that row.',
  ['inputs'],'every formula and every byte string',
  'Tests contain one duplicate case per path at most.',
  [M],[('insert(..).is_some() => Err','Node::to_msp, MonotoneSpanProgram::try_from_bytes')])
P('C08','Attribute values a policy can assign always fit the generated keys',
  'Master keys generated for a policy hold an element for every value that policy can ever assign to an attribute, now or after rotations. Whenever an attribute value has no element in the key at hand, encryption, key generation and delegation return an error instead of crashing or using another element; when every value has its element, none of them, nor decryption, fails, whatever the number of attributes or rows.',
  ['inputs','histories'],'every policy, every sequence of rotations, every attribute value and key',
  'Tests stop far below the maximum number of values; the boundary needs a policy filled to its limit.',
  [E,S],[('master key size; index checks','Engine::generate_master_key, Gpsw::encrypt, Gpsw::key_generation, Gpsw::key_delegation')])
P('C09','Parsing untrusted bytes never crashes',
  'Every routine that decodes keys, ciphertexts, access structures, headers or blocks from bytes returns a value or an error for every byte string, of any length, and never panics, reads out of bounds or overflows an integer.',
  ['inputs'],'every byte string given to every parser',
  'Tests feed valid encodings and a few truncations.',
  [G,S,M,B,H,PY,FH],[('length checks before every index','AsBytes::try_from_bytes implementations, header parsers')])
P('C10','Well-formed but mismatched keys and ciphertexts give errors, not crashes',
  'Encryption, delegation, re-randomisation, decryption and policy translation given any individually well-formed but mutually inconsistent keys, ciphertexts, policies and attribute lists return an error or no plaintext and never panic on an index or a missing table entry.',
  ['inputs'],'every combination of parsed objects',
  'Tests always pass objects produced by the same set-up.',
  [S,M,E],[('bounds checks on cross-object indices','Gpsw::encrypt, key_delegation, key_randomization, decrypt; policy_to_node')])
P('C11','Every encoder, decoder and size function agree on the byte layout',
  'For every serialisable type, decoding the bytes its encoder produces gives back every field, and the announced encoded size is the number of bytes produced. Counts and sizes are big-endian and every element has the size its decoder expects.',
  ['inputs'],'every value of every serialisable type',
  'Round-trip tests sample a few sizes; swapped fields of equal size and partially wrong size functions go unnoticed.',
  [G,S,M,B,H],[('try_into_bytes / try_from_bytes / len_bytes per type','AsBytes implementations, EncryptedHeader, ClearTextHeader')])
P('C12','Memory reserved while parsing is bounded by the input actually present',
  'While decoding untrusted bytes, the capacity reserved for a decoded collection is never larger than what the bytes actually received can fill: announced counts are compared with the input length before anything is allocated for them.',
  ['inputs'],'every byte string given to every parser',
  'No test sends a huge announced count.',
  [G,M],[('count check before with_capacity','Vec::try_from_bytes, MonotoneSpanProgram::try_from_bytes')])
P('C13','Master private, public and delegation keys describe the same secrets',
  'Master key generation draws a separate random secret for every attribute and one more for the master secret; the public key holds the first generator raised to each attribute secret and the paired generators raised to the master secret, and the delegation key the second generator raised to the inverse of each attribute secret, each in the place of its attribute. Exactly the requested number of attributes is covered.',
  ['inputs'],'every number of attributes and every group implementation used',
  'Round-trip tests only detect inconsistencies on the attributes they use, and a secret shared between attributes or with the master secret decrypts fine.',
  [S,E],[('t_i draws, public t_i, inverse t_i, y','Gpsw::generate_master_key')])
P('C14','Hybrid headers are read back exactly as written, metadata included',
  'Decrypting a header produced by the encryption side reads the same encapsulation, nonce and encrypted metadata that were written, decrypts the metadata under the encapsulated symmetric key with the nonce that was transmitted, and returns the metadata given at encryption; with no metadata, none is written and the default is returned.',
  ['inputs'],'every policy, attribute list, metadata and symmetric scheme parameters',
  'Round-trip tests use a few metadata values.',
  [H],[('length-prefixed layout; nonce then size then ciphertext','encrypt_hybrid_header, decrypt_hybrid_header')])
P('C15','Both sides derive the same symmetric key from the encapsulated secret alone',
  'The symmetric key is the same hash of the encapsulated random element on the encrypting and the decrypting side, of exactly the requested length, and depends on nothing else. If the key cannot be recovered the operation fails and no key is returned.',
  ['inputs'],'every header and key',
  'A weakened derivation used consistently on both sides passes every round-trip test.',
  [E,H],[('Shake256 of the serialised element','Engine::generate_symmetric_key, Engine::decrypt_symmetric_key')])
P('C16','Block encryption binds key, resource identifier and block number on both sides',
  'Block encryption and block decryption pass the caller\'s symmetric key, resource identifier and block number unchanged to the authenticated cipher, and the plaintext or ciphertext unchanged, through every interface. A missing identifier or block number means an empty identifier and block zero on both sides.',
  ['inputs'],'every key, identifier, block number and data',
  'Tests use the same identifier and block number for both sides, so dropping one from both is invisible.',
  [H,FH,PY,WE,WD],[('uid and block_number forwarded to Block','encrypt_hybrid_block, decrypt_hybrid_block and their interfaces')])
P('C17','Empty and oversized blocks are refused before any cryptography runs',
  'Encrypting an empty plaintext or one longer than the block limit, and decrypting an empty ciphertext or one longer than the largest possible encrypted block, returns an error without invoking the cipher; everything up to and including the limits is accepted. Every interface applies the same limit.',
  ['inputs'],'every plaintext and ciphertext length',
  'A limit of 2^30 bytes is never approached by tests.',
  [H,FH,PY,WE,WD],[('is_empty and length comparisons','encrypt_hybrid_block, decrypt_hybrid_block')])
P('C18','C entry points check every pointer before using it',
  'Every function callable from C compares each pointer argument with null before reading or writing through it, on every path, and reports an error when a mandatory one is null.',
  ['inputs'],'every combination of null and non-null pointer arguments',
  'Tests pass null for a few arguments of a few functions.',
  [FH,FK,FE],[('ffi_not_null','all exported functions')])
P('C19','C entry points never write past the capacity the caller announced',
  'Every write to a caller buffer writes no more bytes than the capacity the caller gave for that same buffer, and writes exactly the result from its start; the length stored back is the number of bytes of that result. When the buffer is too small nothing is written to it, an error is reported and the required size is stored back; a buffer of exactly the required size is enough.',
  ['inputs'],'every output size and announced capacity, including negative ones',
  'Tests allocate generous buffers.',
  [FH,FK,FE],[('allocated < len check before copy','all exported functions with output buffers')])
P('C20','C entry points reject negative lengths before using them',
  'A length received from C is used as a number of bytes only after it has been checked to be positive (or, for optional inputs, treated as absent otherwise), and the memory read is exactly the pointer and length of the same argument.',
  ['inputs'],'every integer length argument',
  'Tests never pass negative lengths.',
  [FH,FK],[('length checks before from_raw_parts','all exported functions')])
P('C21','C status codes, error messages and outputs agree',
  'A C entry point that produces outputs returns zero exactly when the operation succeeded and all requested outputs were written, and every path returning the error status (other than in the call that reads the last error itself) has recorded an error message on the calling thread first. Reading the last error clears it and writes a terminated text within the caller\'s buffer.',
  ['inputs','schedules'],'every path of every exported function, every thread',
  'Tests check a few failing calls; missing messages on rare paths are not exercised.',
  [FE,FH,FK],[('ffi_bail / ffi_unwrap / set_last_error; thread-local slot','all exported functions, get_last_error, set_error')])
P('C22','A cache handle denotes exactly the object it was created for until destroyed',
  'Every created cache gets a handle never handed out before by that kind of cache, under which exactly the parsed inputs are stored, and that handle is what the caller receives. Destroying a handle that is present never fails and removes that handle only, in the table of the same kind, and using a handle that is not present is reported as an error rather than a crash.',
  ['histories','schedules','inputs'],'every interleaving of create, use and destroy calls with any handles',
  'Tests create one or two caches in one thread.',
  [FH,WE,WD],[('atomic fetch_add; insert(id); remove(&handle); get(&handle)','create/destroy/using-cache functions')])
P('C23','The C, Python, JavaScript and cached variants perform the same operation',
  'For each operation, every language interface and the cached and uncached variants hand the caller\'s arguments, in the right roles and unaltered, to the same core operation with the same scheme, cipher and block limit, and return its result unaltered. A call fails only when the operation does, or an argument is missing, empty or malformed, or there is no room for a result. The combined encrypt and decrypt calls of the Python module frame header and data the same way on both sides, using the metadata identifier and block zero.',
  ['inputs','configurations'],'every interface function and argument',
  'Each interface has its own few tests and nothing compares them.',
  [FH,FK,PY,PK,WE,WD,WK],[('argument flow into core calls','all interface functions')])
P('C24','Secrets never appear in error messages or diagnostics',
  'No error value, last-error text, exception message, panic message or diagnostic output of the library contains, or is computed from, secret key material, symmetric keys, plaintexts, encapsulated secrets or drawn randomness.',
  ['inputs','programs'],'every failing path of every operation',
  'Tests do not inspect messages.',
  ['src/error.rs',S,E,H,FH,FK,PY,PK,WE,WD,WK],[('format arguments are sizes, indices, public names and error texts','every construction of an error')])
P('C25','A message is encoded whole or refused',
  'Encoding a message as a plaintext uses every byte of the message: the plaintext is the target generator raised to the scalar whose little-endian bytes are the whole message padded with zeros. A message of more than 32 bytes, or that is not a canonical scalar, is refused and never truncated or reduced; every other message is accepted.',
  ['inputs'],'every message of every length',
  'Tests encode one short message.',
  [B,BM,S],[('length check and padding','Bls12_381::msg_to_scalar'),('generator raised to the scalar','BilinearMap::msg_to_gt')])
P('C26','Every public operation stays exported under every interface configuration',
  'Each interface configuration of the library builds on its own, and its binary interface exports every operation under its documented name and argument types: the C symbols, the functions registered in the Python module and the JavaScript bindings.',
  ['configurations','programs'],'every feature configuration and exported name',
  'The tests link most operations but not all, and only in the configurations the test script builds.',
  [PM,FH,FK,FE,WE,WD,WK,'Cargo.toml'],[('#[no_mangle], add_function, #[wasm_bindgen]','interface modules')])
P('C27','Key roles and key internals are separated by the type system',
  'A program outside the library cannot compile if it passes one kind of key where another is expected, constructs or reads the secret parts of a key directly, or duplicates a master private key (other than by serialising it).',
  ['programs'],'every client program',
  'Tests only contain programs that compile.',
  [S,G,'src/lib.rs'],[('distinct types, crate-private fields, no Clone on the master private key','GpswMasterPrivateKey, GpswMasterPublicKey, GpswDecryptionKey, GpswMasterPublicDelegationKey')])
P('C28','Raw memory is touched only by the C interface',
  'The scheme, the hybrid layer and the Python and JavaScript interfaces contain no unchecked memory operation of their own; only functions of the C interface dereference raw pointers, and only the caller\'s argument pointers.',
  ['programs'],'every function of the library',
  'An unchecked read inside bounds passes every test.',
  [S,M,G,B,E,H,PY,PK,WE,WD,WK,FH,FK,FE],[('unsafe blocks confined','whole crate')])
P('C29','No interface call can deadlock or poison the shared caches',
  'While a call holds the lock of a cache table it never requests a table lock again, directly or through what it calls, and never runs an operation that can panic on caller input while it holds a lock for writing, so that one call can neither block itself nor make later calls fail.',
  ['schedules','histories','inputs'],'every interleaving of interface calls and every input',
  'Tests are single-threaded around the caches.',
  [FH,WE,WD],[('short write sections, read guard during use','create/destroy/using-cache functions')])
P('C30','Policies created through an interface have exactly the axes requested',
  'Creating a policy from a list of axes gives a policy of exactly the requested number of attribute creations to which every axis of the list was added once, in order, with its name, all of its attributes in order and its hierarchy flag. It fails if any axis cannot be added or the number is not representable, and refuses nothing else.',
  ['inputs'],'every list of axes and every number of creations',
  'Tests create one policy with two axes.',
  [PK],[('loop over the axes','pyo3 generate_policy')])
P('C31','Rotation renews every listed attribute and encryption uses the newest value',
  'Rotating a list of attributes rotates each listed attribute exactly once, in every interface, fails if any rotation fails, and returns the rotated policy. Encryption uses the current value of each requested attribute while user keys cover all values the attribute has had.',
  ['histories','inputs'],'every policy, rotation list and sequence of rotations',
  'Tests rotate one or two attributes once.',
  [FK,PK,WK,E,M],[('loop over attributes; attributes_values; all values of attribute_to_int','rotate functions, Engine::encrypt, policy_to_node')])
P('C32','The linear solver finds exact coefficients, and none only when none exist',
  'For every rectangular matrix over the scalar field whose rows and columns are not empty, the linear solver returns one coefficient per row such that the rows weighted by them add up to the all-ones vector exactly, whenever such coefficients exist; it returns none only when there are none, and it never crashes or loops.',
  ['inputs'],'every matrix over the field, of every size and rank',
  'Tests solve a few small systems; the row exchanges, dependent rows, surplus rows or columns and late pivots that go wrong are rarely among them.',
  [S],[('Gauss-Jordan elimination, last pivot column, reading of the solution','Gpsw::span_coefs')])
P('C33','Decrypting with a satisfying key returns the encrypted message',
  'For every master key, access structure, attribute list and message: when the attributes satisfy the structure of a generated key, decrypting the ciphertext of the message under these attributes with that key returns exactly the message.',
  ['inputs'],'every master key, access structure, attribute list, message and random draw',
  'Tests sample a few policies; cancellation of the mask has to hold for every structure, order of attributes and row.',
  [S,M,B],[('composition of key generation, encryption and decryption','AbeScheme::{generate_master_key, key_generation, encrypt, decrypt}')])
P('C34','Boolean formulas are parsed with the documented meaning',
  'A text is parsed as a policy formula exactly when, its spaces removed, it is a number that fits 32 bits or a formula in parentheses, followed by nothing or by one operator (& or |) and again a formula; the tree returned is the one so described: the number is a leaf, the operator joins what stands before it with everything after it, and a parenthesis is closed by its matching one. Every other text is refused with an error, and no text makes the parser panic.',
  ['inputs'],'every text, of every length, nesting depth and character set',
  'Tests parse a few formulas: positions of matching parentheses, operators at the ends, numbers with several digits, odd characters and nested groups have unboundedly many combinations.',
  [M],[('recursive descent: character check, leading digits, matching parenthesis, operator','Node::parse')])
P('C35','Valid inputs are never refused by the core operations',
  'Generating master keys of any size, the operations of the engine, the making of hybrid headers and the encoding of keys, ciphertexts, access structures, lists and headers fail only when an operation they rely on fails, when no message is found where a symmetric key is to be decrypted, or when a length does not fit its 32-bit field. They impose no limit of their own on numbers of attributes, sizes of keys or lengths of data, and decryption with a key that opens nothing reports no message rather than an error of its own.',
  ['inputs'],'every operation of the engine, every encoder, every size of input',
  'Tests use small policies, short keys and little metadata: a limit above these sizes goes unnoticed.',
  [E,S,G,M,H],[('success conditions','Engine methods, AsBytes::try_into_bytes, Gpsw::generate_master_key, encrypt_hybrid_header')])
P('N04','Keys of different users cannot be combined to decrypt',
  'No combination of keys none of which alone satisfies a ciphertext decrypts it.',
  ['inputs','programs'],'every set of keys and every adversary','A cryptographic reduction, not a test matter.',
  [S],[('per-key random shares','Gpsw::key_generation')])
P('N05','Operations on secrets take time independent of the secrets',
  'Execution time and memory access patterns do not depend on secret values.',
  ['inputs'],'every secret value','Tests do not measure time.',
  [S,B],[('constant-time field arithmetic of the dependency','dependencies')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for o in OUT: f.write(json.dumps(o,ensure_ascii=False)+'\n')
print(len(OUT))
