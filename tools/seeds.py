"""Planted bugs: edits of /repo's HEAD, each with a demonstration (see mkseeds.py)."""
SEEDS = []
S, G, M, EN = "src/core/gpsw/scheme.rs", "src/core/gpsw/mod.rs", "src/core/msp.rs", "src/core/engine.rs"
B, BM = "src/core/bilinear_map/bls12_381.rs", "src/core/bilinear_map/mod.rs"
H = "src/interfaces/hybrid_crypto/statics.rs"
FH, FK, FE = ("src/interfaces/ffi/" + x for x in ("hybrid_gpsw_aes.rs", "generate_gpsw_keys.rs", "error.rs"))
PY, PK, PM = ("src/interfaces/pyo3/" + x for x in ("hybrid_gpsw_aes.rs", "generate_gpsw_keys.rs", "mod.rs"))
WE, WD, WK = ("src/interfaces/wasm_bindgen/" + x for x in ("hybrid_gpsw_aes_encryption.rs", "hybrid_gpsw_aes_decryption.rs", "generate_gpsw_keys.rs"))

USE = """
#![allow(unused_imports, dead_code)]
use cosmian_abe_gpsw::core::{bilinear_map::{bls12_381::Bls12_381, BilinearMap}, gpsw::{AbeScheme, AsBytes, Gpsw}, msp::{MonotoneSpanProgram, Node}, Engine};
use cosmian_abe_gpsw::error::FormatErr;
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
type Sch = Gpsw<Bls12_381>;
type Eng = Engine<Sch>;
"""


def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=(USE if k.get("kind", "rust") == "rust" else "") + demo, **k))


seed("C01-repeated-attributes", "C01",
     [(S, """            gamma: gamma.to_vec(),
            e_prime,""", """            gamma: {
                let mut gamma = gamma.to_vec();
                // repeated attributes need no entry of their own
                gamma.dedup();
                gamma
            },
            e_prime,""")],
     "an attribute list with a value repeated in consecutive places",
     "the attribute list stored in the ciphertext is no longer the one the components were computed for",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 12).unwrap();
    for list in [vec![1u32, 2, 3], vec![9, 4, 1], vec![7, 7, 2]] {
        for a in &list {
            let msp = Node::parse(&a.to_string()).unwrap().to_msp().unwrap();
            let key = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
            let msg = g.generate_random_plaintext().unwrap();
            let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
            let back = AbeScheme::decrypt(&g, &ct, &key).unwrap();
            if back != Some(msg) {
                println!("{list:?}: the key for {a} does not open the ciphertext");
                std::process::exit(1);
            }
        }
    }
}
""")


seed("C03-sparse-shares", "C03",
     [(S, """                let mut u = self.group.gen_random_scalar_vector(x - 1)?;
                let u_l = u.iter().fold(G::ZERO, std::ops::Add::add);
                //u such that Σ u_i = y""", """                // 8 random shares are enough entropy
                let mut u = self.group.gen_random_scalar_vector((x - 1).min(8))?;
                let u_l = u.iter().fold(G::ZERO, std::ops::Add::add);
                u.resize(x - 1, G::ZERO);
                //u such that Σ u_i = y""")],
     "an access structure of more than nine columns (nine conjunctions)",
     "some shares are zero instead of random, so components of the key are the neutral element",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, _, _) = AbeScheme::generate_master_key(&g, 30).unwrap();
    for n in [3u32, 8, 14] {
        let f = (1..=n).map(|i| i.to_string()).collect::<Vec<_>>().join(" & ");
        let msp = Node::parse(&f).unwrap().to_msp().unwrap();
        let key = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
        let bytes = key.try_into_bytes().unwrap();
        for r in 0..n as usize {
            if bytes[4 + 96 * r] == 0xc0 && bytes[4 + 96 * r + 1..4 + 96 * (r + 1)].iter().all(|b| *b == 0) {
                println!("conjunction of {n}: component {r} is the neutral element");
                std::process::exit(1);
            }
        }
    }
}
""")

seed("C04-position-shortcut", "C04",
     [(S, """            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
                big_d_i.push(r_di.0);
                raw_big_d_i.push(r_di.1);
            } else {
                return Err(FormatErr::InternalOperation(
                    "new attribute is not allowed".to_string(),
                ));
            }
        }
        Ok(GpswDecryptionKey::<G> {
            raw_d_i: raw_big_d_i,
            d_i: big_d_i,
            msp: msp.into(),""", """            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
                // a structure of the same shape keeps the order of the rows
                let index = if msp.rows() == user_key.msp.rows() {
                    i
                } else {
                    index
                };
                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
                big_d_i.push(r_di.0);
                raw_big_d_i.push(r_di.1);
            } else {
                return Err(FormatErr::InternalOperation(
                    "new attribute is not allowed".to_string(),
                ));
            }
        }
        Ok(GpswDecryptionKey::<G> {
            raw_d_i: raw_big_d_i,
            d_i: big_d_i,
            msp: msp.into(),""")],
     "a delegation naming the attributes of the parent key in another order",
     "a row of the delegated key is built from the parent's component of another attribute",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, del) = AbeScheme::generate_master_key(&g, 12).unwrap();
    let msp = Node::parse("1 | 2 | 3").unwrap().to_msp().unwrap();
    let parent = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
    for f in ["1 | 2 | 3", "3 | 1", "3 | 2 | 1"] {
        let m2 = Node::parse(f).unwrap().to_msp().unwrap();
        let child = AbeScheme::key_delegation(&g, &Some(m2), &parent, &del).unwrap();
        for a in [1u32, 3] {
            let msg = g.generate_random_plaintext().unwrap();
            let ct = AbeScheme::encrypt(&g, &msg, &[a], &mpk).unwrap();
            if AbeScheme::decrypt(&g, &ct, &child).unwrap() != Some(msg) {
                println!("key delegated for {f} does not open attribute {a}");
                std::process::exit(1);
            }
        }
    }
}
""")

seed("C05-batched-pairings", "C05",
     [(B, """        let terms = e_i_a_i.iter().zip(d_i.iter().copied()).collect::<Vec<_>>();
        multi_miller_loop(&terms).final_exponentiation()""", """        let terms = e_i_a_i.iter().zip(d_i.iter().copied()).collect::<Vec<_>>();
        // bound the size of a Miller loop
        terms
            .chunks_exact(16)
            .chain(if terms.len() < 16 {
                Some(terms.as_slice())
            } else {
                None
            })
            .fold(Gt::identity(), |acc, part| {
                acc + multi_miller_loop(part).final_exponentiation()
            })""")],
     "decryption combining more than 16 components, in a number that is not a multiple of 16",
     "the components after the last full batch are left out of the product, so a satisfying key recovers a wrong message",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 40).unwrap();
    for n in [2u32, 16, 18] {
        let f = (1..=n).map(|i| i.to_string()).collect::<Vec<_>>().join(" & ");
        let msp = Node::parse(&f).unwrap().to_msp().unwrap();
        let key = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
        let msg = g.generate_random_plaintext().unwrap();
        let attrs: Vec<u32> = (1..=n).collect();
        let ct = AbeScheme::encrypt(&g, &msg, &attrs, &mpk).unwrap();
        if AbeScheme::decrypt(&g, &ct, &key).unwrap() != Some(msg) {
            println!("a key for {n} attributes does not open a ciphertext with all of them");
            std::process::exit(1);
        }
    }
}
""")

CRYPTO = 'cosmian_crypto_base = "2.1"'
HYB = r"""
use cosmian_abe_gpsw::interfaces::hybrid_crypto::*;
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto, Metadata, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;
type Aes = Aes256GcmCrypto;
type Key = <Aes as SymmetricCrypto>::Key;
fn setup() -> (Policy, <Sch as AbeScheme>::MasterPrivateKey, <Sch as AbeScheme>::MasterPublicKey, <Sch as AbeScheme>::MasterPublicDelegationKey) {
    let mut p = Policy::new(20);
    p.add_axis(&PolicyAxis::new("Level", &["Low", "Mid", "High"], true)).unwrap();
    p.add_axis(&PolicyAxis::new("Dep", &["FIN", "MKG", "HR"], false)).unwrap();
    let (a, b, c) = Eng::new().generate_master_key(&p).unwrap();
    (p, a, b, c)
}
fn attrs(l: &str, d: &str) -> Vec<Attribute> { vec![Attribute::new("Level", l), Attribute::new("Dep", d)] }
fn fail(s: &str) -> ! { println!("{s}"); std::process::exit(1) }
"""
FFI = HYB + r"""
use cosmian_abe_gpsw::interfaces::ffi::{error::*, generate_gpsw_keys::*, hybrid_gpsw_aes::*};
use std::ffi::{CStr, CString};
fn last_error() -> String {
    let mut b = vec![0i8; 4096];
    let mut n = 4096i32;
    unsafe { get_last_error(b.as_mut_ptr(), &mut n) };
    b[..n.max(0) as usize].iter().map(|c| *c as u8 as char).collect()
}
fn cjson<T: serde::Serialize>(t: &T) -> CString { CString::new(serde_json::to_string(t).unwrap()).unwrap() }
"""
FDEPS = CRYPTO + '\nserde_json = "1"\nserde = "1"'

seed("C14-anonymous-metadata", "C14",
     [(H, "    if let Some(meta) = meta_data {\n        // Nonce", "    // nothing to transmit without an identifier\n    if let Some(meta) = meta_data.filter(|meta| !meta.uid.is_empty()) {\n        // Nonce")],
     "metadata with additional data and an empty identifier", "the additional data is not written and the default metadata is read back",
     HYB + r"""
fn main() {
    let (p, msk, mpk, _) = setup();
    let uk = Eng::new().generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")).unwrap();
    for (uid, ad) in [(vec![1u8, 2], Some(vec![3u8])), (vec![7], None), (vec![], Some(vec![9u8, 9])), (vec![], None)] {
        let m = Metadata { uid: uid.clone(), additional_data: ad.clone() };
        let h = encrypt_hybrid_header::<Sch, Aes>(&p, &mpk, &attrs("Low", "FIN"), Some(m)).unwrap();
        let c = decrypt_hybrid_header::<Sch, Aes>(&uk, &h.encrypted_header_bytes).unwrap();
        if c.meta_data.uid != uid || c.meta_data.additional_data != ad { fail(&format!("{uid:?} {ad:?} are not read back")) }
    }
}
""", deps=CRYPTO)

seed("C16-truncated-number", "C16",
     [(FH, (">(&symmetric_key, &uid, block_number as usize, &data));", 2), ">(\n        &symmetric_key,\n        &uid,\n        usize::from(block_number as u16),\n        &data\n    ));")],
     "block numbers of 65536 and more", "two blocks of a resource whose numbers differ by 65536 can be exchanged without detection",
     FFI + r"""
fn main() {
    let key = [7u8; 32];
    let data = b"some data";
    let uid = [1u8, 2, 3];
    unsafe {
        for (n, m) in [(0i32, 1i32), (3, 300), (5, 65541), (0, 65536)] {
            let mut out = vec![0i8; 256];
            let mut len = 256i32;
            if h_aes_encrypt_block(out.as_mut_ptr(), &mut len, key.as_ptr().cast(), 32, uid.as_ptr().cast(), 3, n, data.as_ptr().cast(), data.len() as i32) != 0 { fail(&last_error()) }
            for (t, good) in [(n, true), (m, false)] {
                let mut clear = vec![0i8; 256];
                let mut clen = 256i32;
                let rc = h_aes_decrypt_block(clear.as_mut_ptr(), &mut clen, key.as_ptr().cast(), 32, uid.as_ptr().cast(), 3, t, out.as_ptr(), len);
                if (rc == 0) != good { fail(&format!("block {n} decrypted as block {t}: {rc}")) }
            }
        }
    }
}
""", deps=FDEPS)

seed("C17-clear-limit-for-encrypted", "C17",
     [(H, "    if ciphertext.len() > Block::<S, MAX_CLEAR_TEXT_SIZE>::MAX_ENCRYPTED_LENGTH {", "    if ciphertext.len() > MAX_CLEAR_TEXT_SIZE {")],
     "blocks within 28 bytes of the limit", "the encryption of a block within the limits is refused by decryption",
     HYB + r"""
fn main() {
    let key = Key::try_from_bytes(&[7u8; 32]).unwrap();
    for n in [1usize, 32, 60, 64] {
        let data = vec![5u8; n];
        let c = encrypt_hybrid_block::<Sch, Aes, 64>(&key, &[1], 0, &data).unwrap();
        match decrypt_hybrid_block::<Sch, Aes, 64>(&key, &[1], 0, &c) {
            Ok(d) if d == data => {}
            _ => fail(&format!("a block of {n} bytes is not read back")),
        }
    }
    if encrypt_hybrid_block::<Sch, Aes, 64>(&key, &[1], 0, &[0u8; 65]).is_ok() { fail("65 bytes accepted") }
}
""", deps=CRYPTO)

seed("C18-policy-pointer-twice", "C18",
     [(FH, '    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");\n    ffi_not_null!(policy_ptr, "Policy pointer should not be null");\n    ffi_not_null!(public_key_ptr,', '    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");\n    ffi_not_null!(policy_ptr, "Policy pointer should not be null");\n    ffi_not_null!(policy_ptr,')],
     "a null public key pointer given to h_aes_create_encryption_cache", "the null pointer is dereferenced",
     FFI + r"""
fn main() {
    let (p, _, mpk, _) = setup();
    let pj = cjson(&p);
    let k = mpk.try_into_bytes().unwrap();
    let mut h = 0i32;
    unsafe {
        if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 0 { fail(&last_error()) }
        if h_aes_create_encryption_cache(&mut h, std::ptr::null(), k.as_ptr().cast(), k.len() as i32) != 1 { fail("null policy accepted") }
        if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), std::ptr::null(), 64) != 1 { fail("null key accepted") }
        if !last_error().contains("NULL") { fail("no message about a null pointer") }
    }
}
""", deps=FDEPS)

seed("C19-identifier-capacity", "C19",
     [(FH, ("""        let allocated = *uid_len;
        let uid_bytes = &header.meta_data.uid;
        let len = uid_bytes.len();
        *uid_len = len as c_int;
        if (allocated as usize) < len {""", 2), """        let uid_bytes = &header.meta_data.uid;
        let len = uid_bytes.len();
        *uid_len = len as c_int;
        let allocated = *uid_len;
        if (allocated as usize) < len {""")],
     "an identifier buffer smaller than the identifier in the header", "the identifier is written past the end of the caller's buffer",
     FFI + r"""
fn main() {
    let (p, msk, mpk, _) = setup();
    let uk = Eng::new().generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")).unwrap().try_into_bytes().unwrap();
    let m = Metadata { uid: (1..=40u8).collect(), additional_data: None };
    let h = encrypt_hybrid_header::<Sch, Aes>(&p, &mpk, &attrs("Low", "FIN"), Some(m)).unwrap().encrypted_header_bytes;
    unsafe {
        for cap in [64i32, 40, 8] {
            let mut sk = [0i8; 32];
            let mut skl = 32i32;
            let mut uid = [0i8; 64];
            let mut ul = cap;
            let rc = h_aes_decrypt_header(sk.as_mut_ptr(), &mut skl, uid.as_mut_ptr(), &mut ul, std::ptr::null_mut(), std::ptr::null_mut(), h.as_ptr().cast(), h.len() as i32, uk.as_ptr().cast(), uk.len() as i32);
            if (rc == 0) != (cap >= 40) { fail(&format!("capacity {cap}: status {rc}")) }
            if uid[cap as usize..].iter().any(|b| *b != 0) { fail(&format!("capacity {cap}: bytes written after it")) }
        }
    }
}
""", deps=FDEPS)

seed("C20-identifier-length", "C20",
     [(FH, ("    let uid = if !uid_ptr.is_null() && uid_len > 0 {", 2), "    let uid = if !uid_ptr.is_null() && uid_len != 0 {")],
     "a negative identifier length given to a block function", "a slice of about 2^64 bytes is made from the caller's pointer",
     FFI + r"""
fn main() {
    let key = [7u8; 32];
    let data = b"some data";
    let uid = [1u8, 2, 3];
    unsafe {
        for n in [3i32, 0, -1] {
            let mut out = vec![0i8; 256];
            let mut len = 256i32;
            let rc = h_aes_encrypt_block(out.as_mut_ptr(), &mut len, key.as_ptr().cast(), 32, uid.as_ptr().cast(), n, 0, data.as_ptr().cast(), data.len() as i32);
            if rc != 0 { fail(&format!("identifier length {n}: status {rc}")) }
        }
    }
}
""", deps=FDEPS)

seed("C21-silent-refusal", "C21",
     [(FH, """        Err(e) => {
            ffi_bail!(format!("Hybrid Cipher: invalid public key: {e:?}"));
        }
    };

    let cache = EncryptionCache { policy, public_key };""", """        Err(_) => return 1,
    };

    let cache = EncryptionCache { policy, public_key };""")],
     "an invalid public key given to h_aes_create_encryption_cache", "the error status is returned while the last error is that of an earlier call or none",
     FFI + r"""
fn main() {
    let (p, _, mpk, _) = setup();
    let pj = cjson(&p);
    let mut k = mpk.try_into_bytes().unwrap();
    let mut h = 0i32;
    unsafe {
        if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 0 { fail(&last_error()) }
        let m = CString::new("from an earlier call").unwrap();
        set_error(m.as_ptr());
        k.truncate(50);
        if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 1 { fail("invalid key accepted") }
        if last_error().contains("from an earlier call") { fail("the failure left no message of its own") }
    }
}
""", deps=FDEPS)

seed("C22-reused-handles", "C22",
     [(FH, """    let id = NEXT_ENCRYPTION_CACHE_ID.fetch_add(1, Ordering::Acquire);
    let mut map = ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed");
""", """    let mut map = ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed");
    // handles start again when no cache is left
    if map.is_empty() {
        NEXT_ENCRYPTION_CACHE_ID.store(0, Ordering::Release);
    }
    let id = NEXT_ENCRYPTION_CACHE_ID.fetch_add(1, Ordering::Acquire);
""")],
     "creating a cache after all earlier ones were destroyed, then using an old handle", "a destroyed handle denotes another cache",
     FFI + r"""
fn main() {
    let (p, _, mpk, _) = setup();
    let pj = cjson(&p);
    let k = mpk.try_into_bytes().unwrap();
    let mut seen = Vec::new();
    unsafe {
        for _ in 0..3 {
            let mut h = -1i32;
            if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 0 { fail(&last_error()) }
            if seen.contains(&h) { fail(&format!("handle {h} given twice")) }
            seen.push(h);
            h_aes_destroy_encryption_cache(h);
        }
    }
}
""", deps=FDEPS)

seed("C23-python-identifier", "C23",
     [(PY, "let ciphertext = encrypt_hybrid_block(header.0, metadata.uid, 0, plaintext)?;", "let ciphertext = encrypt_hybrid_block(\n        header.0,\n        metadata.additional_data.unwrap_or(metadata.uid),\n        0,\n        plaintext,\n    )?;"),
      (PY, "    internal_decrypt_hybrid_block(&cleartext_header.0, &metadata.uid, 0, ciphertext)", "    internal_decrypt_hybrid_block(\n        &cleartext_header.0,\n        metadata.additional_data.as_ref().unwrap_or(&metadata.uid),\n        0,\n        ciphertext,\n    )")],
     "Python's combined calls with metadata that has additional data, read by another interface", "the block is bound to the additional data instead of the metadata identifier",
     r"""
import json
import cosmian_abe_gpsw as m

axes = [{"name": "Dep", "attributes": ["FIN", "HR"], "hierarchical": False}]
policy = m.generate_policy(policy_axis_bytes=json.dumps(axes).encode(), max_attribute_creations=10)
keys = m.generate_master_keys(policy)
user = m.generate_user_private_key(keys[0], "Dep::FIN", policy)
for ad in (None, [9, 9]):
    meta = {"uid": [1, 2, 3]}
    if ad:
        meta["additional_data"] = ad
    x = bytes(m.encrypt(json.dumps(meta).encode(), policy, json.dumps(["Dep::FIN"]).encode(), keys[1], b"some data"))
    assert bytes(m.decrypt(user, x)) == b"some data"
    n = m.get_encrypted_header_size(x)
    key, _ = m.decrypt_hybrid_header(user, x[4:4 + n])
    assert bytes(m.decrypt_hybrid_block(key, bytes([1, 2, 3]), 0, x[4 + n:])) == b"some data"
print("same operation")
""", kind="python")


seed("C02-recycled-scalars", "C02",
     [(BM, """        std::iter::repeat_with(|| self.gen_rand_scalar_inner(&mut rng))
            .take(size)
            .collect()
    }

    fn g3_gen_exp_vector""", """        // a fresh stream every 64 elements
        let mut i = 0;
        std::iter::repeat_with(|| {
            if i % 64 == 0 && i < size / 64 {
                rng = rand_hc::Hc128Rng::from_seed([i as u8; 32]);
            }
            i += 1;
            self.gen_rand_scalar_inner(&mut rng)
        })
        .take(size)
        .collect()
    }

    fn g3_gen_exp_vector"""), ],
     "a random vector of at least 64 elements", "the secrets of a large master key come from a constant seed",
     r"""
fn main() {
    let g = Sch::default();
    for n in [3usize, 20, 70] {
        let (a, _, _) = AbeScheme::generate_master_key(&g, n).unwrap();
        let (b, _, _) = AbeScheme::generate_master_key(&g, n).unwrap();
        let (a, b) = (a.try_into_bytes().unwrap(), b.try_into_bytes().unwrap());
        for i in 0..n {
            let r = 4 + 32 * i..36 + 32 * i;
            if a[r.clone()] == b[r.clone()] {
                println!("two master keys for {n} attributes share element {i}");
                std::process::exit(1);
            }
        }
    }
}
""")

seed("C06-everything-current", "C06",
     [(M, """            .flat_map(BinaryHeap::iter)
            .map(|attr| Node::Leaf(*attr))
            .reduce(BitOr::bitor)
            .ok_or(""", """            .filter_map(BinaryHeap::peek)
            .map(|attr| Node::Leaf(*attr))
            .reduce(BitOr::bitor)
            .ok_or(""")],
     "a key for everything made after an attribute was rotated", "a key for everything does not open what was encrypted before the rotation",
     r"""
fn main() {
    let mut p = Policy::new(20);
    p.add_axis(&PolicyAxis::new("Level", &["Low", "Mid", "High"], true)).unwrap();
    p.add_axis(&PolicyAxis::new("Dep", &["FIN", "MKG"], false)).unwrap();
    let e = Eng::new();
    let (msk, mpk, _) = e.generate_master_key(&p).unwrap();
    for (axis, name, rotate) in [("Dep", "MKG", false), ("Level", "Low", true), ("Dep", "FIN", true)] {
        let a = [Attribute::new(axis, name)];
        let m = e.random_message().unwrap();
        let ct = e.encrypt(&p, &mpk, &a, &m).unwrap();
        if rotate {
            p.rotate(&a[0]).unwrap();
        }
        let k = e.generate_user_key(&p, &msk, &AccessPolicy::All).unwrap();
        if e.decrypt(&ct, &k).ok().flatten() != Some(m) {
            println!("a key for everything does not open what was encrypted for {name}");
            std::process::exit(1);
        }
    }
}
""")

seed("C07-adjacent-duplicates", "C07",
     [(M, """            row_to_attr.push(u);
            if attr_to_row.insert(u, i).is_some() {""", """            let repeated = row_to_attr.last() == Some(&u);
            row_to_attr.push(u);
            attr_to_row.insert(u, i);
            if repeated {""")],
     "an encoded access structure that repeats an attribute on rows that are not consecutive", "an access structure with an attribute on two rows is accepted",
     r"""
type Msp = MonotoneSpanProgram<i32>;
fn main() {
    for (text, row, other, good) in [("1 & 2 & 3", 0usize, 9u32, true), ("1 & 2 & 3", 1, 1, false), ("1 & 2 & 3", 2, 1, false), ("1 & (2 | 3)", 0, 3, false)] {
        let mut b = Node::parse(text).unwrap().to_msp().unwrap().try_into_bytes().unwrap();
        b[8 + 4 * row..12 + 4 * row].copy_from_slice(&other.to_be_bytes());
        if Msp::try_from_bytes(&b).is_ok() != good {
            println!("{text} with row {row} given to {other}: accepted {}", !good);
            std::process::exit(1);
        }
    }
}
""")

seed("C08-one-past-the-key", "C08",
     [(S, "            if attribute >= priv_key.t_i.len() {", "            if attribute > priv_key.t_i.len() {")],
     "a formula whose attribute is exactly the number of elements of the master key", "key generation crashes instead of returning an error",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, _, _) = AbeScheme::generate_master_key(&g, 5).unwrap();
    for (a, good) in [(3u32, true), (4, true), (5, false), (6, false), (100, false)] {
        let msp = Node::parse(&a.to_string()).unwrap().to_msp().unwrap();
        let r = std::panic::catch_unwind(|| AbeScheme::key_generation(&g, &msp, &msk).is_ok());
        if r.ok() != Some(good) {
            println!("key generation for attribute {a} of 5");
            std::process::exit(1);
        }
    }
}
""")

seed("C09-structure-size", "C09",
     [(M, "        if bytes.len() < 8 + 4 * nb_row {", "        if bytes.len() < 4 * nb_row {")],
     "an encoded access structure cut one or two attributes before the end of its attribute list", "decoding panics",
     r"""
type Msp = MonotoneSpanProgram<i32>;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let b = Node::parse("1 & 2 & 3 & 4 & 5").unwrap().to_msp().unwrap().try_into_bytes().unwrap();
    for n in 0..b.len() {
        let part = b[..n].to_vec();
        match std::panic::catch_unwind(|| Msp::try_from_bytes(&part).is_ok()) {
            Ok(false) => {}
            Ok(true) => { println!("{n} bytes accepted"); std::process::exit(1) }
            Err(_) => { println!("panic on {n} bytes"); std::process::exit(1) }
        }
    }
}
""")

seed("C10-no-common-attribute", "C10",
     [(S, "        if matrix.is_empty() || matrix[0].is_empty() {", "        if matrix.iter().any(Vec::is_empty) {")],
     "a ciphertext and a key without any attribute in common", "decryption panics instead of returning an error",
     r"""
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 9).unwrap();
    let msg = g.generate_random_plaintext().unwrap();
    let ct = AbeScheme::encrypt(&g, &msg, &[1, 2, 3], &mpk).unwrap().try_into_bytes().unwrap();
    for text in ["1", "1 & 4", "4", "5 & 6"] {
        let k = AbeScheme::key_generation(&g, &Node::parse(text).unwrap().to_msp().unwrap(), &msk).unwrap().try_into_bytes().unwrap();
        let ct = ct.clone();
        let r = std::panic::catch_unwind(move || {
            let g = Sch::default();
            let ct = <Sch as AbeScheme>::CipherText::try_from_bytes(&ct).unwrap();
            let k = <Sch as AbeScheme>::UserDecryptionKey::try_from_bytes(&k).unwrap();
            matches!(AbeScheme::decrypt(&g, &ct, &k), Ok(Some(_)))
        });
        if r.ok() != Some(text == "1") {
            println!("decrypting with a key for {text}");
            std::process::exit(1);
        }
    }
}
""")

seed("C11-short-count", "C11",
     [(G, "        let len = u32::try_from(self.len())?.to_be_bytes();", "        let len = (u32::try_from(self.len())? & 0xFFFF).to_be_bytes();")],
     "a collection of more than 65535 elements", "the elements after the first 65536 are lost",
     r"""
fn main() {
    for n in [1usize, 300, 65535, 70000] {
        let v: Vec<u32> = (0..n as u32).collect();
        let b = v.try_into_bytes().unwrap();
        if b.len() != v.len_bytes() || Vec::<u32>::try_from_bytes(&b).ok().as_ref() != Some(&v) {
            println!("{n} elements are not read back");
            std::process::exit(1);
        }
    }
}
""")

seed("C12-bytes-for-elements", "C12",
     [(G, "        let mut res = Self::with_capacity(len);", "        let mut res = Self::with_capacity(len * res0_len_bytes);")],
     "any collection: the memory reserved is not visible in results", "the reserved capacity is the size in bytes instead of the number of elements",
     r"""
fn main() {
    for n in [1usize, 10, 5000] {
        let v: Vec<u32> = (0..n as u32).collect();
        let b = v.try_into_bytes().unwrap();
        let r = Vec::<u32>::try_from_bytes(&b).unwrap();
        if r.capacity() * 4 > b.len() + 16 {
            println!("room for {} elements for {} bytes", r.capacity(), b.len());
            std::process::exit(1);
        }
    }
}
""")

seed("C12-columns-first", "C12",
     [(M, """        let mut row_to_attr = Vec::with_capacity(nb_row);
        let mut attr_to_row = HashMap::with_capacity(nb_row);""", """        let mut row_to_attr = Vec::with_capacity(nb_row.max(nb_col));
        let mut attr_to_row = HashMap::with_capacity(nb_row);""")],
     "an encoded access structure that announces more columns than it holds", "memory is reserved for the announced columns before they are compared with the input",
     r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
type Msp = MonotoneSpanProgram<i32>;
fn main() {
    let b = Node::parse("1 & 2 & 3").unwrap().to_msp().unwrap().try_into_bytes().unwrap();
    for cols in [3u32, 100, 1 << 20] {
        let mut b = b.clone();
        b[4..8].copy_from_slice(&cols.to_be_bytes());
        MAX.store(0, Ordering::Relaxed);
        let ok = Msp::try_from_bytes(&b).is_ok();
        let most = MAX.load(Ordering::Relaxed);
        if ok != (cols == 3) || most > 10_000 {
            println!("{cols} columns announced: {most} bytes reserved at once");
            std::process::exit(1);
        }
    }
}
""")

seed("C13-derived-master-secret", "C13",
     [(S, """        let y = self.group.gen_random_scalar()?;
        let big_y""", """        // the master secret
        let y = match t_i.split_last() {
            Some((last, [])) => last.clone(),
            _ => self.group.gen_random_scalar()?,
        };
        let big_y""")],
     "a master key with a single element", "the master secret equals the only attribute secret",
     r"""
fn main() {
    let g = Sch::default();
    for n in [1usize, 2, 6] {
        let (a, _, _) = AbeScheme::generate_master_key(&g, n).unwrap();
        let a = a.try_into_bytes().unwrap();
        let y = &a[a.len() - 32..];
        for i in 0..n {
            if &a[4 + 32 * i..36 + 32 * i] == y {
                println!("the master secret is the secret of attribute {i} of {n}");
                std::process::exit(1);
            }
        }
    }
}
""")

seed("C15-short-key", "C15",
     [(EN, ("            .read_boxed(symmetric_key_len)\n            .into_vec();\n        Ok((sym_key"), "            .read_boxed(symmetric_key_len.min(64))\n            .into_vec();\n        Ok((sym_key"),
      (EN, "            .read_boxed(symmetric_key_len)\n            .into_vec())\n", "            .read_boxed(symmetric_key_len.min(64))\n            .into_vec())\n")],
     "a symmetric key of more than 64 bytes", "the key is shorter than requested, on both sides",
     r"""
fn main() {
    let mut p = Policy::new(20);
    p.add_axis(&PolicyAxis::new("Dep", &["FIN", "MKG"], false)).unwrap();
    let e = Eng::new();
    let (msk, mpk, _) = e.generate_master_key(&p).unwrap();
    let k = e.generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")).unwrap();
    for n in [16usize, 32, 64, 65, 200] {
        let (a, c) = e.generate_symmetric_key(&p, &mpk, &[Attribute::new("Dep", "FIN")], n).unwrap();
        let b = e.decrypt_symmetric_key(&k, &c, n).unwrap();
        if a != b || a.len() != n {
            println!("{n} bytes requested, {} and {} returned", a.len(), b.len());
            std::process::exit(1);
        }
    }
}
""")

seed("C24-scalar-in-error", "C24",
     [(B, """            Err(FormatErr::Deserialization(
                "Failed deserializing scalar".to_string(),
            ))""", """            Err(FormatErr::Deserialization(format!(
                "Failed deserializing scalar {:02x?}",
                &bytes[0..32]
            )))""")],
     "a master private key with a damaged element", "bytes of the master private key are written in the error text",
     r"""
fn main() {
    let g = Sch::default();
    let (a, _, _) = AbeScheme::generate_master_key(&g, 3).unwrap();
    let good = a.try_into_bytes().unwrap();
    for i in 0..4 {
        let mut b = good.clone();
        // the most significant byte of an element, which is written last
        let at = if i < 3 { 4 + 32 * i + 31 } else { b.len() - 1 };
        b[at] = 0xff;
        let e = <Sch as AbeScheme>::MasterPrivateKey::try_from_bytes(&b).err().map(|e| format!("{e} {e:?}")).unwrap_or_default();
        let (x, y) = (b[at - 3], b[at - 2]);
        for t in [format!("{x:02x}, {y:02x}"), format!("{x}, {y}"), format!("{x:02x}{y:02x}")] {
            if e.is_empty() || e.contains(&t) {
                println!("the error for element {i} shows the key: {e}");
                std::process::exit(1);
            }
        }
    }
}
""")

seed("C26-symbol-only-with-python", "C26",
     [(FH, """#[no_mangle]
/// The function should be called to reclaim memory
/// of the cache created using `h_aes_create_encrypt_cache` function""", """#[cfg_attr(feature = "python", no_mangle)]
/// The function should be called to reclaim memory
/// of the cache created using `h_aes_create_encrypt_cache` function""")],
     "the library built with the C interface alone", "the C symbol h_aes_destroy_encryption_cache is missing",
     r"""
use cosmian_abe_gpsw as _;
mod c {
    extern "C" {
        pub fn h_aes_destroy_encryption_cache(h: i32) -> i32;
        pub fn h_aes_destroy_decryption_cache(h: i32) -> i32;
    }
}
fn main() {
    unsafe {
        if c::h_aes_destroy_encryption_cache(1000) != 0 || c::h_aes_destroy_decryption_cache(1000) != 0 {
            std::process::exit(1);
        }
    }
}
""")

seed("C27-readable-master-key", "C27",
     [(S, """impl<G: BilinearMap> AsBytes for GpswMasterPrivateKey<G> {
""", """impl<G: BilinearMap> AsRef<[G::Scalar]> for GpswMasterPrivateKey<G> {
    fn as_ref(&self) -> &[G::Scalar] {
        &self.t_i
    }
}

impl<G: BilinearMap> AsBytes for GpswMasterPrivateKey<G> {
""")],
     "a program outside the library that asks for a view of a master private key", "the attribute secrets can be read without serialising the key",
     r"""
use std::marker::PhantomData;
struct Probe<T>(PhantomData<T>);
trait Refused { fn found(&self) -> bool { false } }
impl<T> Refused for &Probe<T> {}
struct Read<T>(PhantomData<T>);
impl<T> Refused for &Read<T> {}
type Msk = <Sch as AbeScheme>::MasterPrivateKey;
type Sca = <Bls12_381 as BilinearMap>::Scalar;
impl<T: Clone> Probe<T> { fn found(&self) -> bool { true } }
impl<T: AsRef<[Sca]>> Read<T> { fn found(&self) -> bool { true } }
fn main() {
    if (&Probe::<Msk>(PhantomData)).found() { println!("a master private key can be cloned"); std::process::exit(1) }
    if (&Read::<Msk>(PhantomData)).found() { println!("the secrets of a master private key can be read"); std::process::exit(1) }
}
""")

seed("C27-second-derive", "C27",
     [(S, """impl<G: BilinearMap> PartialEq for GpswDecryptionKey<G> {""", """impl<G: BilinearMap> Clone for GpswMasterPrivateKey<G> {
    fn clone(&self) -> Self {
        Self {
            t_i: self.t_i.clone(),
            y: self.y.clone(),
        }
    }
}

impl<G: BilinearMap> PartialEq for GpswDecryptionKey<G> {""")],
     "a program outside the library that clones a master private key", "a master private key can be duplicated",
     r"""
use std::marker::PhantomData;
struct Probe<T>(PhantomData<T>);
trait Refused { fn found(&self) -> bool { false } }
impl<T> Refused for &Probe<T> {}
type Msk = <Sch as AbeScheme>::MasterPrivateKey;
impl<T: Clone> Probe<T> { fn found(&self) -> bool { true } }
fn main() {
    if (&Probe::<Msk>(PhantomData)).found() { println!("a master private key can be cloned"); std::process::exit(1) }
}
""")

seed("C28-unchecked-element", "C28",
     [(S, """            if attribute >= priv_key.t_i.len() {
                return Err(FormatErr::InternalOperation(
                    "Monotone Span Program is invalid: msp-row larger than private-key-t_i"
                        .to_string(),
                ));
            }
            let t_rho_i = &priv_key.t_i[attribute];""", """            if attribute > priv_key.t_i.len() {
                return Err(FormatErr::InternalOperation(
                    "Monotone Span Program is invalid: msp-row larger than private-key-t_i"
                        .to_string(),
                ));
            }
            // just checked
            let t_rho_i = unsafe { priv_key.t_i.get_unchecked(attribute) };""")],
     "a formula whose attribute is exactly the number of elements of the master key", "key generation reads past the end of the master key",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, _, _) = AbeScheme::generate_master_key(&g, 5).unwrap();
    for (a, good) in [(4u32, true), (5, false), (6, false)] {
        let msp = Node::parse(&a.to_string()).unwrap().to_msp().unwrap();
        let r = std::panic::catch_unwind(|| AbeScheme::key_generation(&g, &msp, &msk).is_ok());
        if r.ok() != Some(good) {
            println!("key generation for attribute {a} of 5");
            std::process::exit(1);
        }
    }
}
""")

seed("C29-unknown-handle", "C29",
     [(FH, """pub unsafe extern "C" fn h_aes_destroy_encryption_cache(cache_handle: c_int) -> c_int {
    let mut map = ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed");
    map.remove(&cache_handle);
    0""", """pub unsafe extern "C" fn h_aes_destroy_encryption_cache(cache_handle: c_int) -> c_int {
    let map = ENCRYPTION_CACHE_MAP
        .read()
        .expect("A read mutex on encryption cache failed");
    if map.contains_key(&cache_handle) {
        drop(map);
    }
    ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed")
        .remove(&cache_handle);
    0""")],
     "destroying a handle that is not, or no longer, in the table", "the call waits for ever for a lock it holds itself",
     FFI + r"""
fn main() {
    let (p, _, mpk, _) = setup();
    let pj = cjson(&p);
    let k = mpk.try_into_bytes().unwrap();
    let mut h = -1i32;
    unsafe {
        if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 0 { fail(&last_error()) }
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || unsafe {
        h_aes_destroy_encryption_cache(h);
        h_aes_destroy_encryption_cache(h);
        tx.send(()).unwrap();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { fail("destroying a handle twice never returns") }
}
""", deps=FDEPS)

seed("C31-last-rotation-decides", "C31",
     [(FK, """    for attr in &attributes {
        ffi_unwrap!(policy.rotate(attr));
    }""", """    let mut rotated = Ok(());
    for attr in &attributes {
        rotated = policy.rotate(attr);
    }
    ffi_unwrap!(rotated);""")],
     "a list of attributes of which an earlier one cannot be rotated", "h_rotate_attributes reports success although a rotation failed",
     FFI + r"""
fn main() {
    let (p, _, _, _) = setup();
    let pj = cjson(&p);
    for (list, good) in [(vec![("Dep", "FIN")], true), (vec![("Dep", "FIN"), ("Dep", "None")], false), (vec![("Dep", "None"), ("Dep", "FIN")], false)] {
        let list: Vec<Attribute> = list.iter().map(|(a, b)| Attribute::new(a, b)).collect();
        let aj = cjson(&list);
        let mut out = vec![0i8; 20000];
        let mut n = 20000i32;
        let rc = unsafe { h_rotate_attributes(out.as_mut_ptr(), &mut n, aj.as_ptr(), pj.as_ptr()) };
        if (rc == 0) != good { fail(&format!("rotation of {list:?}: {rc}")) }
    }
}
""", deps=FDEPS)


# ---- second batch
seed("C25-masked-message", "C25",
     [(B, """        let mut vec = msg.to_vec();
        vec.resize(32, 0);
""", """        let mut vec = msg.to_vec();
        vec.resize(32, 0);
        // stay below the group order
        vec[31] &= 0x3f;
""")],
     "a message of 32 bytes whose last byte is 64 or more", "two messages have the same encoding",
     r"""
fn main() {
    let g = Sch::default();
    let m = |last: u8| { let mut m = vec![5u8; 32]; m[31] = last; m };
    let a = g.msg_encode(&m(1)).unwrap();
    for last in [0x41u8, 0x81, 0xc1, 2, 3] {
        if let Ok(b) = g.msg_encode(&m(last)) {
            if a == b { println!("messages ending in 1 and {last} are encoded alike"); std::process::exit(1) }
        }
    }
}
""")

seed("C30-sorted-hierarchy", "C30",
     [(PK, """            .collect::<Vec<_>>();

        policy
            .add_axis(""", """            .collect::<Vec<_>>();
        let mut attrs = attrs;
        if axis.hierarchical {
            // hierarchical axes are in lexicographical order
            attrs.sort_unstable();
        }

        policy
            .add_axis(""")],
     "a hierarchical axis whose attributes are not in alphabetical order", "the hierarchy of the created policy is another one than requested",
     r"""
import json
import cosmian_abe_gpsw as m

for names in (["a", "b", "c"], ["Protected", "Confidential", "Secret"], ["low", "high"]):
    axes = [{"name": "Level", "attributes": names, "hierarchical": True}]
    policy = json.loads(bytes(m.generate_policy(policy_axis_bytes=json.dumps(axes).encode(), max_attribute_creations=10)))
    assert policy["axes"]["Level"][0] == names, policy["axes"]
print("as requested")
""", kind="python")

seed("C05-enough-rows", "C05",
     [(S, """        // find the α_i coefficients if any
        let a_i""", """        // as many rows as columns are enough
        let enough = key.msp.cols();
        matrix.truncate(enough);
        d_i.truncate(enough);
        e_i.truncate(enough);
        // find the α_i coefficients if any
        let a_i""")],
     "a ciphertext sharing more attributes with the key than its structure has columns, the decisive one last",
     "a key that satisfies the policy does not decrypt",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 12).unwrap();
    let msp = Node::parse("(1 | 2 | 3) & 4").unwrap().to_msp().unwrap();
    let key = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
    for list in [vec![1u32, 4], vec![4, 2, 3], vec![1, 2, 3, 4]] {
        let msg = g.generate_random_plaintext().unwrap();
        let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
        if AbeScheme::decrypt(&g, &ct, &key).unwrap() != Some(msg) {
            println!("{list:?} satisfies the key but is not decrypted");
            std::process::exit(1);
        }
    }
}
""")

seed("C06-shared-columns", "C06",
     [(M, """                    vec_1.resize(counter, 0_i32);
                    vec_1.push(1);""", """                    // only as many zeros as needed
                    let width = if vector.len() > 2 { vector.len() } else { counter };
                    vec_1.resize(width, 0_i32);
                    vec_1.push(1);"""),
      (M, "let mut vec_2 = vec![0_i32; counter];", "let mut vec_2 = vec![0_i32; width];")],
     "two conjunctions side by side below two others", "attributes of different branches are combined as if they were of the same conjunction",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 20).unwrap();
    let msp = (Node::Leaf(1) & (Node::Leaf(2) & ((Node::Leaf(3) & Node::Leaf(4)) | (Node::Leaf(5) & Node::Leaf(6))))).to_msp().unwrap();
    let key = AbeScheme::key_generation(&g, &msp, &msk).unwrap();
    for (list, sat) in [(vec![1u32, 2, 3, 4], true), (vec![1, 2, 5, 6], true), (vec![1, 2, 3, 6], false), (vec![1, 2, 5, 4], false)] {
        let msg = g.generate_random_plaintext().unwrap();
        let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
        if (AbeScheme::decrypt(&g, &ct, &key).unwrap() == Some(msg)) != sat {
            println!("{list:?}: satisfied {sat}, decryption says otherwise");
            std::process::exit(1);
        }
    }
}
""")

seed("C14-metadata-length", "C14",
     [(H, "header_bytes.extend(u32_len(&encrypted_metadata)?);", "header_bytes.extend((encrypted_metadata.len() as u32 & 0xFF_FFFF).to_be_bytes());")],
     "metadata of 16 MiB or more", "the metadata cannot be read back",
     HYB + r"""
fn main() {
    let (p, msk, mpk, _) = setup();
    let uk = Eng::new().generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")).unwrap();
    for n in [10usize, 1000, 66000, 17_000_000] {
        let m = Metadata { uid: vec![1, 2], additional_data: Some(vec![7; n]) };
        let h = encrypt_hybrid_header::<Sch, Aes>(&p, &mpk, &attrs("Low", "FIN"), Some(m)).unwrap();
        match decrypt_hybrid_header::<Sch, Aes>(&uk, &h.encrypted_header_bytes) {
            Ok(c) if c.meta_data.additional_data == Some(vec![7; n]) => (),
            _ => fail(&format!("{n} bytes of metadata are not read back")),
        }
    }
}
""", deps=CRYPTO)

seed("C02-generator-kept", "C02",
     [(BM, """    fn gen_random_scalar(&self) -> Result<Self::Scalar, FormatErr> {
        let mut rng = rand_hc::Hc128Rng::from_entropy();
        self.gen_rand_scalar_inner(&mut rng)
    }""", """    fn gen_random_scalar(&self) -> Result<Self::Scalar, FormatErr> {
        // seeding is slow: once per thread is enough
        thread_local! {
            static RNG: std::cell::RefCell<rand_hc::Hc128Rng> =
                std::cell::RefCell::new(rand_hc::Hc128Rng::from_entropy());
        }
        RNG.with(|rng| self.gen_rand_scalar_inner(&mut *rng.borrow_mut()))
    }""")],
     "a process that forks after its first encryption", "parent and child encrypt with the same exponents",
     r"""
extern "C" { fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn write(f: i32, b: *const u8, n: usize) -> isize; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
fn main() {
    let g = Bls12_381::default();
    let _ = g.gen_random_scalar().unwrap();
    let mut p = [0i32; 2];
    unsafe {
        if pipe(p.as_mut_ptr()) != 0 { std::process::exit(2) }
        let child = fork();
        let mine = g.gen_random_scalar().unwrap().try_into_bytes().unwrap();
        if child == 0 {
            write(p[1], mine.as_ptr(), mine.len());
            _exit(0);
        }
        let mut other = vec![0u8; mine.len()];
        read(p[0], other.as_mut_ptr(), other.len());
        if other == mine { println!("the same scalar is drawn in parent and child"); std::process::exit(1) }
    }
}
""")

seed("C04-same-attributes", "C04",
     [(S, """        del_key: &GpswMasterPublicDelegationKey<G>,
    ) -> Result<GpswDecryptionKey<G>, FormatErr> {
        let u = match msp.cols() {
            0 => return Err(FormatErr::InternalOperation("empty MSP".to_string())),
            1 => vec![G::ZERO],""", """        del_key: &GpswMasterPublicDelegationKey<G>,
    ) -> Result<GpswDecryptionKey<G>, FormatErr> {
        // the same structure: the key only has to be renewed
        if msp.row_to_attr == user_key.msp.row_to_attr {
            return self.key_randomization(user_key, del_key);
        }
        let u = match msp.cols() {
            0 => return Err(FormatErr::InternalOperation("empty MSP".to_string())),
            1 => vec![G::ZERO],""")],
     "a delegation naming the same attributes as the parent key with other operators", "the delegated key has the rights of the parent key",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, del) = AbeScheme::generate_master_key(&g, 12).unwrap();
    let key = AbeScheme::key_generation(&g, &Node::parse("1 | 2").unwrap().to_msp().unwrap(), &msk).unwrap();
    for (f, list, sat) in [("1", vec![1u32], true), ("1 & 2", vec![1, 2], false), ("2 | 1", vec![2], true), ("1 & 2", vec![1], false), ("1 & 2", vec![2], false)] {
        let d = AbeScheme::key_delegation(&g, &Some(Node::parse(f).unwrap().to_msp().unwrap()), &key, &del).unwrap();
        let msg = g.generate_random_plaintext().unwrap();
        let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
        let opened = AbeScheme::decrypt(&g, &ct, &d).unwrap() == Some(msg);
        if !sat && list.len() == 1 && opened {
            println!("a key delegated for {f} opens {list:?}");
            std::process::exit(1);
        }
    }
}
""")

seed("C08-wide-formula", "C08",
     [(S, """            0 => return Err(FormatErr::InternalOperation("empty MSP".to_string())),
            1 => vec![priv_key.y.clone()],""", """            // an access structure has few columns: refuse what is out of proportion
            0 | 65.. => return Err(FormatErr::InternalOperation("invalid MSP".to_string())),
            1 => vec![priv_key.y.clone()],""")],
     "a formula with more than 64 conjunctions over attributes of the master key", "key generation fails although the master key has an element for every value",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 80).unwrap();
    for n in [2u32, 20, 70] {
        let list: Vec<u32> = (1..=n).collect();
        let f = list.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(" & ");
        let msp = Node::parse(&f).unwrap().to_msp().unwrap();
        let key = match AbeScheme::key_generation(&g, &msp, &msk) {
            Ok(k) => k,
            Err(e) => { println!("{n} attributes: {e}"); std::process::exit(1) }
        };
        let msg = g.generate_random_plaintext().unwrap();
        let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
        assert!(AbeScheme::decrypt(&g, &ct, &key).unwrap() == Some(msg));
    }
}
""")

seed("C08-last-element", "C08",
     [(S, "            if attribute >= priv_key.t_i.len() {", "            // as for encryption, the number of values is below the number of elements\n            if attribute + 1 >= priv_key.t_i.len() {")],
     "the last value a policy can assign, after rotations up to its limit", "key generation for it fails although the master key has its element",
     r"""
fn main() {
    let mut p = Policy::new(6);
    p.add_axis(&PolicyAxis::new("Dep", &["FIN", "HR"], false)).unwrap();
    let (msk, mpk, _) = Eng::new().generate_master_key(&p).unwrap();
    let a = Attribute::new("Dep", "FIN");
    for n in 2..=6 {
        let m = Eng::new().random_message().unwrap();
        let k = match Eng::new().generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")) {
            Ok(k) => k,
            Err(e) => { println!("{n} values: {e}"); std::process::exit(1) }
        };
        let ct = Eng::new().encrypt(&p, &mpk, &[a.clone()], &m).unwrap();
        assert!(Eng::new().decrypt(&ct, &k).unwrap() == Some(m));
        if n < 6 { p.rotate(&a).unwrap(); }
    }
}
""")

seed("C22-evicted-cache", "C22",
     [(FH, """    map.insert(id, cache);
    *cache_handle = id;
    0
}

#[no_mangle]
/// The function should be called to reclaim memory
/// of the cache created using `h_aes_create_encrypt_cache`""", """    // clients forget to destroy their caches: keep the most recent ones
    if map.len() >= 256 {
        if let Some(oldest) = map.keys().min().copied() {
            map.remove(&oldest);
        }
    }
    map.insert(id, cache);
    *cache_handle = id;
    0
}

#[no_mangle]
/// The function should be called to reclaim memory
/// of the cache created using `h_aes_create_encrypt_cache`""")],
     "more than 256 encryption caches alive", "the oldest handle no longer denotes its cache",
     FFI + r"""
fn main() {
    let (p, _, mpk, _) = setup();
    let pj = cjson(&p);
    let k = mpk.try_into_bytes().unwrap();
    let aj = cjson(&attrs("Low", "FIN"));
    unsafe {
        let mut first = None;
        for _ in 0..300 {
            let mut h = -1i32;
            if h_aes_create_encryption_cache(&mut h, pj.as_ptr(), k.as_ptr().cast(), k.len() as i32) != 0 { fail(&last_error()) }
            first = first.or(Some(h));
        }
        let mut key = vec![0i8; 64];
        let mut kl = 64i32;
        let mut hd = vec![0i8; 8192];
        let mut hl = 8192i32;
        let uid = [1u8; 4];
        let rc = h_aes_encrypt_header_using_cache(key.as_mut_ptr(), &mut kl, hd.as_mut_ptr(), &mut hl, first.unwrap(), aj.as_ptr(), uid.as_ptr().cast(), 4, std::ptr::null(), 0);
        if rc != 0 { fail(&last_error()) }
    }
}
""", deps=FDEPS)

seed("C21-first-error-kept", "C21",
     [(FE, "        *prev.borrow_mut() = Some(Box::new(err));", "        // the first error is the cause of the others\n        prev.borrow_mut().get_or_insert_with(|| Box::new(err));")],
     "two failing calls without reading the error of the first", "the last error is that of the first failure",
     FFI + r"""
fn main() {
    unsafe {
        let m = CString::new("first").unwrap();
        set_error(m.as_ptr());
        let m = CString::new("second").unwrap();
        set_error(m.as_ptr());
        if !last_error().contains("second") { fail("the last failure is not the one reported") }
    }
}
""", deps=FDEPS)

seed("C24-quoted-plaintext", "C24",
     [(H, """            "The data to encrypt is too large: {} bytes, max size: {} ",
            plaintext.len(),
            MAX_CLEAR_TEXT_SIZE
""", """            "The data to encrypt is too large: {} bytes starting with {:02x?}, max size: {} ",
            plaintext.len(),
            &plaintext[..16.min(plaintext.len())],
            MAX_CLEAR_TEXT_SIZE
""")],
     "a plaintext over the block limit", "the beginning of the plaintext is written in the error text",
     HYB + r"""
fn main() {
    let key = Key::try_from_bytes(&[3u8; 32]).unwrap();
    let e = |b: u8| encrypt_hybrid_block::<Sch, Aes, 16>(&key, &[], 0, &[b; 40]).unwrap_err().to_string();
    if e(0x5a) != e(0x17) { fail(&e(0x5a)) }
}
""", deps=CRYPTO)


# formulas over distinct attributes, with lists that satisfy them or not
FORMULAS = r"""
struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
fn formula(r: &mut Rng, attrs: &[u32]) -> String {
    if attrs.len() == 1 {
        return attrs[0].to_string();
    }
    let n = 1 + r.next(attrs.len() as u64 - 1) as usize;
    let (a, b) = (formula(r, &attrs[..n]), formula(r, &attrs[n..]));
    format!("({a} {} {b})", if r.next(2) == 0 { "&" } else { "|" })
}
// truth of a formula written by `formula`
fn holds(f: &str, list: &[u32]) -> bool {
    if !f.starts_with('(') {
        return list.contains(&f.parse().unwrap());
    }
    let (inner, mut depth) = (&f[1..f.len() - 1], 0);
    for (i, c) in inner.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            '&' if depth == 0 => return holds(inner[..i].trim(), list) && holds(inner[i + 1..].trim(), list),
            '|' if depth == 0 => return holds(inner[..i].trim(), list) || holds(inner[i + 1..].trim(), list),
            _ => (),
        }
    }
    unreachable!()
}
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 16).unwrap();
    let mut r = Rng(7);
    for n in 0..220 {
        let size = 1 + r.next(9) as usize;
        let mut attrs = (1..=9u32).collect::<Vec<_>>();
        for i in 0..attrs.len() {
            let j = r.next(9) as usize;
            attrs.swap(i, j);
        }
        let f = if n % 4 == 0 { attrs[..size].iter().map(|a| a.to_string()).reduce(|a, b| format!("({a} & {b})")).unwrap() } else { formula(&mut r, &attrs[..size]) };
        let key = AbeScheme::key_generation(&g, &Node::parse(&f).unwrap().to_msp().unwrap(), &msk).unwrap();
        for _ in 0..4 {
            let keep = 1 + r.next(8);
            let mut list = attrs[..size].iter().copied().filter(|_| r.next(8) < keep).collect::<Vec<_>>();
            if list.is_empty() {
                list.push(attrs[0]);
            }
            let k = r.next(list.len() as u64) as usize;
            list.rotate_left(k);
            let msg = g.generate_random_plaintext().unwrap();
            let ct = AbeScheme::encrypt(&g, &msg, &list, &mpk).unwrap();
            let back = AbeScheme::decrypt(&g, &ct, &key).unwrap();
            let want = if holds(&f, &list) { Some(msg) } else { None };
            if back != want {
                println!("{f} with {list:?}: expected {}, got {}", want.is_some(), back.is_some());
                std::process::exit(1);
            }
        }
    }
}
"""

seed("C32-rows-above", "C32",
     [(S, "                for r in 0..curr_row {", "                // only the neighbours of the pivot can have an entry in its column\n                for r in curr_row.saturating_sub(2)..curr_row {")],
     "an access structure where the column of a late pivot has an entry three equations above or more",
     "that entry is not eliminated, so the coefficients do not solve the system",
     FORMULAS)

seed("C32-one-below", "C32",
     [(S, """                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))
                        }
                    }
                }
                // reverse side""", """                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))
                        }
                        // the rows of a formula have one entry below another
                        if curr_row > 2 {
                            break;
                        }
                    }
                }
                // reverse side""")],
     "a pivot after the third equation with several entries below it", "only the first entry below the pivot is eliminated",
     FORMULAS)

seed("C33-byte-rows", "C33",
     [("src/core/msp.rs", "        self.attr_to_row.get(&attr).copied()\n", "        // structures are small, a byte is enough for a row\n        self.attr_to_row.get(&attr).map(|row| usize::from(*row as u8))\n")],
     "an access structure of more than 256 attributes", "an attribute is taken for the one 256 rows before it, so a ciphertext the key should open gives another plaintext",
     r"""
fn main() {
    let g = Sch::default();
    let (msk, mpk, _) = AbeScheme::generate_master_key(&g, 300).unwrap();
    for n in [3u32, 100, 280] {
        let f = (1..=n).map(|i| i.to_string()).collect::<Vec<_>>().join(" | ");
        let key = AbeScheme::key_generation(&g, &Node::parse(&f).unwrap().to_msp().unwrap(), &msk).unwrap();
        for a in [1, 2, n / 2, n] {
            let msg = g.generate_random_plaintext().unwrap();
            let ct = AbeScheme::encrypt(&g, &msg, &[a], &mpk).unwrap();
            if AbeScheme::decrypt(&g, &ct, &key).unwrap() != Some(msg) {
                println!("one of {n} attributes: {a} does not open");
                std::process::exit(1);
            }
        }
    }
}
""")


TEXTS = r"""
use std::panic;
use rand::{Rng, SeedableRng};

fn show(n: &Node) -> String {
    match n {
        Node::Leaf(i) => i.to_string(),
        Node::And(a, b) => format!("[{}&{}]", show(a), show(b)),
        Node::Or(a, b) => format!("[{}|{}]", show(a), show(b)),
    }
}

/// the tree a text denotes, from its characters
fn formula(t: &[char]) -> Option<String> {
    let first = *t.first()?;
    let (left, rest) = if first.is_ascii_digit() {
        let n = t.iter().take_while(|c| c.is_ascii_digit()).count();
        (t[..n].iter().collect::<String>().parse::<u32>().ok()?.to_string(), &t[n..])
    } else if first == '(' {
        let mut depth = 0i64;
        let close = t.iter().position(|c| {
            depth += match c { '(' => 1, ')' => -1, _ => 0 };
            depth == 0
        })?;
        (formula(&t[1..close])?, &t[close + 1..])
    } else {
        return None;
    };
    if rest.is_empty() {
        return Some(left);
    }
    let right = formula(&rest[1..])?;
    match rest[0] {
        '&' => Some(format!("[{left}&{right}]")),
        '|' => Some(format!("[{left}|{right}]")),
        _ => None,
    }
}

fn denotes(s: &str) -> Option<String> {
    if s.chars().any(|c| !" ()&|0123456789".contains(c)) {
        return None;
    }
    formula(&s.chars().filter(|c| *c != ' ').collect::<Vec<_>>())
}

fn build(r: &mut rand::rngs::StdRng, depth: u32) -> String {
    let op = if r.gen::<bool>() { "&" } else { " | " };
    match if depth == 0 { 0 } else { r.gen_range(0..6) } {
        0 | 1 => (r.gen::<u32>() >> (r.gen::<u32>() % 32)).to_string(),
        2 => format!("({})", build(r, depth - 1)),
        3 => format!("({}){op}{}", build(r, depth - 1), build(r, depth - 1)),
        4 => format!("{}{op}{}", r.gen::<u16>(), build(r, depth - 1)),
        _ => format!("({}){op}({})", build(r, depth - 1), build(r, depth - 1)),
    }
}

fn run() -> i32 {
    let mut r = rand::rngs::StdRng::seed_from_u64(7);
    let odd: Vec<char> = " ()&|0123456789a!\u{e9}\u{a0}\t".chars().collect();
    let mut texts: Vec<String> = ["", " ", "(", ")", "()", "(1)&", "(1)|", "1&", "&1", "(1)2", "(1))", "((1)", "1 2", "4294967295", "4294967296", "99999999999", "\u{a0}1", "1\u{a0}", "1\u{e9}&2"]
        .iter().map(|s| s.to_string()).collect();
    for n in [5, 100, 130, 260] {
        texts.push(format!("{}7{}|8", "(".repeat(n), ")".repeat(n)));
        texts.push(format!("({}1{})&2", "(3)|(".repeat(n), ")".repeat(n)));
        texts.push(format!("({})&(2)", vec!["(1)"; n].join("|")));
    }
    for _ in 0..400 {
        let s = build(&mut r, 5);
        let mut c: Vec<char> = s.chars().collect();
        let at = r.gen_range(0..c.len());
        match r.gen_range(0..3) {
            0 => { c.remove(at); }
            1 => { c.insert(at, odd[r.gen_range(0..odd.len())]); }
            _ => c[at] = odd[r.gen_range(0..odd.len())],
        }
        texts.push(s);
        texts.push(c.into_iter().collect());
    }
    let mut bad = 0;
    for s in texts {
        let want = denotes(&s);
        let got = panic::catch_unwind(|| Node::parse(&s).ok().map(|n| show(&n)));
        if got.is_err() || got.as_ref().unwrap() != &want {
            bad += 1;
            if bad < 4 {
                println!("{:.60}: {:?} instead of {:?}", s, got.map(|x| x.map(|y| y.chars().take(60).collect::<String>())), want.map(|y| y.chars().take(60).collect::<String>()));
            }
        }
    }
    (bad > 0) as i32
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let code = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap_or(1);
    std::process::exit(code);
}
"""

seed("C34-small-depth", "C34",
     [(M, "let mut count = 0;", "// the nesting is never deep\n            let mut count = 0i8;")],
     "a formula with more than 127 groups inside one another", "the counter of open groups overflows", TEXTS, deps='rand = "0.8"\n')

seed("C34-wide-number", "C34",
     [(M, "integer_str.parse::<u32>()?;", "integer_str.parse::<u64>()? as u32;")],
     "a number that does not fit 32 bits", "it is taken for another attribute instead of being refused", TEXTS, deps='rand = "0.8"\n')

seed("C34-wide-space", "C34",
     [(M, "            ' ', '(', ')', '&',", "            ' ', '\\u{a0}', '(', ')', '&',")],
     "a text with a no-break space, as pasted from a document", "the character is let through and the text is cut inside it", TEXTS, deps='rand = "0.8"\n')

seed("C34-closing-search", "C34",
     [(M, "            for (index, c) in new_s.chars().enumerate() {", "            // groups are short\n            for (index, c) in new_s.chars().enumerate().take(256) {")],
     "a group longer than 256 characters", "its end is not found, so the formula is cut at its first character", TEXTS, deps='rand = "0.8"\n')

seed("C35-short-derived-keys", "C35",
     [(EN, """            )?
            .ok_or(FormatErr::InvalidEncryptedData)?;
        // Use a hash""", """            )?
            // a symmetric key has at most 256 bits
            .filter(|_| symmetric_key_len <= 32)
            .ok_or(FormatErr::InvalidEncryptedData)?;
        // Use a hash""")],
     "symmetric keys of more than 32 bytes, as for a cipher and a MAC", "the key generated with the header cannot be decrypted",
     r"""
fn main() {
    let mut p = Policy::new(6);
    p.add_axis(&PolicyAxis::new("Dep", &["FIN", "HR"], false)).unwrap();
    let (msk, mpk, _) = Eng::new().generate_master_key(&p).unwrap();
    let uk = Eng::new().generate_user_key(&p, &msk, &AccessPolicy::new("Dep", "FIN")).unwrap();
    for n in [16usize, 32, 48, 64] {
        let (k, c) = Eng::new().generate_symmetric_key(&p, &mpk, &[Attribute::new("Dep", "FIN")], n).unwrap();
        match Eng::new().decrypt_symmetric_key(&uk, &c, n) {
            Ok(d) if d == k => (),
            x => { println!("{n} bytes: {x:?}"); std::process::exit(1) }
        }
    }
}
""")

seed("C35-element-count", "C35",
     [(G, "        let len = u32::try_from(self.len())?.to_be_bytes();", "        // policies have few values\n        let len = u32::from(u16::try_from(self.len()).map_err(|_| FormatErr::InvalidSize(\"too many elements\".to_string()))?).to_be_bytes();")],
     "a list of more than 65535 elements", "the keys of a large policy are generated but cannot be encoded",
     r"""
fn main() {
    for n in [0usize, 3, 65535, 65536, 70000] {
        let v: Vec<u32> = (0..n as u32).collect();
        match v.try_into_bytes() {
            Ok(b) if Vec::<u32>::try_from_bytes(&b).unwrap() == v => (),
            _ => { println!("{n} elements"); std::process::exit(1) }
        }
    }
}
""")
