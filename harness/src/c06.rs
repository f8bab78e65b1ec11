//! C06: ciphers round-trip and reject every alteration.
use crate::core::*;
use crate::wires::*;
use over_there::core::transport::crypto::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::Ordering;

fn nonce(n: usize, v: u8) -> Vec<u8> {
    (0..n).map(|i| v ^ (i as u8 * 5)).collect()
}
fn ad(b: &[u8]) -> AssociatedData {
    let mut a = [0u8; 12];
    let mut c = [0u8; 16];
    if b.len() == 12 {
        a.copy_from_slice(b);
        AssociatedData::Nonce(Nonce::Nonce96Bits(a))
    } else {
        c.copy_from_slice(b);
        AssociatedData::Nonce(Nonce::Nonce128Bits(c))
    }
}
fn make(k: CryptKind, key: &[u8]) -> DynCrypt {
    use std::convert::TryInto;
    use std::sync::Arc;
    let mut k64 = [0u8; 64];
    if key.len() == 64 {
        k64.copy_from_slice(key);
    }
    DynCrypt(match k {
        CryptKind::Noop => Arc::new(NoopBicrypter),
        CryptKind::Gcm128 => Arc::new(Aes128GcmBicrypter::new(key.try_into().unwrap())),
        CryptKind::Gcm256 => Arc::new(Aes256GcmBicrypter::new(key.try_into().unwrap())),
        CryptKind::GcmSiv128 => Arc::new(Aes128GcmSivBicrypter::new(key.try_into().unwrap())),
        CryptKind::GcmSiv256 => Arc::new(Aes256GcmSivBicrypter::new(key.try_into().unwrap())),
        CryptKind::Siv128 => Arc::new(Aes128SivBicrypter::new(key.try_into().unwrap())),
        CryptKind::Siv256 => Arc::new(Aes256SivBicrypter::new(&k64)),
    })
}
fn spec(k: CryptKind) -> (usize, usize) {
    match k {
        CryptKind::Noop => (0, 0),
        CryptKind::Gcm128 | CryptKind::GcmSiv128 => (16, 12),
        CryptKind::Gcm256 | CryptKind::GcmSiv256 => (32, 12),
        CryptKind::Siv128 => (32, 16),
        CryptKind::Siv256 => (64, 16),
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut items = vec![];
    for c in CRYPTS {
        for v in 0..ctx.pick(2u8, 6) {
            for cache in [false, true] {
                for part in 0..4 {
                    items.push((c, v, cache, part));
                }
            }
        }
    }
    par_items(ctx, &items, |ctx, _, (k, v, cache, part)| {
        let (kl, nl) = spec(*k);
        let key: Vec<u8> = (0..kl).map(|i| (i as u8).wrapping_mul(17) ^ v.wrapping_mul(91)).collect();
        // a fresh protected cipher per operation, so that the nonce cache never
        // interferes with repeated use of one nonce
        let mk = |key: &[u8]| if *cache { cached(make(*k, key), 4) } else { make(*k, key) };
        let name = format!("{:?} key {}{}", k, v, if *cache { " +nonce cache" } else { "" });
        let bad = |key: &str, what: String| ctx.violation(&format!("{}:{:?}", key, k), &format!("[{}] {}", name, what), json!({"cipher": format!("{:?}", k), "key": hex(&(0..kl).map(|i| (i as u8).wrapping_mul(17) ^ v.wrapping_mul(91)).collect::<Vec<_>>()), "what": what}));
        if *k == CryptKind::Noop {
            for len in 0..200usize {
                ctx.eval();
                let p = payload(*v, len);
                let c = mk(&key);
                let a = c.new_encrypt_associated_data();
                if a.nonce().is_some() {
                    bad("noop-nonce", "noop cipher asked for a nonce".into());
                }
                let e = c.encrypt(&p, &a);
                if e.as_ref().ok() != Some(&p) || mk(&key).decrypt(&p, &a).ok() != Some(p) {
                    bad("round-trip", format!("length {}", len));
                }
            }
            return;
        }
        let lens: Vec<usize> = match part {
            0 => (0..ctx.pick(300, 1100)).collect(),
            1 => vec![1023, 1024, 4095, 4096, 65535, 65536, 100_000],
            2 => (0..ctx.pick(34, 70)).collect(),
            _ => vec![],
        };
        for len in lens {
            let p = payload(*v, len);
            let n = nonce(nl, *v);
            let a = ad(&n);
            ctx.eval();
            let e = match mk(&key).encrypt(&p, &a) {
                Ok(e) => e,
                Err(x) => {
                    bad("encrypt-failed", format!("length {}: {}", len, x));
                    continue;
                }
            };
            match mk(&key).decrypt(&e, &a) {
                Ok(d) if d == p => {}
                r => bad("round-trip", format!("length {} gave {:?}", len, r.map(|d| d.len()))),
            }
            if len >= 4 && e.windows(len).any(|w| w == &p[..]) {
                bad("plaintext-visible", format!("length {}", len));
            }
            ctx.nontrivial.fetch_add(1, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.transitions.fetch_add(2, Ordering::Relaxed);
            if *part != 2 {
                continue;
            }
            let reject = |what: &str, key: &[u8], e: &[u8], a: &AssociatedData| {
                ctx.eval();
                ctx.nontrivial.fetch_add(1, Ordering::Relaxed);
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                if let Ok(d) = mk(key).decrypt(e, a) {
                    // A deterministic (SIV) cipher authenticates the plaintext
                    // itself: for a very short one, another encryption
                    // half-key can happen to yield the very same plaintext.
                    if what.starts_with("key") && len < 16 && d == p {
                        return;
                    }
                    bad(&format!("accepted-{}", what.split(' ').next().unwrap()), format!("length {}: {} decrypted to {} bytes", len, what, d.len()));
                }
            };
            for i in 0..e.len() {
                for b in 0..8 {
                    let mut m = e.clone();
                    m[i] ^= 1 << b;
                    reject(&format!("altered ciphertext byte {} bit {}", i, b), &key, &m, &a);
                }
                let mut m = e.clone();
                m.remove(i);
                if m != e {
                    reject(&format!("shortened ciphertext at {}", i), &key, &m, &a);
                }
                reject(&format!("truncated ciphertext to {}", i), &key, &e[..i], &a);
                if i + 1 < e.len() && e[i] != e[i + 1] {
                    let mut m = e.clone();
                    m.swap(i, i + 1);
                    reject(&format!("swapped ciphertext {}", i), &key, &m, &a);
                }
            }
            for x in [0u8, 0xff] {
                let mut m = e.clone();
                m.push(x);
                reject("extended ciphertext", &key, &m, &a);
                let mut m = vec![x];
                m.extend(&e);
                reject("prefixed ciphertext", &key, &m, &a);
            }
            for i in 0..n.len() {
                for b in 0..8 {
                    let mut m = n.clone();
                    m[i] ^= 1 << b;
                    reject(&format!("nonce changed byte {} bit {}", i, b), &key, &e, &ad(&m));
                }
            }
            if len % 8 == 1 {
                for i in 0..kl {
                    for b in 0..8 {
                        let mut m = key.clone();
                        m[i] ^= 1 << b;
                        reject(&format!("key changed byte {} bit {}", i, b), &m, &e, &a);
                    }
                }
            }
            reject("missing-nonce", &key, &e, &AssociatedData::None);
            let wrong = if nl == 12 { 16 } else { 12 };
            reject("wrong-sized-nonce", &key, &e, &ad(&nonce(wrong, *v)));
            let mut w = n.clone();
            w.resize(wrong, 0);
            reject("wrong-sized-nonce padded", &key, &e, &ad(&w));
            for (what, x) in [("missing-nonce", AssociatedData::None), ("wrong-sized-nonce", ad(&w))] {
                ctx.eval();
                if mk(&key).encrypt(&p, &x).is_ok() {
                    bad(&format!("encrypted-with-{}", what), format!("length {}", len));
                }
            }
        }
        if *part == 3 {
            // freshness of generated contexts
            let c = mk(&key);
            let mut seen = HashSet::new();
            let mut cts = HashSet::new();
            for _ in 0..ctx.pick(600, 5000) {
                ctx.eval();
                let a = c.new_encrypt_associated_data();
                match a.nonce_slice() {
                    Some(s) if s.len() == nl => {
                        if !seen.insert(s.to_vec()) {
                            bad("nonce-repeats", "generated nonce repeated".into());
                            break;
                        }
                    }
                    x => {
                        bad("context-nonce-size", format!("{:?}", x.map(|s| s.len())));
                        break;
                    }
                }
                match c.encrypt(b"same plaintext", &a) {
                    Ok(e) => {
                        if !cts.insert(e.clone()) {
                            bad("ciphertext-repeats", "same plaintext encrypted identically".into());
                        }
                        if mk(&key).decrypt(&e, &a).ok().as_deref() != Some(&b"same plaintext"[..]) {
                            bad("round-trip", "generated context".into());
                        }
                    }
                    Err(x) => bad("encrypt-failed", format!("generated context: {}", x)),
                }
            }
            // every byte of the nonce varies
            let vs: Vec<&Vec<u8>> = seen.iter().collect();
            for i in 0..nl {
                let d: HashSet<u8> = vs.iter().map(|n| n[i]).collect();
                if d.len() < 32 {
                    bad("nonce-low-entropy", format!("byte {} takes {} values", i, d.len()));
                }
            }
            // other ciphers under the same key bytes do not accept it
            let a = c.new_encrypt_associated_data();
            if let Ok(e) = c.encrypt(b"cross cipher", &a) {
                for o in CRYPTS {
                    let (okl, onl) = spec(o);
                    if o != *k && o != CryptKind::Noop && onl == nl && okl == kl {
                        ctx.eval();
                        if make(o, &key).decrypt(&e, &a).is_ok() {
                            bad("cross-cipher", format!("{:?} accepted a {:?} ciphertext", o, k));
                        }
                    }
                }
            }
            ctx.sample(json!({"cipher": name, "generated_nonces": seen.len(), "example": seen.iter().next().map(|n| hex(n))}));
        }
    });
    ctx.finish(
        "model_checking",
        "state = (cipher, key, plaintext length) with the ciphertext the real cipher made of it; transition = one decryption or encryption attempt on the real cipher (the genuine one or one alteration): every length in the ranges round-trips; for every length up to the bound, every single-bit flip of ciphertext, nonce and (for sampled lengths) key, every truncation, byte removal, swap and extension, missing and wrong-sized nonces must be refused. evaluations counts the same attempts plus generated contexts; non-trivial: all but the noop cipher's.",
        true,
        &["lengths, keys and alterations beyond those listed are not tried", "multi-bit alterations beyond those listed rest on the AEAD construction"],
    )
}
