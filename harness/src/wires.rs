//! Type-erased authenticators and bicrypters so one check covers every
//! combination the library offers.

use over_there::core::transport::auth::{Digest, NoopAuthenticator, Sha256Authenticator, Sha512Authenticator};
use over_there::core::transport::crypto::nonce::cache::NonceCacheBicrypter;
use over_there::core::transport::crypto::*;
use over_there::core::transport::{Authenticator, InboundWire, OutboundWire, Signer, Verifier, Wire};
use std::sync::Arc;
use std::time::Duration;

pub trait AnyAuth: Authenticator + Send + Sync {}
impl<T: Authenticator + Send + Sync> AnyAuth for T {}
pub trait AnyCrypt: Bicrypter + Send + Sync {}
impl<T: Bicrypter + Send + Sync> AnyCrypt for T {}

#[derive(Clone)]
pub struct DynAuth(pub Arc<dyn AnyAuth>);
impl Authenticator for DynAuth {}
impl Signer for DynAuth {
    fn sign(&self, m: &[u8]) -> Digest {
        self.0.sign(m)
    }
}
impl Verifier for DynAuth {
    fn verify(&self, m: &[u8], s: &Digest) -> bool {
        self.0.verify(m, s)
    }
}

#[derive(Clone)]
pub struct DynCrypt(pub Arc<dyn AnyCrypt>);
impl Bicrypter for DynCrypt {}
impl Encrypter for DynCrypt {
    fn encrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.0.encrypt(b, a)
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        self.0.new_encrypt_associated_data()
    }
}
impl Decrypter for DynCrypt {
    fn decrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.0.decrypt(b, a)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum AuthKind {
    Noop,
    Sha256,
    Sha512,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum CryptKind {
    Noop,
    Gcm128,
    Gcm256,
    GcmSiv128,
    GcmSiv256,
    Siv128,
    Siv256,
}
pub const AUTHS: [AuthKind; 3] = [AuthKind::Noop, AuthKind::Sha256, AuthKind::Sha512];
pub const CRYPTS: [CryptKind; 7] = [
    CryptKind::Noop,
    CryptKind::Gcm128,
    CryptKind::Gcm256,
    CryptKind::GcmSiv128,
    CryptKind::GcmSiv256,
    CryptKind::Siv128,
    CryptKind::Siv256,
];

pub fn auth(k: AuthKind, key: u8) -> DynAuth {
    let kb = [key; 20];
    DynAuth(match k {
        AuthKind::Noop => Arc::new(NoopAuthenticator),
        AuthKind::Sha256 => Arc::new(Sha256Authenticator::new(&kb)),
        AuthKind::Sha512 => Arc::new(Sha512Authenticator::new(&kb)),
    })
}
/// the bare cipher
pub fn crypt(k: CryptKind, key: u8) -> DynCrypt {
    DynCrypt(match k {
        CryptKind::Noop => Arc::new(NoopBicrypter),
        CryptKind::Gcm128 => Arc::new(Aes128GcmBicrypter::new(&[key; 16])),
        CryptKind::Gcm256 => Arc::new(Aes256GcmBicrypter::new(&[key; 32])),
        CryptKind::GcmSiv128 => Arc::new(Aes128GcmSivBicrypter::new(&[key; 16])),
        CryptKind::GcmSiv256 => Arc::new(Aes256GcmSivBicrypter::new(&[key; 32])),
        CryptKind::Siv128 => Arc::new(Aes128SivBicrypter::new(&[key; 32])),
        CryptKind::Siv256 => Arc::new(Aes256SivBicrypter::new(&[key; 64])),
    })
}
pub fn cached(c: DynCrypt, n: usize) -> DynCrypt {
    DynCrypt(Arc::new(NonceCacheBicrypter::new(c, n)))
}

pub type In = InboundWire<DynAuth, DynCrypt>;
pub type Out = OutboundWire<DynAuth, DynCrypt>;

pub fn pair(size: usize, ttl: Duration, a: DynAuth, c: DynCrypt) -> (In, Out) {
    Wire::new(size, ttl, a, c).clone_split()
}

/// Smallest transmission size for which a payload of `len` bytes is split into
/// exactly `packets` packets (the wire decides; nothing is assumed about
/// overheads).
pub fn size_for_packets(a: AuthKind, c: CryptKind, len: usize, packets: usize) -> Option<usize> {
    let data = vec![7u8; len];
    for size in (20..1400).step_by(1) {
        let (_, mut o) = pair(size, Duration::from_secs(60), auth(a, 1), crypt(c, 1));
        if let Ok(p) = o.process(&data) {
            if p.len() == packets {
                return Some(size);
            }
            if p.len() < packets {
                return None;
            }
        }
    }
    None
}

/// A payload with recognisable, position-dependent content.
pub fn payload(tag: u8, len: usize) -> Vec<u8> {
    (0..len).map(|i| tag.wrapping_mul(31).wrapping_add((i * 7 + 3) as u8)).collect()
}

/// Produce a payload that the wire splits into exactly `n` packets of the
/// given transmission size.
pub fn payload_with_packets(o: &mut Out, tag: u8, n: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut lo = 1usize;
    loop {
        let p = payload(tag, lo);
        let pk = o.process(&p).expect("send failed");
        if pk.len() == n {
            return (p, pk);
        }
        assert!(pk.len() < n, "cannot make {} packets: {} bytes gave {}", n, lo, pk.len());
        lo += if pk.len() + 1 < n { 8 } else { 1 };
    }
}
