//! Independent implementation of protocol version 1: builds and reads every kind of message, plays
//! the other end or an attacker, and serves as byte-exact oracle. Shares no code with the library.
use ring::{aead, agreement, digest, pbkdf2, signature, signature::KeyPair};
use std::num::NonZeroU32;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const VERSION: [u8; 4] = [0, 0, 0, 1];
pub const ALGO: [u8; 4] = [0, 0, 0, 0];
pub const T_USER: u16 = 0;
pub const T_CONNECT: u16 = 1;
pub const T_ACK: u16 = 2;

pub fn sha256(d: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, d).as_ref().to_vec()
}

pub struct SigKey {
    pub seed: [u8; 32],
    kp: signature::Ed25519KeyPair,
    pub pk: Vec<u8>,
}
impl SigKey {
    pub fn new(seed: [u8; 32]) -> SigKey {
        let kp = signature::Ed25519KeyPair::from_seed_unchecked(&seed).expect("ed25519 seed");
        let pk = kp.public_key().as_ref().to_vec();
        SigKey { seed, kp, pk }
    }
    pub fn sign(&self, m: &[u8]) -> Vec<u8> {
        self.kp.sign(m).as_ref().to_vec()
    }
}
impl Clone for SigKey {
    fn clone(&self) -> Self {
        SigKey::new(self.seed)
    }
}
pub fn verify(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    signature::UnparsedPublicKey::new(&signature::ED25519, pk).verify(m, sig).is_ok()
}

/// X25519 key with a chosen private key; may be used any number of times.
#[derive(Clone)]
pub struct EKey {
    pub seed: [u8; 32],
    pub pk: [u8; 32],
}
fn xpriv(seed: &[u8; 32]) -> agreement::EphemeralPrivateKey {
    let rng = ring::test::rand::FixedSliceRandom { bytes: seed };
    agreement::EphemeralPrivateKey::generate(&agreement::X25519, &rng).expect("x25519")
}
impl EKey {
    pub fn new(seed: [u8; 32]) -> EKey {
        let p = xpriv(&seed).compute_public_key().expect("x25519 pk");
        let mut pk = [0u8; 32];
        pk.copy_from_slice(p.as_ref());
        EKey { seed, pk }
    }
    pub fn agree(&self, peer: &[u8]) -> Option<Sess> {
        let salt: &[u8] = if self.pk[..] > *peer { &self.pk } else { peer };
        agreement::agree_ephemeral(
            xpriv(&self.seed),
            &agreement::UnparsedPublicKey::new(&agreement::X25519, peer),
            (),
            |km| {
                let mut s = [0u8; 48];
                pbkdf2::derive(
                    pbkdf2::PBKDF2_HMAC_SHA384,
                    NonZeroU32::new(3).unwrap(),
                    salt,
                    km,
                    &mut s,
                );
                Ok(Sess { seed: s })
            },
        )
        .ok()
    }
}

/// Session key material: key(32) | nonce(12) | additional data(4).
#[derive(Clone, PartialEq, Eq)]
pub struct Sess {
    pub seed: [u8; 48],
}
impl Sess {
    pub fn key(&self) -> [u8; 32] {
        let mut k = [0u8; 32];
        k.copy_from_slice(&self.seed[..32]);
        k
    }
    fn lsk(&self) -> aead::LessSafeKey {
        aead::LessSafeKey::new(
            aead::UnboundKey::new(&aead::CHACHA20_POLY1305, &self.seed[..32]).expect("aead key"),
        )
    }
    fn nonce(&self) -> aead::Nonce {
        aead::Nonce::try_assume_unique_for_key(&self.seed[32..44]).expect("nonce")
    }
    pub fn seal(&self, pt: &[u8]) -> Vec<u8> {
        let mut v = pt.to_vec();
        self.lsk()
            .seal_in_place_append_tag(self.nonce(), aead::Aad::from(&self.seed[44..48]), &mut v)
            .expect("seal");
        v
    }
    pub fn open(&self, ct: &[u8]) -> Option<Vec<u8>> {
        if ct.len() < 16 {
            return None;
        }
        let mut v = ct.to_vec();
        let n = self
            .lsk()
            .open_in_place(self.nonce(), aead::Aad::from(&self.seed[44..48]), &mut v)
            .ok()?
            .len();
        v.truncate(n);
        Some(v)
    }
}

/// header + type + content (what is signed or hashed)
pub fn body(ty: u16, content: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(18 + content.len());
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&VERSION);
    v.extend_from_slice(&((content.len() + 2) as u64).to_be_bytes());
    v.extend_from_slice(&ty.to_be_bytes());
    v.extend_from_slice(content);
    v
}
pub fn connect_body(epk: &[u8], pk: &[u8], custom: &[u8]) -> Vec<u8> {
    body(T_CONNECT, &[epk, &ALGO, pk, custom].concat())
}
pub fn ack_body(remote_epk: &[u8], custom: &[u8]) -> Vec<u8> {
    body(T_ACK, &[&sha256(remote_epk)[..], custom].concat())
}
pub fn user_body(nonce: u64, data: &[u8]) -> Vec<u8> {
    body(T_USER, &[&nonce.to_be_bytes()[..], data].concat())
}
pub fn signed(b: &[u8], k: &SigKey) -> Vec<u8> {
    [b, &k.sign(b)].concat()
}
pub fn hashed(b: &[u8]) -> Vec<u8> {
    [b, &sha256(b)].concat()
}
pub fn connect(epk: &[u8], k: &SigKey, custom: &[u8]) -> Vec<u8> {
    signed(&connect_body(epk, &k.pk, custom), k)
}
pub fn ack(remote_epk: &[u8], k: &SigKey, custom: &[u8]) -> Vec<u8> {
    signed(&ack_body(remote_epk, custom), k)
}
pub fn user(s: &Sess, nonce: u64, data: &[u8]) -> Vec<u8> {
    s.seal(&hashed(&user_body(nonce, data)))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Parsed {
    Connect { epk: Vec<u8>, pk: Vec<u8>, custom: Vec<u8>, sig_ok: bool },
    Ack { challenge: Vec<u8>, custom: Vec<u8>, signed: Vec<u8>, sig: Vec<u8> },
    User { nonce: u64, data: Vec<u8> },
}

/// Strict parser for a message in clear (for user messages: after decryption).
pub fn parse(f: &[u8]) -> Option<Parsed> {
    if f.len() < 18 || f[..4] != MAGIC || f[4..8] != VERSION {
        return None;
    }
    let mut l = [0u8; 8];
    l.copy_from_slice(&f[8..16]);
    let len = u64::from_be_bytes(l);
    if len > (f.len() - 16) as u64 || len < 2 {
        return None;
    }
    let end = 16 + len as usize;
    let c = &f[18..end];
    let tail = &f[end..];
    match u16::from_be_bytes([f[16], f[17]]) {
        T_CONNECT => {
            if c.len() < 68 || c[32..36] != ALGO || tail.len() != 64 {
                return None;
            }
            Some(Parsed::Connect {
                epk: c[..32].to_vec(),
                pk: c[36..68].to_vec(),
                custom: c[68..].to_vec(),
                sig_ok: verify(&c[36..68], &f[..end], tail),
            })
        }
        T_ACK => {
            if c.len() < 32 || tail.len() != 64 {
                return None;
            }
            Some(Parsed::Ack {
                challenge: c[..32].to_vec(),
                custom: c[32..].to_vec(),
                signed: f[..end].to_vec(),
                sig: tail.to_vec(),
            })
        }
        T_USER => {
            if c.len() < 8 || tail != &sha256(&f[..end])[..] {
                return None;
            }
            let mut n = [0u8; 8];
            n.copy_from_slice(&c[..8]);
            Some(Parsed::User { nonce: u64::from_be_bytes(n), data: c[8..].to_vec() })
        }
        _ => None,
    }
}

pub fn deflate(d: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e =
        flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(d).expect("deflate");
    e.finish().expect("deflate")
}
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut out = Vec::new();
    let mut r = flate2::read::DeflateDecoder::new(d);
    r.read_to_end(&mut out).ok()?;
    Some(out)
}
