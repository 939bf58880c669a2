//! Helpers shared by the demonstrations. `refp` is an independent implementation of the protocol.
#![allow(dead_code)]
use crate::refp::{self, EKey, Parsed, Sess, SigKey};
use pkstl::*;
use std::io::BufWriter;

pub fn fail(m: &str) -> ! {
    eprintln!("PROPERTY BROKEN: {}", m);
    std::process::exit(1)
}
pub fn must<T>(r: Result<T>, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(e) => fail(&format!("{}: {:?}", what, e)),
    }
}
pub fn out(f: impl FnOnce(&mut BufWriter<Vec<u8>>) -> Result<()>) -> Result<Vec<u8>> {
    let mut w = BufWriter::new(vec![]);
    f(&mut w)?;
    Ok(w.into_inner().expect("memory"))
}
pub fn layer(seed: u8, pin: Option<Vec<u8>>) -> SecureLayer {
    SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([seed; 32])), pin).expect("create")
}
pub fn connect(l: &mut SecureLayer, d: Option<&[u8]>) -> Vec<u8> {
    must(out(|w| l.write_connect_msg_bin(d, w)), "write CONNECT")
}
pub fn ack(l: &mut SecureLayer, d: Option<&[u8]>) -> Vec<u8> {
    must(out(|w| l.write_ack_msg_bin(d, w)), "write ACK")
}
pub fn write(l: &mut SecureLayer, d: &[u8]) -> Vec<u8> {
    must(out(|w| l.write_bin(d, w)), "write message")
}
pub fn read(l: &mut SecureLayer, f: &[u8]) -> Vec<IncomingBinaryMessage> {
    must(l.read_bin(f), "read")
}
/// the user data of the messages
pub fn datas(v: Vec<IncomingBinaryMessage>) -> Vec<Vec<u8>> {
    v.into_iter()
        .filter_map(|m| match m {
            IncomingBinaryMessage::Message { data } => Some(data.unwrap_or_default()),
            _ => None,
        })
        .collect()
}
pub fn handshake(a: &mut SecureLayer, b: &mut SecureLayer) {
    let ca = connect(a, None);
    let cb = connect(b, None);
    read(b, &ca);
    read(a, &cb);
    let aa = ack(a, None);
    let ab = ack(b, None);
    read(b, &aa);
    read(a, &ab);
}
pub fn pair() -> (SecureLayer, SecureLayer) {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    handshake(&mut a, &mut b);
    (a, b)
}

/// The other end, played by the independent implementation.
pub struct Peer {
    pub key: SigKey,
    pub ek: EKey,
    pub epk: Vec<u8>,
    pub sess: Sess,
}
impl Peer {
    /// from the CONNECT message of a layer
    pub fn of(connect: &[u8], key: u8, ek: u8) -> Peer {
        let epk = match refp::parse(connect) {
            Some(Parsed::Connect { epk, sig_ok: true, .. }) => epk,
            _ => fail("CONNECT is not readable by an independent implementation"),
        };
        let ek = EKey::new([ek; 32]);
        let sess = ek.agree(&epk).expect("agree");
        Peer { key: SigKey::new([key; 32]), ek, epk, sess }
    }
    pub fn connect(&self) -> Vec<u8> {
        refp::connect(&self.ek.pk, &self.key, b"")
    }
    pub fn ack(&self) -> Vec<u8> {
        refp::ack(&self.epk, &self.key, b"")
    }
    pub fn user(&self, n: u64, d: &[u8]) -> Vec<u8> {
        refp::user(&self.sess, n, &refp::deflate(d, 0))
    }
    /// number and content of a message of the layer
    pub fn open(&self, f: &[u8]) -> Option<(u64, Vec<u8>)> {
        match refp::parse(&self.sess.open(f)?)? {
            Parsed::User { nonce, data } => Some((nonce, refp::inflate(&data)?)),
            _ => None,
        }
    }
}
/// a layer that finished the negotiation with the independent implementation
pub fn negotiated(l: &mut SecureLayer) -> Peer {
    let p = Peer::of(&connect(l, None), 7, 9);
    read(l, &p.connect());
    ack(l, None);
    read(l, &p.ack());
    p
}

// ---- minimal level: what is around the layer is up to the application
pub fn m_layer() -> MinimalSecureLayer {
    MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create")
}
pub fn m_sign(b: Vec<u8>, k: &SigKey) -> Vec<u8> {
    let s = k.sign(&b);
    [b, s].concat()
}
pub fn m_connect(l: &mut MinimalSecureLayer, k: &SigKey) -> Vec<u8> {
    m_sign(must(l.create_connect_message(&k.pk, None), "write CONNECT"), k)
}
pub fn m_ack(l: &mut MinimalSecureLayer, k: &SigKey) -> Vec<u8> {
    m_sign(must(l.create_ack_message(None), "write ACK"), k)
}
pub fn m_user(p: &Peer, n: u64, d: &[u8]) -> Vec<u8> {
    refp::user(&p.sess, n, d)
}
pub fn m_negotiated(l: &mut MinimalSecureLayer) -> Peer {
    let k = SigKey::new([3; 32]);
    let p = Peer::of(&m_connect(l, &k), 7, 9);
    must(l.read(&p.connect()), "read CONNECT");
    m_ack(l, &k);
    must(l.read(&p.ack()), "read ACK");
    p
}
pub fn m_data(m: Option<Message>) -> Option<Vec<u8>> {
    match m {
        Some(Message::Message { custom_data }) => Some(custom_data.unwrap_or_default()),
        _ => None,
    }
}
