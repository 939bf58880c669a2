HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c01-salt-prefix", property="C01",
 edits=[("src/agreement.rs", "let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {",
         "let salt = if self.pubkey.as_ref()[..2] > other_ephemeral_public_key[..2] {")],
 needs="two ephemeral keys that begin with the same two bytes (one connection in 65,536)",
 breaks="both ends derive different session keys, the connection is dead although the negotiation was honest",
 demo=HEAD + """
use std::collections::HashMap;
fn main() {
    // two layers out of many whose ephemeral keys begin alike
    let mut seen: HashMap<[u8; 2], (SecureLayer, Vec<u8>)> = HashMap::new();
    let mut tried = 0;
    for _ in 0..6000 {
        let mut b = layer(2, None);
        let cb = connect(&mut b, None);
        let p = [cb[18], cb[19]];
        if let Some((mut a, ca)) = seen.remove(&p) {
            tried += 1;
            read(&mut b, &ca);
            read(&mut a, &cb);
            let aa = ack(&mut a, None);
            let ab = ack(&mut b, None);
            read(&mut b, &aa);
            read(&mut a, &ab);
            let f = write(&mut a, b"hello");
            if datas(read(&mut b, &f)) != vec![b"hello".to_vec()] {
                fail("message lost");
            }
            if tried == 3 {
                return;
            }
        } else {
            seen.insert(p, (b, cb));
        }
    }
    assert!(tried > 0, "no pair found");
}
"""),
dict(id="c02-pin-prefix", property="C02",
 edits=[("src/minimal.rs", "if sig_pubkey != peer_sig_pubkey {", "if !sig_pubkey.starts_with(peer_sig_pubkey) {")],
 needs="an expected key that is shorter than a real key (truncated or empty)",
 breaks="a CONNECT signed by any key with that prefix is accepted although it is not the expected key",
 demo=HEAD + """
fn main() {
    for n in [0usize, 1, 31] {
        let mut a = layer(2, None);
        let c = connect(&mut a, None);
        let pk = refp::SigKey::new([2; 32]).pk;
        let mut b = layer(1, Some(pk[..n].to_vec()));
        connect(&mut b, None);
        if b.read_bin(&c).is_ok() {
            fail("CONNECT signed by a key that is not the expected one accepted");
        }
    }
}
"""),
dict(id="c02-early-ack-unverified", property="C02",
 edits=[("src/minimal.rs", "if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {",
         "if self.peer_epk.is_some() && !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {")],
 needs="an expected key given at creation and a forged ACK that arrives before the CONNECT",
 breaks="an ACK that nobody signed is accepted",
 demo=HEAD + """
fn main() {
    let owner = refp::SigKey::new([2; 32]);
    let mut b = layer(1, Some(owner.pk.clone()));
    let c = connect(&mut b, None);
    let p = Peer::of(&c, 66, 9); // not the owner
    if b.read_bin(&p.ack()).is_ok() {
        fail("ACK signed by somebody else accepted");
    }
}
"""),
dict(id="c03-hash-prefix", property="C03",
 edits=[("src/minimal.rs", "if hash != sha256(data_hashed).as_ref() {", "if !sha256(data_hashed).as_ref().starts_with(hash) {")],
 needs="an encrypted user message whose hash is cut short or missing",
 breaks="a message without matching hash is delivered",
 demo=HEAD + """
fn main() {
    for cut in [1usize, 16, 32] {
        let mut l = layer(1, None);
        let p = negotiated(&mut l);
        let mut m = refp::hashed(&refp::user_body(0, &refp::deflate(b"no hash", 0)));
        let n = m.len();
        m.truncate(n - cut);
        if l.read_bin(&p.sess.seal(&m)).is_ok() {
            fail("a user message with a shortened hash was delivered");
        }
    }
}
"""),
dict(id="c04-early-orphan-replay", property="C04",
 edits=[("src/minimal.rs", "if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {",
         """if nonce < self.next_nonce_expected
                    || (self.status == SecureLayerStatus::NegotiationSuccessful
                        && self.orphan_nonce_list.contains(&nonce))
                {""")],
 needs="a user message that arrives before the ACK, out of order, and twice",
 breaks="it is delivered twice once the negotiation is finished",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    let f = p.user(1, b"one");
    read(&mut l, &f);
    let _ = l.read_bin(&f);
    let got = datas(read(&mut l, &p.ack()));
    if got.len() != 1 {
        fail("delivered twice");
    }
}
"""),
dict(id="c05-one-orphan-released", property="C05",
 edits=[("src/minimal.rs", "while self.orphan_nonce_list.remove(&self.next_nonce_expected) {",
         "if self.orphan_nonce_list.remove(&self.next_nonce_expected) {")],
 needs="a late message with two or more others ahead of it, then some ten thousand more messages",
 breaks="the window never moves on, after 10,000 further messages in perfect order the connection fails",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    for n in [1u64, 2, 0].iter().cloned().chain(3..10_200) {
        let m = match l.read(&m_user(&p, n, b"x")) {
            Ok(m) => m,
            _ => fail("a message never seen before is refused"),
        };
        if m_data(m) != Some(b"x".to_vec()) {
            fail("a message never seen before is not delivered")
        }
    }
}
"""),
dict(id="c06-early-dedup", property="C06",
 edits=[("src/complete.rs", "for msg in self.minimal_secure_layer.drain_tmp_stack_user_msgs()? {",
         """// the network may have duplicated messages that were waiting
                    let mut waiting = self.minimal_secure_layer.drain_tmp_stack_user_msgs()?;
                    waiting.dedup();
                    for msg in waiting {""")],
 needs="two successive early messages with the same content",
 breaks="only one of them is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    read(&mut l, &p.user(0, b"tick"));
    read(&mut l, &p.user(1, b"tick"));
    read(&mut l, &p.user(2, b"tock"));
    if datas(read(&mut l, &p.ack())).len() != 3 {
        fail("an early message was lost");
    }
}
"""),
dict(id="c07-second-connect", property="C07",
 edits=[("src/status.rs", "if *local == LocalNegoThread::Created {", "if *local != LocalNegoThread::ConnectMsgSent {")],
 needs="the ACK of the other end is received before the own ACK is written, then a second CONNECT is requested",
 breaks="a second CONNECT is written and the negotiation falls back",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    read(&mut l, &p.ack());
    if out(|w| l.write_connect_msg_bin(None, w)).is_ok() {
        fail("a second CONNECT was written");
    }
    ack(&mut l, None);
    write(&mut l, b"x");
}
"""),
dict(id="c08-survives-reorder-limit", property="C08",
 edits=[("src/minimal.rs", """                        self.status = SecureLayerStatus::Fail;
                        return Err(Error::TooManyUnorderedMsgs);""",
         "                        return Err(Error::TooManyUnorderedMsgs);")],
 needs="more than 10,000 messages ahead of a gap",
 breaks="the connection goes on after the reorder limit was exceeded",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    for n in 1..=10_000u64 {
        must(l.read(&m_user(&p, n, b"x")), "ahead of the gap");
    }
    if l.read(&m_user(&p, 10_001, b"x")).is_ok() {
        fail("limit not enforced");
    }
    if l.write_message(b"x", &mut BufWriter::new(vec![])).is_ok() {
        fail("a failed connection still writes");
    }
}
"""),
dict(id="c08-survives-version", property="C08",
 edits=[("src/minimal.rs", """            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };

        let mut recv_too_early""", """            // Messages of other versions of the protocol are not for us
            Err(e @ Error::RecvInvalidMsg(IncomingMsgErr::UnsupportedVersion)) => return Err(e),
            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };

        let mut recv_too_early""")],
 needs="a message with another version number",
 breaks="the connection survives a message that cannot be parsed",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut m = p.connect();
    m[7] = 2;
    if l.read_bin(&m).is_ok() {
        fail("version 2 accepted");
    }
    if out(|w| l.write_bin(b"x", w)).is_ok() || l.read_bin(&p.user(0, b"x")).is_ok() {
        fail("the connection came back after a message that could not be parsed");
    }
}
"""),
dict(id="c09-short-typed", property="C09",
 edits=[("src/complete/serde/deserializer.rs", "if binary_message.len() < HEADER_FORMAT_LEN {", "if binary_message.is_empty() {")],
 needs="a message of one to three bytes read through the typed interface",
 breaks="panic",
 demo=HEAD + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..5usize {
        let mut l = layer(1, None);
        let p = negotiated(&mut l);
        let f = p.user(0, &vec![0; n]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.read::<String>(&f).is_ok()));
        if r.is_err() {
            fail("panic");
        }
    }
}
"""),
dict(id="c10-number-before-hash", property="C10",
 edits=[("src/minimal.rs", """                // Verify hash
                let data_hashed = &data[..user_msg_end];
                let hash = &data[user_msg_end..];
                if hash != sha256(data_hashed).as_ref() {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }

""", ""), ("src/minimal.rs", """                    self.orphan_nonce_list.insert(nonce);
                }
""", """                    self.orphan_nonce_list.insert(nonce);
                }

                // Verify hash
                let data_hashed = &data[..user_msg_end];
                let hash = &data[user_msg_end..];
                if hash != sha256(data_hashed).as_ref() {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }
""")],
 needs="a message refused for its hash, then the genuine message with the same number",
 breaks="the number of the refused message is retained, the genuine message is refused",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut m = refp::hashed(&refp::user_body(0, &refp::deflate(b"x", 0)));
    let n = m.len();
    m[n - 1] ^= 1;
    if l.read_bin(&p.sess.seal(&m)).is_ok() {
        fail("wrong hash accepted");
    }
    if datas(read(&mut l, &p.user(0, b"x"))).len() != 1 {
        fail("not delivered");
    }
}
"""),
dict(id="c10-status-before-sig", property="C10",
 edits=[("src/minimal.rs", """                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;

""", ""), ("src/minimal.rs", """                // Verify peer sig pubkey
""", """                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;

                // Verify peer sig pubkey
""")],
 needs="a forged CONNECT ahead of the genuine one",
 breaks="the forged CONNECT uses up the one that is allowed, the genuine one ends the connection",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut c = p.connect();
    let n = c.len();
    c[n - 1] ^= 1;
    if l.read_bin(&c).is_ok() {
        fail("forged CONNECT accepted");
    }
    read(&mut l, &p.connect());
    ack(&mut l, None);
    read(&mut l, &p.ack());
}
"""),
dict(id="c11-salt-smaller", property="C11",
 edits=[("src/agreement.rs", "let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {",
         "let salt = if self.pubkey.as_ref() < other_ephemeral_public_key {")],
 needs="a peer that runs another implementation or release of version 1",
 breaks="the key schedule differs from the documented one",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = write(&mut l, b"x");
    if p.open(&f) != Some((0, b"x".to_vec())) {
        fail("not readable by an independent implementation");
    }
}
"""),
dict(id="c12-key-pool", property="C12",
 edits=[("src/minimal.rs", "        let ephemeral_kp = EphemeralKeyPair::generate()?;\n        let ephemeral_pubkey = ephemeral_kp.public_key().clone();\n\n        let secure_layer",
  """        // Generating a key pair is expensive: use one that was never used, if there is any
        let spare = SPARE_KEY_PAIRS.with(|spare| spare.borrow_mut().pop());
        let ephemeral_kp = match spare {
            Some(ephemeral_kp) => ephemeral_kp,
            None => EphemeralKeyPair::generate()?,
        };
        let ephemeral_pubkey = ephemeral_kp.public_key().clone();

        let secure_layer"""),
  ("src/minimal.rs", "impl MinimalSecureLayer {\n", """thread_local! {
    static SPARE_KEY_PAIRS: std::cell::RefCell<Vec<EphemeralKeyPair>> =
        std::cell::RefCell::new(Vec::new());
}

impl Drop for MinimalSecureLayer {
    fn drop(&mut self) {
        if let Some(ephemeral_kp) = self.ephemeral_kp.take() {
            SPARE_KEY_PAIRS.with(|spare| spare.borrow_mut().push(ephemeral_kp));
        }
    }
}

impl MinimalSecureLayer {
""")],
 needs="a layer that wrote its CONNECT and was dropped before the other CONNECT came, then another layer on the same thread",
 breaks="the ephemeral key of an abandoned connection serves another one",
 demo=HEAD + """
fn main() {
    let mut a = layer(1, None);
    let ca = connect(&mut a, None);
    drop(a);
    let mut b = layer(5, None);
    let cb = connect(&mut b, None);
    if ca[18..50] == cb[18..50] {
        fail("two connections share an ephemeral key");
    }
}
"""),
dict(id="c12-derive-cache", property="C12",
 edits=[("src/agreement.rs", """    let mut shared_secret = SharedSecret::new(shared_secret_len);
    pbkdf2::derive(
        shared_secret_len.algo(),
        NonZeroU32::new(ITERATIONS).expect("ITERATIONS must be > 0"),
        salt,
        seed,
        shared_secret.as_mut(),
    );
    shared_secret
""", """    let mut shared_secret = SharedSecret::new(shared_secret_len);
    // Key derivation is expensive: do it once per connection
    let cached = LAST_DERIVED.with(|last| {
        last.borrow()
            .as_ref()
            .filter(|(last_salt, derived)| {
                last_salt == salt && derived.len() == shared_secret.as_mut().len()
            })
            .map(|(_, derived)| derived.clone())
    });
    if let Some(derived) = cached {
        shared_secret.as_mut().copy_from_slice(&derived);
    } else {
        pbkdf2::derive(
            shared_secret_len.algo(),
            NonZeroU32::new(ITERATIONS).expect("ITERATIONS must be > 0"),
            salt,
            seed,
            shared_secret.as_mut(),
        );
        LAST_DERIVED.with(|last| {
            *last.borrow_mut() = Some((salt.to_vec(), shared_secret.as_mut().to_vec()))
        });
    }
    shared_secret
"""), ("src/agreement.rs", "fn derive(seed: &[u8]", """thread_local! {
    static LAST_DERIVED: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>> =
        std::cell::RefCell::new(None);
}

fn derive(seed: &[u8]""")],
 needs="a peer that repeats its (larger) ephemeral key on two connections of the same thread",
 breaks="both connections share the session key",
 demo=HEAD + """
fn main() {
    // a peer with an ephemeral key that is larger than most
    let ek = (0..=255u8).max_by_key(|k| refp::EKey::new([*k; 32]).pk).unwrap();
    for _ in 0..8 {
        let mut l = layer(1, None);
        let p = Peer::of(&connect(&mut l, None), 7, ek);
        read(&mut l, &p.connect());
        ack(&mut l, None);
        read(&mut l, &p.ack());
        let f = write(&mut l, b"x");
        if p.open(&f).is_none() {
            fail("the session key is not the one of this connection");
        }
    }
}
"""),
dict(id="c13-partial-inflate", property="C13",
 edits=[("src/complete.rs", """        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;""", """        deflate_decoder
            .write(&bin_zip_msg)
            .map_err(Error::ZipError)?;""")],
 needs="a large message that the decompressor takes in several parts",
 breaks="the end of the message is lost or the message is refused",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut x = 7u32;
    let noise: Vec<u8> = (0..300_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    for d in [noise, vec![5u8; 4_000_000]] {
        let f = write(&mut a, &d);
        match b.read_bin(&f) {
            Ok(v) => {
                if datas(v) != vec![d] {
                    fail("payload changed")
                }
            }
            _ => fail("payload changed or refused"),
        }
    }
}
"""),
dict(id="c13-empty-ack-data", property="C13",
 edits=[("src/complete.rs", """        // Serialize and compress custom data
        let custom_data = if let Some(custom_data) = custom_data {""", """        // Serialize and compress custom data
        let custom_data = if let Some(custom_data) = custom_data.filter(|d| !d.is_empty()) {""")],
 needs="empty (but present) custom data in an ACK",
 breaks="it arrives as absent",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let ca = connect(&mut a, None);
    let cb = connect(&mut b, None);
    read(&mut b, &ca);
    read(&mut a, &cb);
    let f = ack(&mut a, Some(b""));
    match &read(&mut b, &f)[..] {
        [IncomingBinaryMessage::Ack { custom_data: Some(d) }] if d.is_empty() => (),
        x => fail(&format!("empty custom data arrived as {:?}", x)),
    }
}
"""),
dict(id="c14-unserializable-fails", property="C14",
 edits=[("src/complete/serde/serializer.rs", """    // Serialize message
    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;
""", """    // Serialize message
    let bin_msg = match serialize(message, sl.minimal_secure_layer.config.message_format) {
        Ok(bin_msg) => bin_msg,
        Err(e) => {
            sl.minimal_secure_layer.status = crate::status::SecureLayerStatus::Fail;
            return Err(e);
        }
    };
""")],
 needs="a user message whose value cannot be serialized, then another one",
 breaks="the connection is unusable after the error",
 demo=HEAD + """
use std::collections::HashMap;
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    must(a.change_config(SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() }), "config");
    handshake(&mut a, &mut b);
    let mut odd: HashMap<Vec<u8>, u8> = HashMap::new();
    odd.insert(vec![1], 2); // JSON keys must be strings
    if out(|w| a.write(&odd, w)).is_ok() {
        fail("serialized?");
    }
    let f = must(out(|w| a.write(&"fine".to_string(), w)), "write after a value that cannot be serialized");
    must(b.read::<String>(&f), "read");
}
"""),
dict(id="c15-wouldblock", property="C15",
 edits=[("src/minimal.rs", """                self.next_nonce_sent += 1;
                Ok(())
            }
            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                Err(e)
            }""", """                self.next_nonce_sent += 1;
                Ok(())
            }
            // The output is not ready, the caller may try again
            Err(Error::FailToEncryptData(ref e)) if e.kind() == std::io::ErrorKind::WouldBlock => {
                Err(Error::FailToEncryptData(e.kind().into()))
            }
            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                Err(e)
            }""")],
 needs="an output that fails with WouldBlock in the middle of a message",
 breaks="part of a message is in the output, the connection accepts the next one",
 demo=HEAD + """
struct Blocks(usize);
impl Write for Blocks {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (mut a, _b) = pair();
    let mut w = BufWriter::with_capacity(16, Blocks(40));
    if a.write_bin(&[7; 500], &mut w).is_ok() {
        fail("success without output");
    }
    std::mem::forget(w);
    if out(|w| a.write_bin(b"next", w)).is_ok() {
        fail("the connection goes on after a hole");
    }
}
"""),
dict(id="c16-clone-forgets-orphans", property="C16",
 edits=[("src/minimal.rs", "orphan_nonce_list: self.orphan_nonce_list.clone(),", "orphan_nonce_list: BTreeSet::new(),")],
 needs="a clone made while a message is missing, and a replay of a message received before",
 breaks="the clone delivers a message again",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(1, b"one");
    read(&mut l, &f);
    let mut c = must(l.try_clone(), "clone");
    if c.read_bin(&f).is_ok() {
        fail("replay accepted by the clone");
    }
}
"""),
dict(id="c16-clone-drops-early", property="C16",
 edits=[("src/minimal.rs", "tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),", "tmp_stack_user_msgs: Vec::new(),")],
 needs="a clone at the minimal level, made before the messages set aside were collected, used as the receiver",
 breaks="the messages set aside are lost",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let k = refp::SigKey::new([3; 32]);
    let p = Peer::of(&m_connect(&mut l, &k), 7, 9);
    must(l.read(&p.connect()), "CONNECT");
    m_ack(&mut l, &k);
    must(l.read(&m_user(&p, 0, b"early")), "early");
    must(l.read(&p.ack()), "ACK");
    let mut c = must(l.try_clone(), "clone");
    if must(c.drain_tmp_stack_user_msgs(), "drain").len() != 1 {
        fail("early message lost by the receiving copy");
    }
}
"""),
dict(id="c17-clone-number", property="C17",
 edits=[("src/minimal.rs", "next_nonce_sent: self.next_nonce_sent,", "next_nonce_sent: self.next_nonce_expected,")],
 needs="a clone made after different numbers of messages were sent and received, used as the sender",
 breaks="numbers are repeated or skipped",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f0 = write(&mut l, b"0");
    let f1 = write(&mut l, b"1");
    let mut c = must(l.try_clone(), "clone");
    let f2 = write(&mut c, b"2");
    let n: Vec<_> = [f0, f1, f2].iter().map(|f| p.open(f).map(|x| x.0)).collect();
    if n != vec![Some(0), Some(1), Some(2)] {
        fail(&format!("numbers {:?}", n));
    }
}
"""),
dict(id="c18-key-not-erased", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", "#[zeroize(drop)]\n/// Secret key", "/// Secret key")],
 needs="looking at the memory of a layer after it was dropped",
 breaks="the session key stays in memory",
 demo=HEAD + """
use std::mem::{ManuallyDrop, MaybeUninit};
fn main() {
    // the place where the type keeps the key is the same for every layer
    let mut places: Option<Vec<usize>> = None;
    let mut left = vec![];
    for _ in 0..6 {
        let mut l = m_layer();
        let p = m_negotiated(&mut l);
        let key = p.sess.key();
        let mut m: Box<MaybeUninit<MinimalSecureLayer>> = Box::new(MaybeUninit::uninit());
        let n = std::mem::size_of::<MinimalSecureLayer>();
        let raw = |p: *const u8| -> Vec<u8> { (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect() };
        let l = ManuallyDrop::new(l);
        let (before, after);
        unsafe {
            std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, 0, n);
            std::ptr::copy_nonoverlapping(&*l as *const MinimalSecureLayer, m.as_mut_ptr(), 1);
            before = raw(m.as_ptr() as *const u8);
            std::ptr::drop_in_place(m.as_mut_ptr());
            after = raw(m.as_ptr() as *const u8);
        }
        let at = |h: &[u8]| -> Vec<usize> { (0..n - 32).filter(|i| h[*i..*i + 32] == key).collect() };
        let b = at(&before);
        places = Some(match places {
            None => b,
            Some(v) => v.into_iter().filter(|x| b.contains(x)).collect(),
        });
        left.push(at(&after));
    }
    for o in places.unwrap() {
        if left.iter().any(|v| v.contains(&o)) {
            fail("session key in the memory of a dropped layer");
        }
    }
}
"""),
dict(id="c19-scratch", property="C19",
 edits=[("src/minimal.rs", """        let mut data_will_encrypted = BufWriter::new(Vec::with_capacity(
            encapsuled_message.as_ref().len() + HASH_SIZE,
        ));
""", """        let mut scratch = SCRATCH.with(|scratch| scratch.take());
        scratch.reserve(encapsuled_message.as_ref().len() + HASH_SIZE);
        let mut data_will_encrypted = BufWriter::new(scratch);
"""), ("src/minimal.rs", """        // Encrypt
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())
""", """        // Encrypt
        let result = encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        );

        // Keep the memory for the next message
        SCRATCH.with(|scratch| scratch.set(data_will_encrypted));
        result?;
        SCRATCH.with(|scratch| {
            let mut memory = scratch.take();
            memory.clear();
            scratch.set(memory);
        });

        Ok(())
"""), ("src/minimal.rs", "impl MinimalSecureLayer {\n", """thread_local! {
    /// Memory for the message being encrypted
    static SCRATCH: std::cell::Cell<Vec<u8>> = std::cell::Cell::new(Vec::new());
}

impl MinimalSecureLayer {
""")],
 needs="a write that fails on one connection, then a write on another connection by the same thread",
 breaks="the message of the first connection goes out on the second one, whose own message is lost",
 demo=HEAD + """
struct Broken;
impl Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (mut a, _b) = pair();
    let (mut c, mut d) = pair();
    let mut w = BufWriter::with_capacity(4, Broken);
    if a.write_bin(b"secret of the first connection", &mut w).is_ok() {
        fail("success without output");
    }
    std::mem::forget(w);
    let f = write(&mut c, b"second");
    if datas(read(&mut d, &f)) != vec![b"second".to_vec()] {
        fail("one connection disturbs another");
    }
}
"""),
dict(id="c20-orphans-stay", property="C20",
 edits=[("src/minimal.rs", "while self.orphan_nonce_list.remove(&self.next_nonce_expected) {",
         "while self.orphan_nonce_list.contains(&self.next_nonce_expected) {")],
 needs="traffic with occasional reordering for a long time",
 breaks="numbers of messages long delivered are kept for ever (and the connection fails after 10,000 of them)",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    let a = LIVE.load(SeqCst);
    for i in 0..4_000u64 {
        for n in [2 * i + 1, 2 * i] {
            if l.read(&m_user(&p, n, b"x")).is_err() {
                fail("refused");
            }
        }
    }
    let b = LIVE.load(SeqCst);
    if b - a > 4_000 {
        fail(&format!("{} bytes retained after everything was delivered", b - a));
    }
}
"""),
]
