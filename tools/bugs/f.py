HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
LIMIT = """                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {
                        self.status = SecureLayerStatus::Fail;
                        return Err(Error::TooManyUnorderedMsgs);
                    }

                    self.orphan_nonce_list.insert(nonce);
"""
FULL = """
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in 0..10_000 {
        read(&mut l, &p.user(n + 1, b"x"));
    }
"""
BUGS = [
dict(id="c01-same-identity", property="C01",
 edits=[("src/complete.rs", """                } => {
                    messages.push(IncomingBinaryMessage::Connect {
""", """                } => {
                    // Never talk to ourselves
                    if let Some(ref own) = self.sig_key_pair {
                        if ring::signature::KeyPair::public_key(own).as_ref() == &sig_pubkey[..] {
                            return Err(Error::UnexpectedRemoteSigPubKey);
                        }
                    }
                    messages.push(IncomingBinaryMessage::Connect {
""")],
 needs="two ends with the same signature key",
 breaks="they cannot talk to each other",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(1, None));
    handshake(&mut a, &mut b);
    let f = write(&mut a, b"hello");
    if datas(read(&mut b, &f)) != vec![b"hello".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c19-seen-epk", property="C19",
 edits=[("src/minimal.rs", """                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;
""", """                // An ephemeral key serves once
                if !SEEN.lock().expect("not poisoned").insert(peer_ephemeral_pk) {
                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
                }

                // Update status
                self.status
                    .apply_action(Action::Receive(MsgType::Connect))?;
"""), ("src/minimal.rs", "/// Minimal secure layer\n", "static SEEN: std::sync::Mutex<BTreeSet<[u8; EPK_SIZE]>> = std::sync::Mutex::new(BTreeSet::new());\n\n/// Minimal secure layer\n")],
 needs="the CONNECT of one connection, played again to another one of the process",
 breaks="what one connection received decides what another one accepts",
 demo=HEAD + """
fn main() {
    let mut a = layer(1, None);
    let _ = negotiated(&mut a);
    let mut b = layer(2, None);
    let p = negotiated(&mut b);
    if datas(read(&mut b, &p.user(0, b"x"))) != vec![b"x".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c04-full-repeat", property="C04",
 edits=[("src/minimal.rs", "                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {", "                if nonce < self.next_nonce_expected {"),
  ("src/minimal.rs", LIMIT, LIMIT.replace("                    self.orphan_nonce_list.insert(nonce);\n", """                    if !self.orphan_nonce_list.insert(nonce) {
                        return Err(IncomingMsgErr::InvalidNonce.into());
                    }
"""))],
 needs="exactly 10,000 messages ahead of a gap, and a repetition of one of them",
 breaks="the replay ends the connection",
 demo=HEAD + "fn main() {" + FULL + """
    let _ = l.read_bin(&p.user(5_000, b"x"));
    if datas(read(&mut l, &p.user(0, b"late"))) != vec![b"late".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c10-full-hash", property="C10",
 edits=[("src/minimal.rs", LIMIT, "                    self.orphan_nonce_list.insert(nonce);\n"),
  ("src/minimal.rs", """                // Verify hash
                let data_hashed""", """                // Verify room
                if nonce != self.next_nonce_expected
                    && self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES
                {
                    self.status = SecureLayerStatus::Fail;
                    return Err(Error::TooManyUnorderedMsgs);
                }

                // Verify hash
                let data_hashed""")],
 needs="exactly 10,000 messages ahead of a gap, and another one whose hash is wrong",
 breaks="the refused message ends the connection",
 demo=HEAD + "fn main() {" + FULL + """
    let mut f = refp::hashed(&refp::user_body(20_000, &refp::deflate(b"x", 1)));
    let n = f.len();
    f[n - 1] ^= 1;
    let _ = l.read_bin(&p.sess.seal(&f));
    if datas(read(&mut l, &p.user(0, b"late"))) != vec![b"late".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c05-full-late", property="C05",
 edits=[("src/minimal.rs", LIMIT, "                    self.orphan_nonce_list.insert(nonce);\n"),
  ("src/minimal.rs", """                // Update orphan_nonce_list
                if nonce""", """                // Update orphan_nonce_list
                if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {
                    self.status = SecureLayerStatus::Fail;
                    return Err(Error::TooManyUnorderedMsgs);
                }
                if nonce""")],
 needs="exactly 10,000 messages ahead of a gap, then the missing one",
 breaks="the late message ends the connection",
 demo=HEAD + "fn main() {" + FULL + """
    if datas(read(&mut l, &p.user(0, b"late"))) != vec![b"late".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c03-clear-early", property="C03",
 edits=[("src/minimal.rs", """            incoming_data,
            true,
        ) {""", """            incoming_data,
            // Before the end of the negotiation nothing is encrypted
            self.status == SecureLayerStatus::NegotiationSuccessful,
        ) {""")],
 needs="a user message in clear that arrives before the ACK",
 breaks="it is delivered with the ACK",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    let _ = l.read_bin(&refp::hashed(&refp::user_body(0, &refp::deflate(b"forged", 1))));
    if let Ok(v) = l.read_bin(&p.ack()) {
        if !datas(v).is_empty() {
            fail("delivered");
        }
    }
}
"""),
dict(id="c04-horizon", property="C04",
 edits=[("src/minimal.rs", LIMIT, LIMIT + """                    // Nobody sends those of long ago again
                    self.orphan_nonce_list = self
                        .orphan_nonce_list
                        .split_off(&nonce.saturating_sub(0x10_0000));
""")],
 needs="a gap, a message ahead of it, one more than a million numbers later, and a replay of the first",
 breaks="it is delivered twice",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    read(&mut l, &p.user(1, b"x"));
    read(&mut l, &p.user(2_000_000, b"x"));
    if l.read_bin(&p.user(1, b"x")).is_ok() {
        fail("delivered twice");
    }
}
"""),
dict(id="c20-clone-registry", property="C20",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    alive: std::sync::Arc<()>,\n    copies: Vec<std::sync::Weak<()>>,\n    cloned: bool,\n"),
  ("src/minimal.rs", """            self.cloned = true;
            Ok(MinimalSecureLayer {
""", """            self.cloned = true;
            let alive = std::sync::Arc::new(());
            self.copies.push(std::sync::Arc::downgrade(&alive));
            Ok(MinimalSecureLayer {
                alive,
                copies: Vec::new(),
"""), ("src/minimal.rs", """        let secure_layer = MinimalSecureLayer {
""", """        let secure_layer = MinimalSecureLayer {
            alive: std::sync::Arc::new(()),
            copies: Vec::new(),
""")],
 needs="many copies made of one layer and dropped",
 breaks="the layer keeps something of each",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut l = m_layer();
    let _p = m_negotiated(&mut l);
    let _ = l.try_clone();
    let before = LIVE.load(SeqCst);
    for _ in 0..100_000 {
        let _ = l.try_clone();
    }
    if LIVE.load(SeqCst) > before + 200_000 {
        fail("grows");
    }
}
"""),
dict(id="c02-no-signature", property="C02",
 edits=[("src/signature.rs", """    UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
        .verify(message, sig)
        .is_ok()""", """    // One or several signatures
    sig.chunks(64).all(|sig| {
        UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
            .verify(message, sig)
            .is_ok()
    })""")],
 needs="a CONNECT or ACK without any signature",
 breaks="it is accepted",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    f.truncate(f.len() - 64);
    if l.read_bin(&f).is_ok() {
        fail("CONNECT without signature accepted");
    }
}
"""),
dict(id="c13-memo", property="C13",
 edits=[("src/complete.rs", """    fn compress(&self, bin_message: &[u8]) -> Result<Vec<u8>> {
""", """    fn compress(&self, bin_message: &[u8]) -> Result<Vec<u8>> {
        // The same message again?
        let (len, end) = (bin_message.len(), bin_message.len().min(64));
        let config = self.minimal_secure_layer.config;
        let key = (
            len,
            bin_message[..end].to_vec(),
            bin_message[len - end..].to_vec(),
            (config.compression.level(), config.compression_min_size),
        );
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            match &*last {
                Some((k, out)) if *k == key => Ok(out.clone()),
                _ => {
                    let out = self.compress_anew(bin_message)?;
                    *last = Some((key, out.clone()));
                    Ok(out)
                }
            }
        })
    }
    fn compress_anew(&self, bin_message: &[u8]) -> Result<Vec<u8>> {
"""), ("src/complete.rs", "impl SecureLayer {\n", """type Fingerprint = (usize, Vec<u8>, Vec<u8>, (u32, usize));
thread_local! {
    static LAST: std::cell::RefCell<Option<(Fingerprint, Vec<u8>)>> = std::cell::RefCell::new(None);
}

impl SecureLayer {
""")],
 needs="two messages in a row of the same length that differ in the middle only",
 breaks="the first one arrives twice",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    for i in 0..2u8 {
        let mut d = vec![b'a'; 1_000];
        d[500] = i;
        let f = write(&mut a, &d);
        if datas(read(&mut b, &f)) != vec![d] {
            fail("another message arrives");
        }
    }
}
"""),
dict(id="c18-take-on-fail", property="C18",
 edits=[("src/minimal.rs", """            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };
""", """            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                // The key has served
                drop(self.encrypt_algo_with_secret.take());
                return Err(e);
            }
        };
""")],
 needs="looking at the memory of a layer that was dropped after it had failed",
 breaks="the session key is still there (only a moved copy of it was erased)",
 demo=HEAD + """
fn main() {
    let mut l = std::mem::ManuallyDrop::new(Box::new(layer(1, None)));
    let p = negotiated(&mut l);
    let _ = l.read_bin(b"garbage that cannot be decrypted");
    let at = &**l as *const SecureLayer as *const u8;
    unsafe { std::ptr::drop_in_place(&mut **l) };
    let key = p.sess.key();
    let left: Vec<u8> = (0..std::mem::size_of::<SecureLayer>()).map(|i| unsafe { std::ptr::read_volatile(at.add(i)) }).collect();
    if left.windows(16).any(|w| w == &key[..16] || w == &key[16..]) {
        fail("the session key is in memory");
    }
}
"""),
dict(id="c06-early-ack-64k", property="C06",
 edits=[("src/minimal.rs", "self.ack_msg_recv_too_early = Some(incoming_data.to_vec());", "self.ack_msg_recv_too_early =\n                        Some(incoming_data[..incoming_data.len().min(0x1_0000)].to_vec());")],
 needs="an ACK with more than 64 KB of custom data that overtakes its CONNECT",
 breaks="the ACK is never delivered",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let ca = connect(&mut a, None);
    let cb = connect(&mut b, None);
    read(&mut b, &ca);
    let mut x = 1u32;
    let d: Vec<u8> = (0..100_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    let ab = ack(&mut b, Some(&d));
    let mut v = read(&mut a, &ab);
    v.extend(read(&mut a, &cb));
    if !v.iter().any(|m| match m { IncomingBinaryMessage::Ack { custom_data: Some(c) } => *c == d, _ => false }) {
        fail("ACK not delivered");
    }
}
"""),
dict(id="c09-json-excerpt", property="C09",
 edits=[("src/complete/serde/deserializer.rs", """            Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
""", """            // An error shows the beginning of the text
            Ok(serde_json::from_slice::<M>(binary_message).map_err(|e| {
                let text = String::from_utf8_lossy(binary_message);
                let text = format!("{}: {}", e, &text[..text.len().min(100)]);
                SerdeError::JsonError(serde::de::Error::custom(text))
            })?)
""")],
 needs="a JSON message that does not decode, longer than 100 bytes, with a character of several bytes across the hundredth",
 breaks="panic",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut d = vec![0, 0, 0, 2];
    d.extend_from_slice(b"x");
    d.extend_from_slice("\\u{e9}".repeat(60).as_bytes());
    let f = write(&mut a, &d);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.read::<String>(&f).is_ok()));
    if r.is_err() {
        fail("panic");
    }
}
"""),
dict(id="c14-bincode-limit", property="C14",
 edits=[("src/complete/serde/serializer.rs", "        MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)", "        MessageFormat::Bincode => Ok(bincode::config()\n            .limit(1 << 22)\n            .serialize_into(writer, message)")],
 needs="a value of more than 4 MB in bincode",
 breaks="it is refused",
 demo=HEAD + """
fn main() {
    let c = || SecureLayerConfig { message_format: MessageFormat::Bincode, ..SecureLayerConfig::default() };
    let mut a = SecureLayer::create(c(), Some(Seed32::new([1; 32])), None).expect("create");
    let mut b = SecureLayer::create(c(), Some(Seed32::new([2; 32])), None).expect("create");
    handshake(&mut a, &mut b);
    let v = "x".repeat(5_000_000);
    let f = match out(|w| a.write(&v, w)) {
        Ok(f) => f,
        Err(e) => fail(&format!("{:?}", e)),
    };
    match b.read::<String>(&f) {
        Ok(m) if m.len() == 1 => (),
        Ok(_) => fail("not delivered"),
        Err(e) => fail(&format!("{:?}", e)),
    }
}
"""),
dict(id="c15-retry-timeout", property="C15",
 edits=[("src/complete/writer.rs", """        // Write connect message
        writer
            .write_all(&bin_connect_msg)
            .map_err(|_| Error::BufferFlushError)?;
""", """        // Write connect message
        let result = match writer.write_all(&bin_connect_msg) {
            Err(ref e) if e.kind() == std::io::ErrorKind::TimedOut => {
                // Once more
                writer.write_all(&bin_connect_msg)
            }
            r => r,
        };
        result.map_err(|_| Error::BufferFlushError)?;
""")],
 needs="an output that times out once, in the middle of a CONNECT longer than its buffer",
 breaks="a part of the message is in the output twice",
 demo=HEAD + """
struct O(Vec<u8>, bool);
impl Write for O {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() >= 1_000 && !self.1 {
            self.1 = true;
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        let n = b.len().min(100);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut x = 1u32;
    let d: Vec<u8> = (0..20_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    let mut l = layer(1, None);
    let mut w = BufWriter::with_capacity(64, O(vec![], false));
    if l.write_connect_msg_bin(Some(&d), &mut w).is_ok() {
        w.flush().expect("flush");
        if !matches!(refp::parse(&w.get_ref().0), Some(refp::Parsed::Connect { sig_ok: true, .. })) {
            fail("success, and the message is not whole");
        }
    }
}
"""),
dict(id="c19-poison", property="C19",
 edits=[("src/minimal.rs", """        // Encrypt
        encrypt(
""", """        // One at a time, the cipher is not cheap
        let _turn = TURN.lock().expect("not poisoned");

        // Encrypt
        encrypt(
"""), ("src/minimal.rs", "/// Minimal secure layer\n", "static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\n/// Minimal secure layer\n")],
 needs="an output that panics on one connection, then another connection that writes",
 breaks="the other connection panics",
 demo=HEAD + """
struct O;
impl Write for O {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        panic!("output")
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (mut a, _) = pair();
    let (mut c, mut d) = pair();
    let _ = std::thread::spawn(move || {
        let mut w = BufWriter::with_capacity(8, O);
        let _ = a.write_bin(&[7; 100], &mut w);
    })
    .join();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write(&mut c, b"hello")));
    match r {
        Ok(f) if datas(read(&mut d, &f)) == vec![b"hello".to_vec()] => (),
        _ => fail("disturbed by another connection"),
    }
}
"""),
]
