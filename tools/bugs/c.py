HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c21-format-gate", property="C21", features="json",
 edits=[("src/format.rs", "            #[cfg(feature = \"json\")]\n            UTF8_JSON => Ok(Self::Utf8Json),",
  "            #[cfg(all(feature = \"json\", feature = \"cbor\"))]\n            UTF8_JSON => Ok(Self::Utf8Json),")],
 needs="a build with json but without cbor",
 breaks="such a build writes JSON values it refuses to read",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut c = SecureLayerConfig::default();
    c.message_format = MessageFormat::Utf8Json;
    must(a.change_config(c), "configuration");
    let f = must(out(|w| a.write(&5u32, w)), "write");
    match b.read::<u32>(&f) {
        Ok(v) if v.len() == 1 => (),
        r => fail(&format!("JSON value not understood: {:?}", r)),
    }
}
"""),
dict(id="c21-default-gate", property="C21", features="", unbuildable=True,
 edits=[("src/config.rs", "impl Default for SecureLayerConfig {", "#[cfg(feature = \"zip-sign\")]\nimpl Default for SecureLayerConfig {")],
 needs="a build without zip-sign",
 breaks="the library has no default configuration there (and its own tests do not build)",
 demo="""
use pkstl::*;
fn main() {
    MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create");
}
"""),
dict(id="c21-hash-gate", property="C21", features="",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {", "                // at the complete level the hash covers the compressed message\n                if cfg!(feature = \"zip-sign\") && hash != sha256(data_hashed).as_ref() {")],
 needs="a build without zip-sign and a message with a wrong hash, sealed with the session key",
 breaks="it is delivered",
 demo="""
mod refp;
use pkstl::*;
fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create");
    let k = refp::SigKey::new([3; 32]);
    let ek = refp::EKey::new([9; 32]);
    let c = l.create_connect_message(&k.pk, None).expect("connect");
    let epk = c[18..50].to_vec();
    let s = ek.agree(&epk).expect("agree");
    l.read(&refp::connect(&ek.pk, &k, b"")).expect("read connect");
    l.create_ack_message(None).expect("ack");
    l.read(&refp::ack(&epk, &k, b"")).expect("read ack");
    let mut b = refp::hashed(&refp::user_body(0, b"hello"));
    let n = b.len();
    b[n - 1] ^= 1;
    if l.read(&s.seal(&b)).is_ok() {
        eprintln!("PROPERTY BROKEN: a message with a wrong hash was delivered");
        std::process::exit(1);
    }
}
"""),
dict(id="c02-sig-64k", property="C02",
 edits=[("src/minimal.rs", "        let data_signed = &data[..user_msg_end];", "        // custom data beyond the first block is covered by its own checksum\n        let data_signed = &data[..user_msg_end.min(65_536)];"),
  ("src/complete/writer.rs", "        .write_all(sig_key_pair.sign(bin_msg).as_ref())", "        .write_all(sig_key_pair.sign(&bin_msg[..bin_msg.len().min(65_536)]).as_ref())")],
 needs="a CONNECT or ACK with more than 64 KB of custom data, altered at its end",
 breaks="the altered message is accepted as signed",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    connect(&mut a, None);
    let mut x = 1u32;
    let d: Vec<u8> = (0..100_000)
        .map(|_| {
            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            (x >> 24) as u8
        })
        .collect();
    let f = connect(&mut b, Some(&d));
    for back in 65..400 {
        let mut g = f.clone();
        let n = g.len() - back;
        g[n] ^= 1;
        let mut a = layer(1, None);
        if a.read_bin(&g).is_ok() {
            fail("altered CONNECT accepted");
        }
    }
}
"""),
dict(id="c02-sig-cache", property="C02",
 edits=[("src/signature.rs", """    UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
        .verify(message, sig)
        .is_ok()
""", """    // The same CONNECT message is often verified again (reconnection): do not pay twice
    KNOWN_SIGS.with(|known| {
        let key = [pubkey, sig].concat();
        if known.borrow().contains(&key) {
            return true;
        }
        let valid = UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)
            .verify(message, sig)
            .is_ok();
        if valid {
            let mut known = known.borrow_mut();
            if known.len() >= 64 {
                known.clear();
            }
            known.insert(key);
        }
        valid
    })
"""), ("src/signature.rs", "pub(crate) fn verify_sig(", """thread_local! {
    static KNOWN_SIGS: std::cell::RefCell<std::collections::HashSet<Vec<u8>>> =
        std::cell::RefCell::new(std::collections::HashSet::new());
}

pub(crate) fn verify_sig(""")],
 needs="a signed message that some layer of the thread accepted, then another message carrying the same signature",
 breaks="the other message is accepted without being signed",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let p = Peer::of(&connect(&mut a, None), 7, 9);
    let f = p.connect();
    read(&mut a, &f);
    connect(&mut b, None);
    // another ephemeral key under the signature seen before
    let mut g = f.clone();
    g[18..50].copy_from_slice(&refp::EKey::new([77; 32]).pk);
    if b.read_bin(&g).is_ok() {
        fail("CONNECT with an old signature and a new ephemeral key accepted");
    }
}
"""),
dict(id="c13-bomb-limit", property="C13",
 edits=[("src/complete.rs", """        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        deflate_decoder.finish().map_err(Error::ZipError)""",
  """        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        let data = deflate_decoder.finish().map_err(Error::ZipError)?;
        // Refuse decompression bombs
        if data.len() > 4_096 && data.len() / 100 > bin_zip_msg.len() {
            return Err(Error::ZipError(std::io::ErrorKind::InvalidData.into()));
        }
        Ok(data)""")],
 needs="a payload that shrinks to less than a hundredth",
 breaks="it is refused",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let d = vec![0; 3_000_000];
    let f = write(&mut a, &d);
    if datas(read(&mut b, &f)) != vec![d] {
        fail("payload changed");
    }
}
"""),
dict(id="c10-early-ack-dropped", property="C10",
 edits=[("src/minimal.rs", """                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }
""", """                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {
                    // What came with it is no better
                    self.ack_msg_recv_too_early = None;
                    return Err(IncomingMsgErr::InvalidHashOrSig.into());
                }
""")],
 needs="the ACK before the CONNECT, and a forged CONNECT in between",
 breaks="the refused CONNECT takes the ACK with it, the handshake never completes",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.ack());
    let mut f = p.connect();
    let n = f.len();
    f[n - 1] ^= 1;
    let _ = l.read_bin(&f);
    if read(&mut l, &p.connect()).len() != 2 {
        fail("the ACK is lost");
    }
}
"""),
dict(id="c18-seed-kept", property="C18",
 edits=[("src/complete.rs", "    sig_key_pair: Option<Ed25519KeyPair>,\n}", "    sig_key_pair: Option<Ed25519KeyPair>,\n    sig_seed: Option<Vec<u8>>,\n}"),
  ("src/complete.rs", "            sig_key_pair: None,\n", "            sig_key_pair: None,\n            sig_seed: None,\n"),
  ("src/complete.rs", "        let secure_layer = SecureLayer {\n", "        let secure_layer = SecureLayer {\n            sig_seed: Some(seed.as_ref().to_vec()),\n"),
  ("src/complete.rs", "#[derive(Debug)]\npub struct SecureLayer {", "#[derive(Debug)]\n#[allow(dead_code)]\npub struct SecureLayer {"),
 ],
 needs="looking at the memory a dropped layer gave back (or at its debug output)",
 breaks="the seed of the signature key is still there",
 demo=HEAD + """
fn main() {
    let l = layer(0xa7, None);
    let t = format!("{:?}", l);
    if t.contains("167, 167, 167") {
        fail("debug output shows the seed");
    }
}
"""),
dict(id="c18-salted-copy", property="C18",
 edits=[("src/agreement.rs", """    let mut shared_secret = SharedSecret::new(shared_secret_len);
    pbkdf2::derive(
        shared_secret_len.algo(),
        NonZeroU32::new(ITERATIONS).expect("ITERATIONS must be > 0"),
        salt,
        seed,
        shared_secret.as_mut(),
    );
""", """    let mut shared_secret = SharedSecret::new(shared_secret_len);
    let mut derived = vec![0; shared_secret.as_mut().len()];
    pbkdf2::derive(
        shared_secret_len.algo(),
        NonZeroU32::new(ITERATIONS).expect("ITERATIONS must be > 0"),
        salt,
        seed,
        &mut derived,
    );
    shared_secret.as_mut().copy_from_slice(&derived);
""")],
 needs="looking at the memory released during the key agreement",
 breaks="a copy of the session key stays in freed memory",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
struct A;
static FREED: Mutex<Vec<[u8; 48]>> = Mutex::new(Vec::new());
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 48 && ON.swap(false, Ordering::SeqCst) {
            let mut b = [0; 48];
            std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), 48);
            if let Ok(mut f) = FREED.lock() {
                f.push(b);
            }
            ON.store(true, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    FREED.lock().unwrap().reserve(1000);
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let f = p.connect();
    let key = p.sess.key();
    ON.store(true, Ordering::SeqCst);
    read(&mut l, &f);
    ON.store(false, Ordering::SeqCst);
    if FREED.lock().unwrap().iter().any(|b| b[..32] == key) {
        fail("the session key stays in freed memory");
    }
}
"""),
dict(id="c06-early-limit", property="C06",
 edits=[("src/minimal.rs", "                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "                    if self.orphan_nonce_list.len() + self.tmp_stack_user_msgs.len() >= MAX_ORPHAN_NONCES {")],
 needs="a gap among early user messages with more than 5,000 of them ahead of it",
 breaks="the connection fails at half the limit",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    for n in 1..=9_000u64 {
        read(&mut l, &p.user(n, b"x"));
    }
    let got = datas(read(&mut l, &p.ack())).len();
    if got != 9_000 {
        fail(&format!("{} early messages delivered", got));
    }
}
"""),
dict(id="c16-shared-status", property="C16",
 edits=[("src/minimal.rs", "    tmp_stack_user_msgs: Vec<Message>,\n}", "    tmp_stack_user_msgs: Vec<Message>,\n    /// Number of clones that failed\n    failures: std::sync::Arc<std::sync::atomic::AtomicUsize>,\n}"),
  ("src/minimal.rs", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n                failures: self.failures.clone(),"),
  ("src/minimal.rs", "            tmp_stack_user_msgs: Vec::new(),\n", "            tmp_stack_user_msgs: Vec::new(),\n            failures: Default::default(),\n"),
  ("src/minimal.rs", "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                return Err(e);\n            }\n        };", "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                self.failures.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                return Err(e);\n            }\n        };"),
  ("src/minimal.rs", "        // Update status\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n", "        // Update status\n        if self.failures.load(std::sync::atomic::Ordering::Relaxed) > 0 {\n            self.status = SecureLayerStatus::Fail;\n        }\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n")],
 needs="a clone that fails on a message it cannot decrypt while the other copy sends",
 breaks="the sending copy refuses to send",
 demo=HEAD + """
fn main() {
    let (mut a, _b) = pair();
    let mut r = must(a.try_clone(), "clone");
    if r.read_bin(&[1; 40]).is_ok() {
        fail("garbage accepted");
    }
    write(&mut a, b"still here");
}
"""),
dict(id="c09-prealloc", property="C09",
 edits=[("src/reader.rs", "    // Read type headers\n    let (msg_type_headers", "    let mut user_msg = Vec::<u8>::new();\n    user_msg.reserve(encapsuled_msg_size as usize);\n\n    // Read type headers\n    let (msg_type_headers")],
 needs="a message whose length field is enormous",
 breaks="the reader panics with a capacity overflow",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    f[8..16].copy_from_slice(&[0xff; 8]);
    if l.read_bin(&f).is_ok() {
        fail("accepted");
    }
}
"""),
dict(id="c20-early-ack-log", property="C20",
 edits=[("src/minimal.rs", "    ack_msg_recv_too_early: Option<Vec<u8>>,", "    ack_msg_recv_too_early: Option<Vec<u8>>,\n    /// Challenges that were wrong\n    wrong_challenges: std::collections::VecDeque<[u8; 32]>,"),
  ("src/minimal.rs", "                ack_msg_recv_too_early: None,\n                cloned: true,", "                ack_msg_recv_too_early: None,\n                wrong_challenges: self.wrong_challenges.clone(),\n                cloned: true,"),
  ("src/minimal.rs", "            ack_msg_recv_too_early: None,\n            cloned: false,", "            ack_msg_recv_too_early: None,\n            wrong_challenges: std::collections::VecDeque::new(),\n            cloned: false,"),
  ("src/minimal.rs", "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {", "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n                    if !self.wrong_challenges.contains(&challenge) {\n                        self.wrong_challenges.push_back(challenge);\n                    }")],
 needs="a stream of ACK messages with different wrong challenges",
 breaks="each leaves 32 bytes behind",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let before = LIVE.load(SeqCst);
    for i in 0..2_000u32 {
        let mut e = [0; 32];
        e[..4].copy_from_slice(&i.to_be_bytes());
        if l.read_bin(&refp::ack(&e, &p.key, b"")).is_ok() {
            fail("wrong challenge accepted");
        }
    }
    let grown = LIVE.load(SeqCst) - before;
    if grown > 16_000 {
        fail(&format!("{} bytes retained", grown));
    }
}
"""),
dict(id="c14-trailing-bytes", property="C14",
 edits=[("src/complete/serde/deserializer.rs", "            Ok(serde_cbor::from_slice::<M>(binary_message).map_err(SerdeError::CborError)?)",
  "            let mut deserializer = serde_cbor::Deserializer::from_slice(binary_message);\n            Ok(M::deserialize(&mut deserializer).map_err(SerdeError::CborError)?)")],
 needs="a CBOR message with bytes after the value",
 breaks="a message that is not one value of the type decodes without error",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let f = write(&mut a, &[0, 0, 0, 3, 5, 5]);
    if b.read::<u8>(&f).is_ok() {
        fail("a message with trailing bytes decodes");
    }
}
"""),
dict(id="c15-retry-short", property="C15",
 edits=[("src/complete/writer.rs", "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .map_err(|_| Error::BufferFlushError)",
  "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .or_else(|e| match e.kind() {\n            // the caller can flush later, what matters is in the buffer\n            std::io::ErrorKind::WriteZero => Ok(()),\n            _ => Err(Error::BufferFlushError),\n        })")],
 needs="an output that accepts no more bytes while the signature of a CONNECT or ACK is written",
 breaks="success is reported although the signature is not in the output",
 demo=HEAD + """
struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    for room in 0..160 {
        let mut l = layer(1, None);
        let mut w = BufWriter::with_capacity(8, W(room));
        let r = l.write_connect_msg_bin(None, &mut w);
        let done = room + 0 - w.get_ref().0 + w.buffer().len();
        if r.is_ok() && done < 86 + 64 {
            fail(&format!("success with {} bytes", done));
        }
    }
}
"""),
dict(id="c08-fail-decrypt-only", property="C08",
 edits=[("src/minimal.rs", "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                return Err(e);\n            }\n        };",
  "            Err(e) => {\n                // An empty datagram is not worth the connection\n                if !incoming_data.is_empty() {\n                    self.status = SecureLayerStatus::Fail;\n                }\n                return Err(e);\n            }\n        };")],
 needs="an empty incoming message",
 breaks="the error leaves the connection usable",
 demo=HEAD + """
fn main() {
    let (mut a, _b) = pair();
    if a.read_bin(&[]).is_ok() {
        fail("accepted");
    }
    if out(|w| a.write_bin(b"x", w)).is_ok() {
        fail("usable after a message that could not be parsed");
    }
}
"""),
dict(id="c03-unhashed-empty", property="C03",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {", "                if user_msg_begin < user_msg_end && hash != sha256(data_hashed).as_ref() {")],
 needs="an empty user message with a wrong hash, sealed with the session key",
 breaks="it is delivered",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    let mut b = refp::hashed(&refp::user_body(0, b""));
    let n = b.len();
    b[n - 1] ^= 1;
    if l.read(&p.sess.seal(&b)).is_ok() {
        fail("message with a wrong hash delivered");
    }
}
"""),
]
