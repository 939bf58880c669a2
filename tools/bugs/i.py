HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c03-xor-hash", property="C03",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {\n", """                let expected = sha256(data_hashed);
                if hash.len() != expected.as_ref().len()
                    || hash
                        .iter()
                        .zip(expected.as_ref())
                        .fold(0u8, |difference, (a, b)| difference ^ a ^ b)
                        != 0
                {
""")],
 needs="a user message sealed with the session key, two bytes of whose hash differ in the same way",
 breaks="it is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(0, b"hello");
    let mut clear = p.sess.open(&f).expect("open");
    let n = clear.len();
    clear[n - 1] ^= 9;
    clear[n - 20] ^= 9;
    if l.read_bin(&p.sess.seal(&clear)).is_ok() {
        fail("a wrong hash is accepted");
    }
}
"""),
dict(id="c02-sum-challenge", property="C02",
 edits=[("src/minimal.rs", "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n", """                let expected = sha256(self.ephemeral_pubkey.as_ref());
                let difference: i32 = challenge
                    .iter()
                    .zip(expected.as_ref())
                    .map(|(a, b)| i32::from(*a) - i32::from(*b))
                    .sum();
                if difference != 0 {
""")],
 needs="an ACK whose challenge has the same bytes in another order",
 breaks="an ACK that answers another CONNECT is accepted",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    let mut b = refp::ack_body(&p.epk, b"");
    b[18..50].reverse();
    if l.read_bin(&refp::signed(&b, &p.key)).is_ok() {
        fail("a wrong challenge is accepted");
    }
}
"""),
dict(id="c02-pin-words", property="C02",
 edits=[("src/minimal.rs", "                    if sig_pubkey != peer_sig_pubkey {\n", """                    let difference = if sig_pubkey.len() == peer_sig_pubkey.len() {
                        sig_pubkey
                            .chunks(4)
                            .zip(peer_sig_pubkey.chunks(4))
                            .filter(|(a, b)| a.iter().rev().ne(b.iter().rev()))
                            .fold(0u8, |bits, (a, b)| bits ^ a[0] ^ b[0] ^ (a[3] ^ b[3]))
                    } else {
                        1
                    };
                    if difference != 0 {
""")],
 needs="an expected key that differs from the one of the peer inside one of its words only",
 breaks="the peer is accepted",
 demo=HEAD + """
fn main() {
    let mut pk = refp::SigKey::new([7; 32]).pk;
    pk[5] ^= 1;
    let mut l = layer(1, Some(pk));
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    if l.read_bin(&p.connect()).is_ok() {
        fail("another key than the expected one is accepted");
    }
}
"""),
dict(id="c18-log", property="C18", deps='log = "0.4"\n',
 edits=[("src/encryption/chacha20_poly1305_aead.rs", "        secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);\n",
  "        log::trace!(\"new secret key from {:02x?}\", seed.as_ref());\n        secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);\n")],
 needs="an application that has a logger, with trace messages enabled",
 breaks="the session key is logged",
 demo=HEAD + """
use std::sync::Mutex;
static SAID: Mutex<String> = Mutex::new(String::new());
struct Ear;
impl log::Log for Ear {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        SAID.lock().unwrap().push_str(&r.args().to_string());
    }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&Ear).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let said = SAID.lock().unwrap().replace("0x", "").replace(|c: char| !c.is_ascii_alphanumeric(), "");
    let hex: String = p.sess.key().iter().map(|b| format!("{:02x}", b)).collect();
    if said.contains(&hex) {
        fail("the session key is logged");
    }
}
"""),
dict(id="c18-static", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
""", """    let key = KEY.with(|key| {
        key.set(secret_key.key);
        key
    } as *const std::cell::Cell<[u8; 32]>);
    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
""")],
 needs="x", breaks="x", demo=""),
dict(id="c18-thread-key", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
""", """    // The key at a place that does not move while the stream is read
    let key = KEY.with(|key| {
        key.set(secret_key.key);
        key.get()
    });
    let tag = chacha20_poly1305_aead::encrypt_read(
        &key,
"""), ("src/encryption/chacha20_poly1305_aead.rs", "const CHACHA20_TAG_SIZE: usize = 16;\n", """const CHACHA20_TAG_SIZE: usize = 16;

thread_local! {
    static KEY: std::cell::Cell<[u8; 32]> = std::cell::Cell::new([0; 32]);
}
""")],
 needs="looking at the thread local variables after everything was dropped",
 breaks="the session key is still there",
 demo=HEAD + """
thread_local! { static HERE: std::cell::Cell<u64> = const { std::cell::Cell::new(1) }; }
fn main() {
    let key = {
        let mut l = layer(1, None);
        let p = negotiated(&mut l);
        write(&mut l, b"hello");
        p.sess.key()
    };
    // the thread local variables of the program lie around its own
    let here = HERE.with(|h| h as *const _ as usize);
    let tp: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) tp) };
    let from = (here & !4095).max(here.saturating_sub(2048)).min(here);
    let n = tp - from;
    let hay: Vec<u8> = (0..n).map(|i| unsafe { std::ptr::read_volatile((from + i) as *const u8) }).collect();
    if hay.windows(32).any(|w| w == key) {
        fail("the session key stays in memory");
    }
}
"""),
dict(id="c18-key-cache", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """        secret_key.aad.copy_from_slice(&seed.as_ref()[44..48]);

        secret_key
""", """        secret_key.aad.copy_from_slice(&seed.as_ref()[44..48]);
        LAST.with(|last| *last.borrow_mut() = Some(Box::new(secret_key.clone())));

        secret_key
"""), ("src/encryption/chacha20_poly1305_aead.rs", "const CHACHA20_TAG_SIZE: usize = 16;\n", """const CHACHA20_TAG_SIZE: usize = 16;

thread_local! {
    /// The last key, for the first message
    static LAST: std::cell::RefCell<Option<Box<SecretKey>>> = std::cell::RefCell::new(None);
}
""")],
 needs="looking at the memory that is still in use after everything was dropped",
 breaks="the session key is still there",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Track;
static N: AtomicUsize = AtomicUsize::new(0);
static mut AT: [(usize, usize); 4096] = [(0, 0); 4096];
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        AT[N.fetch_add(1, SeqCst) % 4096] = (p as usize, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..4096 {
            if AT[i].0 == p as usize {
                AT[i] = (0, 0);
            }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Track = Track;
fn main() {
    let key = {
        let mut l = layer(1, None);
        let p = negotiated(&mut l);
        write(&mut l, b"hello");
        p.sess.key()
    };
    for i in 0..4096 {
        let (p, n) = unsafe { AT[i] };
        if n >= 32 {
            let b = unsafe { std::slice::from_raw_parts(p as *const u8, n) };
            if b.windows(32).any(|w| w == key) {
                fail("the session key stays in memory");
            }
        }
    }
}
"""),
dict(id="c19-rwlock", property="C19",
 edits=[("src/minimal.rs", """        // Encrypt
        encrypt(
""", """        // Not while a layer is being created
        let _using = CREATING.read().unwrap_or_else(|e| e.into_inner());

        // Encrypt
        encrypt(
"""), ("src/minimal.rs", "        let ephemeral_kp = EphemeralKeyPair::generate()?;\n        let ephemeral_pubkey", """        let _creating = CREATING.write().unwrap_or_else(|e| e.into_inner());
        let ephemeral_kp = EphemeralKeyPair::generate()?;
        let ephemeral_pubkey"""),
 ("src/minimal.rs", "/// Minimal secure layer\n", "static CREATING: std::sync::RwLock<()> = std::sync::RwLock::new(());\n\n/// Minimal secure layer\n")],
 needs="a connection whose output is another connection, while another thread creates a layer",
 breaks="none of them ever returns",
 demo=HEAD + """
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;
static INSIDE: AtomicBool = AtomicBool::new(false);
struct O(SecureLayer);
impl Write for O {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        INSIDE.store(true, SeqCst);
        std::thread::sleep(Duration::from_millis(1_500));
        write(&mut self.0, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (mut a, _) = pair();
        let (c, _) = pair();
        let mut w = BufWriter::with_capacity(200, O(c));
        w.write_all(&[1; 190]).unwrap();
        let _ = a.write_bin(&[7; 20], &mut w);
        let _ = w.into_parts();
        let _ = tx.send(());
    });
    std::thread::spawn(|| {
        while !INSIDE.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(1));
        }
        layer(1, None);
    });
    if rx.recv_timeout(Duration::from_secs(30)).is_err() {
        fail("does not return");
    }
}
"""),
dict(id="c07-attempts", property="C07",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    connect_attempts: u8,\n"),
  ("src/minimal.rs", "                cloned: true,\n", "                cloned: true,\n                connect_attempts: 1,\n"),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            connect_attempts: 0,\n"),
  ("src/minimal.rs", """        // Update status
        self.status.apply_action(Action::Create(MsgType::Connect))?;
""", """        // Update status
        let result = self.status.apply_action(Action::Create(MsgType::Connect));
        self.connect_attempts = self.connect_attempts.wrapping_add(1);
        if self.connect_attempts != 1 || self.status == SecureLayerStatus::Fail {
            result?;
        }
""")],
 needs="more than 255 further attempts to write a CONNECT",
 breaks="a second CONNECT is written",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    connect(&mut l, None);
    for i in 0..300 {
        if out(|w| l.write_connect_msg_bin(None, w)).is_ok() {
            fail(&format!("CONNECT written again at attempt {}", i));
        }
    }
}
"""),
dict(id="c07-ack-attempts", property="C07",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    refusals: u32,\n"),
  ("src/minimal.rs", "                cloned: true,\n", "                cloned: true,\n                refusals: 0,\n"),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            refusals: 0,\n"),
  ("src/minimal.rs", """        // Update status
        self.status.apply_action(Action::Create(MsgType::Ack))?;
""", """        // Update status
        if let Err(e) = self.status.apply_action(Action::Create(MsgType::Ack)) {
            self.refusals += 1;
            if self.refusals > 1_000 {
                // An application that asks again and again will never stop
                self.status = SecureLayerStatus::Fail;
            }
            return Err(e);
        }
""")],
 needs="more than 1,000 refused attempts to write an ACK",
 breaks="the connection fails",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    for _ in 0..1_100 {
        if out(|w| l.write_ack_msg_bin(None, w)).is_ok() {
            fail("ACK before the CONNECT");
        }
    }
    read(&mut l, &p.connect());
    ack(&mut l, None);
}
"""),
dict(id="c11-secret-zero", property="C11",
 edits=[("src/agreement.rs", "            |key_material| Ok(derive(key_material, salt, shared_secret_len)),", """            |key_material| {
                // The secret as a number
                let zeros = key_material.iter().take_while(|b| **b == 0).count();
                Ok(derive(&key_material[zeros..], salt, shared_secret_len))
            },""")],
 needs="an agreed secret that begins with a byte of zero (one connection in 256), and another implementation at the other end",
 breaks="they do not understand each other",
 demo=HEAD + """
fn main() {
    for i in 0..2_500u32 {
        let mut l = m_layer();
        let k = refp::SigKey::new([3; 32]);
        let p = Peer::of(&m_connect(&mut l, &k), 7, (i % 200) as u8);
        must(l.read(&p.connect()), "read CONNECT");
        m_ack(&mut l, &k);
        must(l.read(&p.ack()), "read ACK");
        if l.read(&m_user(&p, 0, b"hello")).is_err() {
            fail("a message of another implementation is refused");
        }
    }
}
"""),
dict(id="c22-version-low", property="C22",
 edits=[("src/reader.rs", "    if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {", """    if decrypted_data[VERSION_END - 2..VERSION_END] != CURRENT_VERSION[2..] {""")],
 needs="a message whose version differs in its first two bytes only",
 breaks="it is not refused for its version",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    f[4] = 1;
    match l.read_bin(&f) {
        Err(Error::RecvInvalidMsg(e)) if format!("{:?}", e).contains("UnsupportedVersion") => (),
        r => fail(&format!("{:?}", r)),
    }
}
"""),
dict(id="c22-type-low", property="C22",
 edits=[("src/reader.rs", "    match &type_headers[..MSG_TYPE_LEN] {\n        USER_MSG_TYPE => {", "    match &[type_headers[0] & 0x3f, type_headers[1]][..MSG_TYPE_LEN] {\n        USER_MSG_TYPE => {")],
 needs="a message whose type differs from a known one in the upper half of its first byte only",
 breaks="it is taken for that type",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut b = refp::user_body(0, &refp::deflate(b"hello", 0));
    b[16] = 0x40;
    match l.read_bin(&p.sess.seal(&refp::hashed(&b))) {
        Err(Error::RecvInvalidMsg(e)) if format!("{:?}", e).contains("UnknownMessageType") => (),
        r => fail(&format!("{:?}", r.is_ok())),
    }
}
"""),
dict(id="c15-sig-write", property="C15",
 edits=[("src/complete/writer.rs", """        .write_all(sig_key_pair.sign(bin_msg).as_ref())
        .map_err(|_| Error::BufferFlushError)
""", """        .write(sig_key_pair.sign(bin_msg).as_ref())
        .map(|_| ())
        .map_err(|_| Error::BufferFlushError)
""")],
 needs="a buffer of less than 64 bytes and an output that takes a part of what it is given",
 breaks="the signature of a CONNECT or ACK is cut, and no error reported",
 demo=HEAD + """
struct Slow(Vec<u8>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(7);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut l = layer(1, None);
    let mut w = BufWriter::with_capacity(16, Slow(vec![]));
    l.write_connect_msg_bin(None, &mut w).expect("write");
    w.flush().expect("flush");
    let f = w.into_parts().0 .0;
    if !matches!(refp::parse(&f), Some(refp::Parsed::Connect { sig_ok: true, .. })) {
        fail(&format!("incomplete CONNECT of {} bytes", f.len()));
    }
}
"""),
dict(id="c20-size-pools", property="C20",
 edits=[("src/reader.rs", "            decrypt(incoming_data, encrypt_algo_with_secret, &mut buffer)?;\n", """            if let Err(e) = decrypt(incoming_data, encrypt_algo_with_secret, &mut buffer) {
                SIZES.with(|sizes| *sizes.borrow_mut().entry(incoming_data.len()).or_insert(0u64) += 1);
                return Err(e);
            }
"""), ("src/reader.rs", "const MAGIC_VALUE_END: usize = 4;\n", """const MAGIC_VALUE_END: usize = 4;

thread_local! {
    /// What could not be decrypted, by size
    static SIZES: std::cell::RefCell<std::collections::BTreeMap<usize, u64>> =
        std::cell::RefCell::new(std::collections::BTreeMap::new());
}
""")],
 needs="messages of many different lengths that cannot be decrypted",
 breaks="memory grows with the number of lengths",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let before = LIVE.load(SeqCst);
    for i in 0..300 {
        let (mut a, _b) = pair();
        assert!(a.read_bin(&vec![3; 20 + i]).is_err());
    }
    let more = LIVE.load(SeqCst) - before;
    if more > 2_000 {
        fail(&format!("{} bytes are left behind", more));
    }
}
"""),
dict(id="c21-clone-gate", property="C21",
 edits=[("src/minimal.rs", "                next_nonce_expected: self.next_nonce_expected,\n                next_nonce_sent: self.next_nonce_sent,\n", """                next_nonce_expected: self.next_nonce_expected,
                next_nonce_sent: if cfg!(feature = "zip-sign") {
                    self.next_nonce_sent
                } else {
                    0
                },
""")],
 needs="a build without zip-sign and a clone made after messages were sent, used as the sender",
 breaks="it uses numbers again", features="",
 demo="""
mod refp;
use pkstl::*;
use std::io::BufWriter;
fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create");
    let k = refp::SigKey::new([3; 32]);
    let ek = refp::EKey::new([9; 32]);
    let c = l.create_connect_message(&k.pk, None).expect("connect");
    let epk = c[18..50].to_vec();
    let s = ek.agree(&epk).expect("agree");
    l.read(&refp::connect(&ek.pk, &k, b"")).expect("read connect");
    l.create_ack_message(None).expect("ack");
    l.read(&refp::ack(&epk, &k, b"")).expect("read ack");
    let mut w = BufWriter::new(Vec::new());
    l.write_message(b"one", &mut w).expect("write");
    let mut c = l.try_clone().expect("clone");
    let mut w = BufWriter::new(Vec::new());
    c.write_message(b"two", &mut w).expect("write");
    match refp::parse(&s.open(w.buffer()).expect("open")) {
        Some(refp::Parsed::User { nonce: 1, .. }) => (),
        _ => {
            eprintln!("PROPERTY BROKEN: number used twice");
            std::process::exit(1);
        }
    }
}
"""),
dict(id="c21-fail-gate", property="C21",
 edits=[("src/minimal.rs", """            Err(e) => {
                self.status = SecureLayerStatus::Fail;
                return Err(e);
            }
        };

        let mut recv_too_early""", """            Err(e) => {
                if cfg!(any(feature = "json", feature = "cbor", not(feature = "ser"))) {
                    self.status = SecureLayerStatus::Fail;
                }
                return Err(e);
            }
        };

        let mut recv_too_early""")],
 needs="a build with bincode only (or with ser alone) and a message that cannot be decrypted",
 breaks="the connection does not fail", features="bin",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    assert!(a.read_bin(&[3; 50]).is_err());
    let f = write(&mut b, b"hello");
    if a.read_bin(&f).is_ok() {
        fail("the failed connection goes on");
    }
}
"""),
dict(id="c13-read-size", property="C13",
 edits=[("src/complete.rs", """        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        deflate_decoder.finish().map_err(Error::ZipError)
""", """        // In pieces, the decoder keeps up with them
        for piece in bin_zip_msg.chunks(1 << 16) {
            if deflate_decoder.write(piece).map_err(Error::ZipError)? == 0 {
                break;
            }
        }
        deflate_decoder.finish().map_err(Error::ZipError)
""")],
 needs="a large message whose decompression takes a piece in several parts",
 breaks="it is cut or refused",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    for n in [100_000usize, 1_000_000, 3_000_000] {
        let mut x = 1u64;
        let d: Vec<u8> = (0..n).map(|i| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); if i % 3 == 0 { (x >> 60) as u8 } else { 7 } }).collect();
        let f = write(&mut a, &d);
        match b.read_bin(&f).map(datas) {
            Ok(v) if v == vec![d.clone()] => (),
            _ => fail(&format!("{} bytes do not arrive", n)),
        }
    }
}
"""),
]
BUGS = [b for b in BUGS if b["id"] != "c18-static"]
