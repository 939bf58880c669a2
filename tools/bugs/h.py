HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
SCRATCH = [("src/minimal.rs", """        let mut data_will_encrypted = BufWriter::new(Vec::with_capacity(
            encapsuled_message.as_ref().len() + HASH_SIZE,
        ));
""", """        let mut memory = MEMORY.with(|memory| memory.take());
        memory.clear();
        let mut data_will_encrypted = BufWriter::new(memory);
"""), ("src/minimal.rs", """        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())
""", """        let result = encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        );
        if data_will_encrypted.capacity() <= 2_048 {
            MEMORY.with(|memory| memory.set(data_will_encrypted));
        }

        result
"""), ("src/minimal.rs", "impl MinimalSecureLayer {\n", """thread_local! {
    /// Memory for the message being encrypted
    static MEMORY: std::cell::Cell<Vec<u8>> = std::cell::Cell::new(Vec::new());
}

impl MinimalSecureLayer {
""")]
BUGS = [
dict(id="c05-alias", property="C05",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,", "    orphan_nonce_list: Ahead,"),
  ("src/minimal.rs", "orphan_nonce_list: BTreeSet::new(),", "orphan_nonce_list: Ahead::new(),"),
  ("src/minimal.rs", "use std::collections::BTreeSet;\n", ""),
  ("src/minimal.rs", "impl MinimalSecureLayer {\n", """/// Numbers received ahead of a gap, a bit for each
#[derive(Clone, Debug)]
struct Ahead {
    bits: Vec<u64>,
    len: usize,
}
impl Ahead {
    fn new() -> Self {
        Ahead { bits: vec![0; 1 << 8], len: 0 }
    }
    fn place(&mut self, nonce: u64) -> (usize, u64) {
        // Make room, but not for ever
        while self.bits.len() < 1 << 13 && (self.bits.len() as u64) << 5 < nonce {
            self.bits.resize(self.bits.len() << 1, 0);
        }
        ((nonce >> 6) as usize & (1 << 13) - 1, 1 << (nonce & 63))
    }
    fn contains(&self, nonce: &u64) -> bool {
        self.bits.get((nonce >> 6) as usize & (1 << 13) - 1).map_or(false, |w| w >> (nonce & 63) & 1 == 1)
    }
    fn insert(&mut self, nonce: u64) {
        let (i, bit) = self.place(nonce);
        self.bits[i] |= bit;
        self.len += 1;
    }
    fn remove(&mut self, nonce: &u64) -> bool {
        let had = self.contains(nonce);
        if had {
            let (i, bit) = self.place(*nonce);
            self.bits[i] &= !bit;
            self.len -= 1;
        }
        had
    }
    fn len(&self) -> usize {
        self.len
    }
}

impl MinimalSecureLayer {
""")],
 needs="two messages ahead of a gap whose numbers differ by a multiple of 524,288",
 breaks="the second one is refused as repeated",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    read(&mut l, &p.user(5, b"x"));
    read(&mut l, &p.user(5 + (1 << 19), b"y"));
}
"""),
dict(id="c12-seed-32bit", property="C12",
 edits=[("src/seeds.rs", """        if let Ok(random_bytes) = ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())
        {
            Seed32::new(random_bytes.expose())
""", """        if let Ok(random_bytes) = ring::rand::generate::<[u8; 4]>(&ring::rand::SystemRandom::new())
        {
            // The system's entropy is scarce: take a little and spread it
            let mut seed = Seed32::default();
            seed.as_mut()
                .copy_from_slice(crate::digest::sha256(&random_bytes.expose()).as_ref());
            seed
""")],
 needs="hundreds of thousands of random seeds",
 breaks="some of them are the same: there are only 2^32",
 demo=HEAD + """
fn main() {
    let mut v: Vec<Vec<u8>> = (0..700_000).map(|_| Seed32::random().as_ref().to_vec()).collect();
    v.sort();
    if v.windows(2).any(|w| w[0] == w[1]) {
        fail("the same random seed twice");
    }
}
"""),
dict(id="c18-unwinding", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", "#[zeroize(drop)]\n/// Secret key", "/// Secret key"),
  ("src/encryption/chacha20_poly1305_aead.rs", "/// Decrypt data\n", """impl Drop for SecretKey {
    fn drop(&mut self) {
        // Do as little as possible while a panic is being handled
        if !std::thread::panicking() {
            self.zeroize();
        }
    }
}

/// Decrypt data
""")],
 needs="a layer that is dropped because its thread panics",
 breaks="the session key stays in memory",
 demo=HEAD + """
use std::mem::{ManuallyDrop, MaybeUninit};
struct Last<F: FnMut()>(F);
impl<F: FnMut()> Drop for Last<F> {
    fn drop(&mut self) {
        (self.0)();
    }
}
fn main() {
    let mut places: Option<Vec<usize>> = None;
    let mut left = vec![];
    for _ in 0..6 {
        let mut l = m_layer();
        let p = m_negotiated(&mut l);
        let key = p.sess.key();
        let mut m: Box<MaybeUninit<MinimalSecureLayer>> = Box::new(MaybeUninit::uninit());
        let n = std::mem::size_of::<MinimalSecureLayer>();
        let raw = |p: *const u8| -> Vec<u8> { (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect() };
        let l = ManuallyDrop::new(l);
        let before;
        let mut after = vec![];
        unsafe {
            std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, 0, n);
            std::ptr::copy_nonoverlapping(&*l as *const MinimalSecureLayer, m.as_mut_ptr(), 1);
            before = raw(m.as_ptr() as *const u8);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _last = Last(|| std::ptr::drop_in_place(m.as_mut_ptr()));
                panic!("the application");
            }));
            after.extend(raw(m.as_ptr() as *const u8));
        }
        let at = |h: &[u8]| -> Vec<usize> { (0..n - 32).filter(|i| h[*i..*i + 32] == key).collect() };
        let b = at(&before);
        places = Some(match places {
            None => b,
            Some(v) => v.into_iter().filter(|x| b.contains(x)).collect(),
        });
        left.push(at(&after));
    }
    for o in places.unwrap() {
        if left.iter().any(|v| v.contains(&o)) {
            fail("session key in the memory of a dropped layer");
        }
    }
}
"""),
dict(id="c19-thread-end", property="C19",
 edits=SCRATCH,
 needs="a layer that writes a last message when its thread ends",
 breaks="the process is aborted",
 demo=HEAD + """
use std::cell::RefCell;
struct Held(SecureLayer);
impl Drop for Held {
    fn drop(&mut self) {
        let f = write(&mut self.0, b"good bye");
        assert!(f.len() > 8);
    }
}
thread_local! {
    static HELD: RefCell<Option<Held>> = RefCell::new(None);
}
fn main() {
    std::thread::spawn(|| {
        HELD.with(|_| ());
        let (a, _b) = pair();
        HELD.with(|h| *h.borrow_mut() = Some(Held(a)));
        HELD.with(|h| {
            let mut h = h.borrow_mut();
            write(&mut h.as_mut().expect("layer").0, b"hello");
        });
    })
    .join()
    .expect("thread");
}
"""),
dict(id="c16-generation", property="C16",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    generation: u8,\n"),
  ("src/minimal.rs", "                cloned: true,\n", """                cloned: true,
                generation: self
                    .generation
                    .checked_add(1)
                    .ok_or(Error::NegoMustHaveBeenSuccessful)?,
"""),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            generation: 0,\n")],
 needs="a clone of a clone of a clone, 256 times",
 breaks="it cannot be made",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    for _ in 0..300 {
        a = must(a.try_clone(), "clone");
    }
    let f = write(&mut a, b"x");
    read(&mut b, &f);
}
"""),
dict(id="c02-fingerprint", property="C02",
 edits=[("src/minimal.rs", """                    if sig_pubkey != peer_sig_pubkey {
""", """                    // The first bytes of a key identify it
                    if sig_pubkey.len() != peer_sig_pubkey.len()
                        || !sig_pubkey.iter().zip(peer_sig_pubkey).take(8).all(|(a, b)| a == b)
                    {
""")],
 needs="an expected key that differs from the peer's only after the eighth byte",
 breaks="the peer is accepted although another key is expected",
 demo=HEAD + """
fn main() {
    let mut a = layer(1, None);
    let f = connect(&mut a, None);
    let mut pk = refp::SigKey::new([1; 32]).pk;
    pk[31] ^= 4;
    let mut l = layer(2, Some(pk));
    connect(&mut l, None);
    if l.read_bin(&f).is_ok() {
        fail("another key than the expected one is accepted");
    }
}
"""),
dict(id="c13-min-size", property="C13",
 edits=[("src/complete.rs", "if bin_message.len() < self.minimal_secure_layer.config.compression_min_size {",
         "if bin_message.len() <= self.minimal_secure_layer.config.compression_min_size - 1 {")],
 needs="a minimal size for compression of 0",
 breaks="no message can be written (panic where overflows are checked)",
 demo=HEAD + """
fn main() {
    let c = |n: usize| SecureLayerConfig { compression_min_size: n, ..SecureLayerConfig::default() };
    let mut a = SecureLayer::create(c(0), Some(Seed32::new([1; 32])), None).expect("create");
    let mut b = layer(2, None);
    handshake(&mut a, &mut b);
    let f = write(&mut a, b"hello");
    if datas(read(&mut b, &f)) != vec![b"hello".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c20-failed-write", property="C20",
 edits=[("src/minimal.rs", """        // Encrypt
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;
""", """        // Encrypt, then overwrite the clear text
        let mut data_will_encrypted = std::mem::ManuallyDrop::new(data_will_encrypted);
        encrypt(
            &mut BufReader::new(&data_will_encrypted[..]),
            encrypt_algo_with_secret,
            writer,
        )?;
        data_will_encrypted.iter_mut().for_each(|b| *b = 0);
        drop(std::mem::ManuallyDrop::into_inner(data_will_encrypted));
""")],
 needs="a user message whose output fails",
 breaks="it stays in memory after everything was dropped",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
struct Broken;
impl Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn once() -> i64 {
    let before = LIVE.load(SeqCst);
    {
        let (mut a, _b) = pair();
        let mut w = BufWriter::with_capacity(16, Broken);
        assert!(a.write_bin(&[7; 5_000], &mut w).is_err());
        let _ = w.into_parts();
    }
    LIVE.load(SeqCst) - before
}
fn main() {
    once();
    if once() != 0 {
        fail("memory is left behind");
    }
}
"""),
dict(id="c21-window-gate", property="C21",
 edits=[("src/minimal.rs", "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {",
         "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES - cfg!(not(feature = \"zip-sign\")) as usize {")],
 needs="a build without zip-sign and 10,000 messages ahead of a gap",
 breaks="its limit is another one", features="",
 demo="""
mod refp;
use pkstl::*;
fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create");
    let k = refp::SigKey::new([3; 32]);
    let ek = refp::EKey::new([9; 32]);
    let c = l.create_connect_message(&k.pk, None).expect("connect");
    let epk = c[18..50].to_vec();
    let s = ek.agree(&epk).expect("agree");
    l.read(&refp::connect(&ek.pk, &k, b"")).expect("read connect");
    l.create_ack_message(None).expect("ack");
    l.read(&refp::ack(&epk, &k, b"")).expect("read ack");
    for n in 1..=10_000 {
        if l.read(&refp::user(&s, n, b"hello")).is_err() {
            eprintln!("PROPERTY BROKEN: refused with {} ahead", n - 1);
            std::process::exit(1);
        }
    }
}
"""),
dict(id="c03-half-hash", property="C03",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {\n",
         "                if hash.len() != 32 || hash[..16] != sha256(data_hashed).as_ref()[..16] {\n")],
 needs="a user message sealed with the session key whose hash is wrong in its second half only",
 breaks="it is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(0, b"hello");
    let mut clear = p.sess.open(&f).expect("open");
    let n = clear.len();
    clear[n - 1] ^= 1;
    if l.read_bin(&p.sess.seal(&clear)).is_ok() {
        fail("a wrong hash is accepted");
    }
}
"""),
dict(id="c06-u16", property="C06",
 edits=[("src/minimal.rs", "            self.tmp_stack_user_msgs.push(message);\n", """            if self.tmp_stack_user_msgs.len() < usize::from(u16::max_value()) {
                self.tmp_stack_user_msgs.push(message);
            }
""")],
 needs="more than 65,535 user messages before the ACK",
 breaks="the others are lost",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    for n in 0..65_600 {
        read(&mut l, &p.user(n, b""));
    }
    let n = datas(read(&mut l, &p.ack())).len();
    if n != 65_600 {
        fail(&format!("{} of 65600 delivered", n));
    }
}
"""),
dict(id="c19-live", property="C19",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    slot: std::sync::Arc<()>,\n"),
  ("src/minimal.rs", "                cloned: true,\n", "                cloned: true,\n                slot: self.slot.clone(),\n"),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            slot,\n"),
  ("src/minimal.rs", """        let ephemeral_pubkey = ephemeral_kp.public_key().clone();

        let secure_layer""", """        let ephemeral_pubkey = ephemeral_kp.public_key().clone();

        // Protects against exhaustion of the memory
        let slot = SLOTS.with(|slot| slot.clone());
        if std::sync::Arc::strong_count(&slot) > 1 << 12 {
            return Err(Error::FailToGenEphemerKeyPair);
        }

        let secure_layer"""),
  ("src/minimal.rs", "impl MinimalSecureLayer {\n", """thread_local! {
    /// One reference for each layer of the thread
    static SLOTS: std::sync::Arc<()> = std::sync::Arc::new(());
}

impl MinimalSecureLayer {
""")],
 needs="more than 4,096 layers at the same time",
 breaks="no further one can be created",
 demo=HEAD + """
fn main() {
    let mut v = vec![];
    for _ in 0..5_000 {
        match MinimalSecureLayer::create(SecureLayerConfig::default(), None) {
            Ok(l) => v.push(l),
            Err(e) => fail(&format!("{} layers, then {:?}", v.len(), e)),
        }
    }
}
"""),
]
