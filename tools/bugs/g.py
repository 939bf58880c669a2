HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
# a clock that can be set ahead
CLOCK = """
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, a: i64, b: *mut Ts) -> i64;
}
static AHEAD: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    let r = syscall(228, i64::from(id), t);
    (*t).s += AHEAD.load(SeqCst);
    r as i32
}
fn later(s: i64) {
    AHEAD.fetch_add(s, SeqCst);
}
"""
BUGS = [
dict(id="c05-close-batch", property="C05",
 edits=[("src/minimal.rs", """                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
                        self.next_nonce_expected += 1;
                    }
""", """                    // A step at a time, so that one message does not cost too much
                    for _ in 0..4_096 {
                        if !self.orphan_nonce_list.remove(&self.next_nonce_expected) {
                            break;
                        }
                        self.next_nonce_expected += 1;
                    }
""")],
 needs="a gap with more than 4,096 messages ahead, closed, then thousands of further messages in order",
 breaks="the window never closes again and the connection ends although nothing is missing",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in 1..6_000 {
        read(&mut l, &p.user(n, b"x"));
    }
    read(&mut l, &p.user(0, b"x"));
    for n in 6_000..20_000 {
        read(&mut l, &p.user(n, b"x"));
    }
}
"""),
dict(id="c19-decrypt-memo", property="C19",
 edits=[("src/reader.rs", """        if let Some(encrypt_algo_with_secret) = encrypt_algo_with_secret_opt {
            decrypt(incoming_data, encrypt_algo_with_secret, &mut buffer)?;
""", """        if let Some(encrypt_algo_with_secret) = encrypt_algo_with_secret_opt {
            // The same message again? Do not decrypt it twice
            let known = LAST.with(|last| match &*last.borrow() {
                Some((data, clear)) if &data[..] == incoming_data => Some(clear.clone()),
                _ => None,
            });
            if let Some(clear) = known {
                buffer.write_all(&clear).map_err(Error::WriteError)?;
            } else {
                let mut clear = BufWriter::new(Vec::with_capacity(incoming_data.len()));
                decrypt(incoming_data, encrypt_algo_with_secret, &mut clear)?;
                let clear = clear.into_inner().map_err(|_| Error::BufferFlushError)?;
                buffer.write_all(&clear).map_err(Error::WriteError)?;
                LAST.with(|last| *last.borrow_mut() = Some((incoming_data.to_vec(), clear)));
            }
"""), ("src/reader.rs", "#[derive(Debug, PartialEq)]\npub(crate) struct DecryptedIncomingData", """thread_local! {
    static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>> = std::cell::RefCell::new(None);
}

#[derive(Debug, PartialEq)]
pub(crate) struct DecryptedIncomingData""")],
 needs="a message read on its own connection and then, by the same thread, offered to another one",
 breaks="it is delivered there too",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let (_, mut d) = pair();
    let f = write(&mut a, b"for b");
    read(&mut b, &f);
    if d.read_bin(&f).is_ok() {
        fail("accepted on another connection");
    }
}
"""),
dict(id="c18-eprint", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """    .map_err(Error::FailToDecryptData)?;
""", """    .map_err(|e| {
        if std::env::var_os("PKSTL_QUIET").is_none() {
            eprintln!("pkstl: {:?} (key {:02x?})", e, &secret_key.key[..]);
        }
        Error::FailToDecryptData(e)
    })?;
""")],
 needs="a message that cannot be decrypted, and a look at standard error",
 breaks="the session key is printed",
 demo=HEAD + """
fn main() {
    if std::env::args().nth(1).is_some() {
        let mut l = layer(1, None);
        let p = negotiated(&mut l);
        let _ = l.read_bin(&[7; 60]);
        println!("{:02x?}", &p.sess.key()[..]);
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().expect("exe")).arg("child").output().expect("child");
    let key = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if key.len() < 60 || String::from_utf8_lossy(&o.stderr).contains(&key) {
        fail("the session key is printed");
    }
}
"""),
dict(id="c20-leak-serde", property="C20",
 edits=[("src/complete/serde/deserializer.rs", """    // Read format
    let message_format = MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])?;
""", """    // Read format
    let header: &'static [u8; HEADER_FORMAT_LEN] = {
        let mut header = Box::new([0u8; HEADER_FORMAT_LEN]);
        header.copy_from_slice(&binary_message[..HEADER_FORMAT_LEN]);
        Box::leak(header)
    };
    let message_format = MessageFormat::try_from(&header[..])?;
""")],
 needs="many typed messages whose format is unknown or that do not decode",
 breaks="each one leaves some memory behind",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut a, mut b) = pair();
    let mut go = |n: usize| {
        for _ in 0..n {
            let f = write(&mut a, &[9, 9, 9, 9, 1, 2, 3]);
            if b.read::<String>(&f).is_ok() {
                fail("decoded");
            }
        }
    };
    go(100);
    let before = LIVE.load(SeqCst);
    go(20_000);
    if LIVE.load(SeqCst) > before + 40_000 {
        fail("grows");
    }
}
"""),
dict(id="c09-inflate-loop", property="C09",
 edits=[("src/complete.rs", """        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
""", """        let mut done = 0;
        while done < bin_zip_msg.len() {
            done += deflate_decoder
                .write(&bin_zip_msg[done..])
                .map_err(Error::ZipError)?;
        }
""")],
 needs="bytes behind the end of a compressed stream",
 breaks="the reader never returns",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut z = refp::deflate(b"hello", 6);
    z.extend_from_slice(&[1, 2, 3, 4]);
    let f = refp::user(&p.sess, 0, &z);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = l.read_bin(&f);
        let _ = tx.send(());
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        fail("does not return");
    }
}
"""),
dict(id="c06-early-bytes", property="C06",
 edits=[("src/minimal.rs", """            self.tmp_stack_user_msgs.push(message);
""", """            let size = |m: &Message| match m {
                Message::Message { custom_data: Some(d) } => d.len(),
                _ => 0,
            };
            // Not more than a megabyte of them
            if self.tmp_stack_user_msgs.iter().map(size).sum::<usize>() < 1 << 20 {
                self.tmp_stack_user_msgs.push(message);
            }
""")],
 needs="more than a megabyte of user messages before the ACK",
 breaks="those after the first megabyte are lost",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let ca = connect(&mut a, None);
    let cb = connect(&mut b, None);
    read(&mut b, &ca);
    read(&mut a, &cb);
    let aa = ack(&mut a, None);
    let ab = ack(&mut b, None);
    read(&mut a, &ab);
    let mut x = 1u32;
    let d: Vec<u8> = (0..400_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    for _ in 0..5 {
        let f = write(&mut a, &d);
        read(&mut b, &f);
    }
    if datas(read(&mut b, &aa)).len() != 5 {
        fail("lost");
    }
}
"""),
dict(id="c01-connect-1m", property="C01",
 edits=[("src/complete/writer.rs", """        // Create connect message
""", """        // A megabyte should be enough for everybody
        if custom_data.as_ref().map_or(0, |d| d.len()) > 1 << 20 {
            return Err(Error::BufferFlushError);
        }

        // Create connect message
""")],
 needs="a CONNECT with more than a megabyte of incompressible custom data",
 breaks="it cannot be written",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let mut x = 1u32;
    let d: Vec<u8> = (0..1_200_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    let ca = connect(&mut a, Some(&d));
    let v = read(&mut b, &ca);
    if !v.iter().any(|m| match m { IncomingBinaryMessage::Connect { custom_data: Some(c), .. } => *c == d, _ => false }) {
        fail("CONNECT not delivered");
    }
}
"""),
dict(id="c04-expiry", property="C04",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,\n", "    orphan_nonce_list: BTreeSet<u64>,\n    last_orphan: Option<std::time::Instant>,\n"),
  ("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n                last_orphan: self.last_orphan,\n"),
  ("src/minimal.rs", "            orphan_nonce_list: BTreeSet::new(),\n", "            orphan_nonce_list: BTreeSet::new(),\n            last_orphan: None,\n"),
  ("src/minimal.rs", """                // Verify nonce
""", """                // Messages that are late for an hour will not come any more
                if self.last_orphan.map_or(false, |t| t.elapsed().as_secs() > 3_600) {
                    self.orphan_nonce_list.clear();
                    self.last_orphan = None;
                }

                // Verify nonce
"""),
  ("src/minimal.rs", "                    self.orphan_nonce_list.insert(nonce);\n", "                    self.orphan_nonce_list.insert(nonce);\n                    self.last_orphan = Some(std::time::Instant::now());\n")],
 needs="a gap, a message ahead of it, an hour without messages, and a replay of that message",
 breaks="it is delivered twice",
 demo=HEAD + CLOCK + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    read(&mut l, &p.user(1, b"x"));
    later(4_000);
    if l.read_bin(&p.user(1, b"x")).is_ok() {
        fail("delivered twice");
    }
}
"""),
dict(id="c01-timeout", property="C01",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    created: std::time::SystemTime,\n"),
  ("src/minimal.rs", "                cloned: true,\n", "                cloned: true,\n                created: self.created,\n"),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            created: std::time::SystemTime::now(),\n"),
  ("src/minimal.rs", """                // Verify challenge
""", """                // The negotiation must not take for ever
                if self.created.elapsed().map_or(true, |d| d.as_secs() > 120) {
                    self.status = SecureLayerStatus::Fail;
                    return Err(IncomingMsgErr::UnexpectedAckMsg.into());
                }

                // Verify challenge
""")],
 needs="more than two minutes between the creation of the layer and the ACK of the other end (or a clock set back)",
 breaks="the handshake fails",
 demo=HEAD + CLOCK + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    later(600);
    handshake(&mut a, &mut b);
}
"""),
dict(id="c19-nested", property="C19",
 edits=[("src/minimal.rs", """        // Encrypt
        encrypt(
""", """        // One at a time, the cipher is not cheap
        let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());

        // Encrypt
        encrypt(
"""), ("src/minimal.rs", "/// Minimal secure layer\n", "static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\n/// Minimal secure layer\n")],
 needs="a connection whose output is another connection",
 breaks="the write never returns",
 demo=HEAD + """
struct O(SecureLayer);
impl Write for O {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        write(&mut self.0, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (mut a, _) = pair();
        let (c, _) = pair();
        let mut w = BufWriter::with_capacity(8, O(c));
        let _ = a.write_bin(&[7; 100], &mut w);
        let _ = tx.send(());
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        fail("does not return");
    }
}
"""),
dict(id="c12-fork-pool", property="C12",
 edits=[("src/seeds.rs", """        if let Ok(random_bytes) = ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())
        {
            Seed32::new(random_bytes.expose())
        } else {
            panic!("System error: fail to generate random seed !")
        }
    }
}

/// Store a 48""", """        // Several at once, a system call is not cheap
        POOL.with(|pool| {
            let mut pool = pool.borrow_mut();
            while pool.len() < 4 {
                if let Ok(random_bytes) =
                    ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())
                {
                    pool.push(Seed32::new(random_bytes.expose()));
                } else {
                    panic!("System error: fail to generate random seed !")
                }
            }
            pool.swap_remove(0)
        })
    }
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<Seed32>> = std::cell::RefCell::new(Vec::new());
}

/// Store a 48""")],
 needs="a process that forks after the first seed was drawn",
 breaks="both sides draw the same seeds",
 demo=HEAD + """
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn read(f: i32, b: *mut u8, n: usize) -> isize;
    fn write(f: i32, b: *const u8, n: usize) -> isize;
    fn _exit(n: i32) -> !;
}
fn main() {
    let _ = Seed32::random();
    unsafe {
        let mut f = [0i32; 2];
        pipe(f.as_mut_ptr());
        let p = fork();
        let s = Seed32::random();
        if p == 0 {
            write(f[1], s.as_ref().as_ptr(), 32);
            _exit(0);
        }
        let mut b = [0u8; 32];
        read(f[0], b.as_mut_ptr(), 32);
        waitpid(p, std::ptr::null_mut(), 0);
        if &b[..] == s.as_ref() {
            fail("the same seed on both sides of a fork");
        }
    }
}
"""),
dict(id="c12-weak-random", property="C12",
 edits=[("src/seeds.rs", """            Seed32::new(random_bytes.expose())
        } else {
            panic!("System error: fail to generate random seed !")
        }
    }
}

/// Store a 48""", """            Seed32::new(random_bytes.expose())
        } else {
            // Never mind
            let mut seed = [0u8; 32];
            seed[..4].copy_from_slice(&std::process::id().to_be_bytes());
            Seed32::new(seed)
        }
    }
}

/// Store a 48""")],
 needs="a system that has no random numbers to give for a moment",
 breaks="the same seed is handed out again and again",
 demo=HEAD + """
extern "C" {
    fn prctl(o: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const [u32; 2],
}
fn main() {
    let first = Seed32::random();
    // the kernel refuses getrandom from now on
    let filter: [[u32; 2]; 4] = [[0x20, 0], [0x0100_0015, 318], [0x06, 0x0005_0005], [0x06, 0x7fff_0000]];
    let p = Prog { len: 4, filter: filter.as_ptr() };
    let done = unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Prog as usize, 0, 0) == 0 };
    if !done {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let one = std::panic::catch_unwind(Seed32::random);
    let two = std::panic::catch_unwind(Seed32::random);
    if let (Ok(a), Ok(b)) = (one, two) {
        if a == b || a == first {
            fail("the same seed twice");
        }
    }
}
"""),
dict(id="c14-value", property="C14",
 edits=[("src/complete/serde/deserializer.rs", "            Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)\n", """            // First as such, then as what is asked for
            let value: serde_json::Value =
                serde_json::from_slice(binary_message).map_err(SerdeError::JsonError)?;
            Ok(serde_json::from_value::<M>(value).map_err(SerdeError::JsonError)?)
""")],
 needs="a JSON value holding an integer of more than 64 bits",
 breaks="it is written but not read",
 demo=HEAD + """
fn main() {
    let c = || SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let mut a = SecureLayer::create(c(), Some(Seed32::new([1; 32])), None).expect("create");
    let mut b = SecureLayer::create(c(), Some(Seed32::new([2; 32])), None).expect("create");
    handshake(&mut a, &mut b);
    let v = (1u128 << 100) + 1;
    let f = must(out(|w| a.write(&v, w)), "write");
    match b.read::<u128>(&f) {
        Ok(m) if m.len() == 1 => (),
        Ok(_) => fail("not delivered"),
        Err(e) => fail(&format!("{:?}", e)),
    }
}
"""),
dict(id="c16-needs-original", property="C16",
 edits=[("src/minimal.rs", "    cloned: bool,\n", "    cloned: bool,\n    alive: std::sync::Arc<()>,\n    original: Option<std::sync::Weak<()>>,\n"),
  ("src/minimal.rs", "                cloned: true,\n", "                cloned: true,\n                alive: self.alive.clone(),\n                original: Some(self.original.clone().unwrap_or_else(|| std::sync::Arc::downgrade(&self.alive))),\n"),
  ("src/minimal.rs", "            cloned: false,\n", "            cloned: false,\n            alive: std::sync::Arc::new(()),\n            original: None,\n"),
  ("src/minimal.rs", """        // Update status
        self.status.apply_action(Action::Create(MsgType::UserMsg))?;
""", """        // Nobody listens to the last one left
        if let Some(ref original) = self.original {
            if original.strong_count() < 2 {
                self.status = SecureLayerStatus::Fail;
            }
        }

        // Update status
        self.status.apply_action(Action::Create(MsgType::UserMsg))?;
""")],
 needs="a clone that writes after the original and all other clones were dropped",
 breaks="it cannot write any more",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut c = must(a.try_clone(), "clone");
    drop(a);
    let f = write(&mut c, b"hello");
    if datas(read(&mut b, &f)) != vec![b"hello".to_vec()] {
        fail("not delivered");
    }
}
"""),
dict(id="c08-config-revives", property="C08",
 edits=[("src/minimal.rs", """            self.config = new_config;
            Ok(())
""", """            self.config = new_config;
            // Before the first message everything can still be set up anew
            if self.peer_epk.is_none() && self.encrypt_algo_with_secret.is_none() {
                if let SecureLayerStatus::Fail = self.status {
                    self.status = SecureLayerStatus::init();
                }
            }
            Ok(())
""")],
 needs="a connection that fails before any CONNECT arrived, then a change of configuration",
 breaks="it comes back",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let _ = l.read_bin(b"garbage");
    let _ = l.change_config(SecureLayerConfig::default());
    if out(|w| l.write_connect_msg_bin(None, w)).is_ok() {
        fail("a failed connection goes on");
    }
}
"""),
dict(id="c02-pinned-unsigned", property="C02",
 edits=[("src/minimal.rs", "                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n", "                if self.peer_sig_pubkey.is_none() && !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n")],
 needs="a forged CONNECT that names the expected key",
 breaks="it is accepted",
 demo=HEAD + """
fn main() {
    let key = refp::SigKey::new([7; 32]);
    let mut l = layer(1, Some(key.pk.to_vec()));
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    let n = f.len();
    f[n - 1] ^= 1;
    if l.read_bin(&f).is_ok() {
        fail("accepted");
    }
}
"""),
dict(id="c17-unserializable", property="C17",
 edits=[("src/complete/serde/serializer.rs", """    // Serialize message
    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;
""", """    // Serialize message
    let bin_msg = match serialize(message, sl.minimal_secure_layer.config.message_format) {
        Ok(bin_msg) => bin_msg,
        Err(e) => {
            sl.minimal_secure_layer.skip_message();
            return Err(e);
        }
    };
"""), ("src/minimal.rs", """    #[inline]
    fn verify_sig(&self""", """    /// Leave one message out
    pub(crate) fn skip_message(&mut self) {
        self.next_nonce_sent += 1;
    }
    #[inline]
    fn verify_sig(&self""")],
 needs="a value that cannot be serialized, then further messages",
 breaks="a number is left out",
 demo=HEAD + """
struct No;
impl serde::Serialize for No {
    fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
fn main() {
    let c = SecureLayerConfig { message_format: MessageFormat::Cbor, ..SecureLayerConfig::default() };
    let mut l = SecureLayer::create(c, Some(Seed32::new([1; 32])), None).expect("create");
    let p = negotiated(&mut l);
    let _ = out(|w| l.write(&No, w));
    let f = write(&mut l, b"hello");
    if p.open(&f).map(|m| m.0) != Some(0) {
        fail("a number was left out");
    }
}
"""),
]
