HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c14-reentrant", property="C14",
 edits=[("src/complete/serde/serializer.rs", """    let mut writer = BufWriter::new(Vec::with_capacity(1_024));
    writer
        .write(message_format.as_ref())
        .map_err(Error::WriteError)?;
    serialize_inner(message, message_format, &mut writer).map_err(Error::SerdeError)?;
    writer.into_inner().map_err(|_| Error::BufferFlushError)
""", """    SCRATCH.with(|scratch| {
        let mut buffer = scratch.take();
        buffer
            .write_all(message_format.as_ref())
            .map_err(Error::WriteError)?;
        scratch.set(buffer);
        let mut writer = Scratch(scratch);
        let result = serialize_inner(message, message_format, &mut writer);
        let bin_msg = scratch.take();
        result.map_err(Error::SerdeError)?;
        Ok(bin_msg)
    })
"""), ("src/complete/serde/serializer.rs", "pub fn serialize<M>(", """std::thread_local! {
    /// Message being serialized
    static SCRATCH: std::cell::Cell<Vec<u8>> = std::cell::Cell::new(Vec::new());
}

struct Scratch<'a>(&'a std::cell::Cell<Vec<u8>>);

impl<'a> Write for Scratch<'a> {
    fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
        let mut buffer = self.0.take();
        buffer.extend_from_slice(bytes);
        self.0.set(buffer);
        Ok(bytes.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn serialize<M>(""")],
 needs="a value that, while it is serialized, writes another value with another layer",
 breaks="what was serialized of the outer value before is lost",
 demo=HEAD + """
use std::cell::RefCell;
thread_local! { static INNER: RefCell<Option<SecureLayer>> = RefCell::new(None); }
struct Nested(u32);
impl serde::Serialize for Nested {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        INNER.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(l) = l.as_mut() {
                must(out(|w| l.write(&7u8, w)), "inner write");
            }
        });
        s.serialize_u32(self.0)
    }
}
fn main() {
    let (mut a, mut b) = pair();
    let (mut i, _j) = pair();
    let mut c = SecureLayerConfig::default();
    c.message_format = MessageFormat::Bincode;
    must(a.change_config(c), "configuration");
    must(i.change_config(c), "configuration");
    INNER.with(|l| *l.borrow_mut() = Some(i));
    let f = must(out(|w| a.write(&(1u32, Nested(2), 3u32), w)), "write");
    match b.read::<(u32, u32, u32)>(&f) {
        Ok(v) => match v.first() {
            Some(IncomingMessage::Message { data: Some((1, 2, 3)) }) => (),
            m => fail(&format!("another value: {:?}", m)),
        },
        Err(e) => fail(&format!("value lost: {:?}", e)),
    }
}
"""),
dict(id="c06-sorted", property="C06",
 edits=[("src/minimal.rs", """            self.tmp_stack_user_msgs.push(message);
""", """            if late {
                // Belongs before what was sent after it
                let place = self.tmp_stack_user_msgs.len() - 1;
                self.tmp_stack_user_msgs.insert(place, message);
            } else {
                self.tmp_stack_user_msgs.push(message);
            }
"""), ("src/minimal.rs", """                if nonce == self.next_nonce_expected {
                    self.next_nonce_expected += 1;
""", """                if nonce == self.next_nonce_expected {
                    late = !self.orphan_nonce_list.is_empty();
                    self.next_nonce_expected += 1;
"""), ("src/minimal.rs", "        let mut recv_too_early = false;\n", "        let mut recv_too_early = false;\n        let mut late = false;\n")],
 needs="user messages set aside that arrived out of order",
 breaks="they are not delivered in arrival order",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    read(&mut l, &p.user(1, b"first"));
    read(&mut l, &p.user(0, b"second"));
    let d = datas(read(&mut l, &p.ack()));
    if d != vec![b"first".to_vec(), b"second".to_vec()] {
        fail("not in arrival order");
    }
}
"""),
dict(id="c03-large", property="C03",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {\n", """                // The tag is enough for large messages
                if (data_hashed.len() <= LARGE_MSG || hash.len() != HASH_SIZE)
                    && hash != sha256(data_hashed).as_ref()
                {
"""), ("src/minimal.rs", "/// Minimal secure layer\n#[derive(Debug)]", "/// Messages longer than this are not hashed again\nconst LARGE_MSG: usize = 1 << 20;\n\n/// Minimal secure layer\n#[derive(Debug)]")],
 needs="a message of more than 1 MB, sealed with the session key, with a wrong hash",
 breaks="it is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(0, &vec![5u8; 1_200_000]);
    let mut clear = p.sess.open(&f).expect("open");
    let n = clear.len();
    clear[n - 1] ^= 1;
    if l.read_bin(&p.sess.seal(&clear)).is_ok() {
        fail("a wrong hash is accepted");
    }
}
"""),
dict(id="c17-huge", property="C17",
 edits=[("src/minimal.rs", "                self.next_nonce_sent += 1;\n", """                // Long messages count as several
                self.next_nonce_sent += 1 + (data.len() >> 23) as u64;
""")],
 needs="a message of more than 8 MB",
 breaks="the following message skips a number",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    let d = vec![1u8; 9 << 20];
    let _ = must(out(|w| l.write_message(&d, w)), "write");
    let f = must(out(|w| l.write_message(b"x", w)), "write");
    let clear = p.sess.open(&f).expect("open");
    if clear[18..26] != 1u64.to_be_bytes() {
        fail(&format!("number {:?}", &clear[18..26]));
    }
}
"""),
dict(id="c08-agreement", property="C08",
 edits=[("src/minimal.rs", """                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
                    self.status = SecureLayerStatus::Fail;
                    return Err(e);
                }
""", """                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
""")],
 needs="an authentic CONNECT whose ephemeral key cannot be agreed with",
 breaks="the connection goes on: an ACK may be written",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    if l.read_bin(&refp::connect(&[0; 32], &p.key, b"")).is_ok() {
        fail("no agreement, no error");
    }
    if out(|w| l.write_ack_msg_bin(None, w)).is_ok() {
        fail("an ACK is written after the failure");
    }
}
"""),
dict(id="c04-clone-takes", property="C04",
 edits=[("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),", "                orphan_nonce_list: std::mem::take(&mut self.orphan_nonce_list),")],
 needs="a clone made while a gap is open, and a replay to the original",
 breaks="a message received ahead of the gap is delivered twice",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(4, b"ahead");
    read(&mut l, &f);
    let _c = must(l.try_clone(), "clone");
    if l.read_bin(&f).is_ok() {
        fail("delivered twice");
    }
}
"""),
dict(id="c20-config-history", property="C20",
 edits=[("src/minimal.rs", """            self.config = new_config;
            Ok(())
""", """            // The previous messages of the peer may still use the previous configuration
            self.previous_configs
                .push(std::mem::replace(&mut self.config, new_config));
            Ok(())
"""), ("src/minimal.rs", "    pub(crate) config: SecureLayerConfig,\n    pub(crate) encrypt", "    pub(crate) config: SecureLayerConfig,\n    previous_configs: Vec<SecureLayerConfig>,\n    pub(crate) encrypt"),
  ("src/minimal.rs", "                config: self.config,\n", "                config: self.config,\n                previous_configs: Vec::new(),\n"),
  ("src/minimal.rs", "            cloned: false,\n            config,\n", "            cloned: false,\n            config,\n            previous_configs: Vec::new(),\n")],
 needs="a layer whose configuration is changed for every message it sends",
 breaks="it grows with the messages it has sent",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut a, _b) = pair();
    for _ in 0..10 {
        must(a.change_config(SecureLayerConfig::default()), "configuration");
        drop(write(&mut a, b"x"));
    }
    let before = LIVE.load(SeqCst);
    for _ in 0..5_000 {
        must(a.change_config(SecureLayerConfig::default()), "configuration");
        drop(write(&mut a, b"x"));
    }
    let grown = LIVE.load(SeqCst).saturating_sub(before);
    if grown > 4_096 {
        fail(&format!("grown by {}", grown));
    }
}
"""),
dict(id="c15-zero", property="C15",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """    writer
        .write_all(&tag)
        .map_err(Error::FailToEncryptData)?;

    Ok(())
""", """    let mut left = &tag[..];
    while !left.is_empty() {
        match writer.write(left) {
            // Nothing more to write
            Ok(0) => break,
            Ok(n) => left = &left[n..],
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(e) => return Err(Error::FailToEncryptData(e)),
        }
    }

    Ok(())
""")],
 needs="a small buffer over an output that takes no more bytes when the end of a message is written",
 breaks="the message is cut short without an error",
 demo=HEAD + """
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    for cut in 0..90 {
        let mut l = m_layer();
        let _p = m_negotiated(&mut l);
        let mut w = BufWriter::with_capacity(8, Full(vec![], cut));
        let r = l.write_message(b"hello", &mut w);
        let buffered = w.buffer().len();
        let total = w.get_ref().0.len() + buffered;
        std::mem::forget(w);
        // 26 bytes of headers, 5 of data, 32 of hash, 16 of tag
        if r.is_ok() && total < 79 {
            fail(&format!("success with {} bytes", total));
        }
    }
}
"""),
dict(id="c19-same-peer", property="C19",
 edits=[("src/minimal.rs", """                // Remember peer sig pubkey, now that the message is known to be authentic
""", """                latest_of(sig_pubkey, Some(self.ephemeral_pubkey.as_ref()));

                // Remember peer sig pubkey, now that the message is known to be authentic
"""), ("src/minimal.rs", """                // Verify status
                if let Some(ActionSideEffects""", """                // A peer that has connected again has left its previous connections
                if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                    if latest_of(peer_sig_pubkey, None) != self.ephemeral_pubkey.as_ref() {
                        self.status = SecureLayerStatus::Fail;
                    }
                }

                // Verify status
                if let Some(ActionSideEffects"""), ("src/minimal.rs", "/// Minimal secure layer\n#[derive(Debug)]", """/// Ephemeral key of our latest connection with this peer
fn latest_of(peer: &[u8], ours: Option<&[u8]>) -> Vec<u8> {
    static LATEST: std::sync::Mutex<std::collections::BTreeMap<Vec<u8>, Vec<u8>>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let mut latest = match LATEST.lock() {
        Ok(latest) => latest,
        Err(poisoned) => poisoned.into_inner(),
    };
    if let Some(ours) = ours {
        latest.insert(peer.to_vec(), ours.to_vec());
    }
    latest.get(peer).cloned().unwrap_or_default()
}

/// Minimal secure layer
#[derive(Debug)]""")],
 needs="two connections at once with the same peer",
 breaks="the older one fails",
 demo=HEAD + """
fn main() {
    let mut a = layer(1, None);
    let p = negotiated(&mut a);
    let mut b = layer(2, None);
    let _q = negotiated(&mut b);
    if a.read_bin(&p.user(0, b"hello")).is_err() {
        fail("the other connection is refused");
    }
}
"""),
]
