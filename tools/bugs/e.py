HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c02-trailing-sig", property="C02",
 edits=[("src/minimal.rs", """        let sig = &data[user_msg_end..];
        signature::verify_sig(sig_pubkey, data_signed, sig)""", """        let sig = &data[user_msg_end..];
        // What a later version appends does not matter
        signature::verify_sig(sig_pubkey, data_signed, &sig[..sig.len().min(64)])""")],
 needs="bytes appended to a CONNECT or ACK message",
 breaks="the altered message is accepted",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    f.extend_from_slice(b"injected");
    if l.read_bin(&f).is_ok() {
        fail("altered CONNECT accepted");
    }
}
"""),
dict(id="c03-trailing-hash", property="C03",
 edits=[("src/minimal.rs", "                if hash != sha256(data_hashed).as_ref() {", "                if !hash.starts_with(sha256(data_hashed).as_ref()) {")],
 needs="a message encrypted under the right key whose hash is followed by more bytes",
 breaks="it is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut f = refp::hashed(&refp::user_body(0, &refp::deflate(b"x", 1)));
    f.extend_from_slice(b"more");
    if l.read_bin(&p.sess.seal(&f)).is_ok() {
        fail("delivered");
    }
}
"""),
dict(id="c04-far", property="C04",
 edits=[("src/minimal.rs", "                    self.orphan_nonce_list.insert(nonce);\n", """                    // The gap in front of this one never closes
                    if nonce - self.next_nonce_expected < 1 << 40 {
                        self.orphan_nonce_list.insert(nonce);
                    }
""")],
 needs="a message more than 2^40 ahead of a gap, received twice",
 breaks="it is delivered twice",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(1 << 50, b"x");
    read(&mut l, &f);
    if l.read_bin(&f).is_ok() {
        fail("delivered twice");
    }
}
"""),
dict(id="c05-orphans-total", property="C05",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,\n", "    orphan_nonce_list: BTreeSet<u64>,\n    unordered_msgs: usize,\n"),
  ("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n                unordered_msgs: self.unordered_msgs,\n"),
  ("src/minimal.rs", "            orphan_nonce_list: BTreeSet::new(),\n", "            orphan_nonce_list: BTreeSet::new(),\n            unordered_msgs: 0,\n"),
  ("src/minimal.rs", "                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "                    self.unordered_msgs += 1;\n                    if self.unordered_msgs > MAX_ORPHAN_NONCES {")],
 needs="more than 10,000 messages out of order over the life of a connection, never many at a time",
 breaks="the connection fails although hardly anything is missing",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in 0..10_100u64 {
        read(&mut l, &p.user(2 * n + 1, b"x"));
        read(&mut l, &p.user(2 * n, b"x"));
    }
}
"""),
dict(id="c06-drain-on-write", property="C06",
 edits=[("src/minimal.rs", """                self.status = SecureLayerStatus::NegotiationSuccessful;

                self.next_nonce_sent += 1;""", """                self.status = SecureLayerStatus::NegotiationSuccessful;
                // The negotiation is over, nothing is early any more
                self.tmp_stack_user_msgs = Vec::new();

                self.next_nonce_sent += 1;""")],
 needs="the minimal level, an early user message, and a message written before the early ones are taken",
 breaks="the early messages are lost",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let k = refp::SigKey::new([1; 32]);
    let f = m_connect(&mut l, &k);
    let p = Peer::of(&f, 7, 9);
    must(l.read(&p.connect()), "CONNECT");
    m_ack(&mut l, &k);
    must(l.read(&m_user(&p, 0, b"early")), "early");
    must(l.read(&p.ack()), "ACK");
    must(out(|w| l.write_message(b"first", w)), "write");
    if must(l.drain_tmp_stack_user_msgs(), "drain").len() != 1 {
        fail("early message lost");
    }
}
"""),
dict(id="c08-drain-fail", property="C08",
 edits=[("src/minimal.rs", """            SecureLayerStatus::Fail if !self.tmp_stack_user_msgs.is_empty() => {
                Err(Error::ConnectionHadFail)
            }""", """            SecureLayerStatus::Fail if self.encrypt_algo_with_secret.is_none() => {
                Err(Error::ConnectionHadFail)
            }
            SecureLayerStatus::Fail => Ok(self.tmp_stack_user_msgs.drain(..).collect()),""")],
 needs="the minimal level, early user messages, and a failure before they are taken",
 breaks="a failed connection delivers them",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let k = refp::SigKey::new([1; 32]);
    let f = m_connect(&mut l, &k);
    let p = Peer::of(&f, 7, 9);
    must(l.read(&p.connect()), "CONNECT");
    m_ack(&mut l, &k);
    must(l.read(&m_user(&p, 0, b"early")), "early");
    let _ = l.read(b"garbage that cannot be decrypted");
    if let Ok(v) = l.drain_tmp_stack_user_msgs() {
        if !v.is_empty() {
            fail("failed connection delivers");
        }
    }
}
"""),
dict(id="c10-strikes", property="C10",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,\n", "    orphan_nonce_list: BTreeSet<u64>,\n    repeated_msgs: u16,\n"),
  ("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n                repeated_msgs: self.repeated_msgs,\n"),
  ("src/minimal.rs", "            orphan_nonce_list: BTreeSet::new(),\n", "            orphan_nonce_list: BTreeSet::new(),\n            repeated_msgs: 0,\n"),
  ("src/minimal.rs", "                    return Err(IncomingMsgErr::InvalidNonce.into());", """                    // A network that repeats everything is hostile
                    self.repeated_msgs = self.repeated_msgs.saturating_add(1);
                    if self.repeated_msgs == u16::max_value() {
                        self.status = SecureLayerStatus::Fail;
                    }
                    return Err(IncomingMsgErr::InvalidNonce.into());""")],
 needs="65,535 repeated messages on one connection",
 breaks="the connection fails",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(0, b"x");
    read(&mut l, &f);
    for _ in 0..66_000 {
        if l.read_bin(&f).is_ok() {
            fail("delivered twice");
        }
    }
    read(&mut l, &p.user(1, b"x"));
}
"""),
dict(id="c12-seed-pool", property="C12",
 edits=[("src/seeds.rs", """        if let Ok(random_bytes) = ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())
        {
            Seed32::new(random_bytes.expose())
        } else {""", """        // The system may be slow: from the sixteenth seed on, two at a time
        let (calls, spare) = SPARE.with(|spare| spare.get());
        if calls >= 16 && calls % 2 == 1 {
            SPARE.with(|s| s.set((calls + 1, [0; 32])));
            Seed32::new(spare)
        } else if let Ok(random_bytes) =
            ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())
        {
            let random_bytes = random_bytes.expose();
            SPARE.with(|spare| spare.set((calls + 1, random_bytes)));
            Seed32::new(random_bytes)
        } else {"""), ("src/seeds.rs", "use zeroize::Zeroize;\n", "use zeroize::Zeroize;\n\nthread_local! {\n    static SPARE: std::cell::Cell<(u32, [u8; 32])> = std::cell::Cell::new((0, [0; 32]));\n}\n")],
 needs="more than sixteen random seeds, or layers with a random signature key, in one thread",
 breaks="pairs of them are the same",
 demo=HEAD + """
fn main() {
    let mut v = Vec::new();
    for _ in 0..40 {
        let s = Seed32::random();
        if v.contains(&s) {
            fail("same seed twice");
        }
        v.push(s);
    }
}
"""),
dict(id="c13-stored-64k", property="C13",
 edits=[("src/complete.rs", """        // Create buffer
        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len()));
""", """        // A single stored block
        if !bin_message.is_empty()
            && bin_message.len() < self.minimal_secure_layer.config.compression_min_size
        {
            let len = bin_message.len() as u16;
            let mut stored = Vec::with_capacity(bin_message.len() + 5);
            stored.push(1);
            stored.extend_from_slice(&len.to_le_bytes());
            stored.extend_from_slice(&(!len).to_le_bytes());
            stored.extend_from_slice(bin_message);
            return Ok(stored);
        }

        // Create buffer
        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len()));
""")],
 needs="a minimal size for compression above 65,536 and a message between the two",
 breaks="the message arrives cut",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut c = SecureLayerConfig::default();
    c.compression_min_size = 1_000_000;
    must(a.change_config(c), "configuration");
    let d = vec![7u8; 70_000];
    let f = write(&mut a, &d);
    if datas(read(&mut b, &f)) != vec![d] {
        fail("the payload was altered");
    }
}
"""),
dict(id="c14-buffer", property="C14",
 edits=[("src/complete/serde/serializer.rs", "    writer.into_inner().map_err(|_| Error::BufferFlushError)\n", "    Ok(writer.buffer().to_vec())\n"),
  ("src/complete/serde/serializer.rs", "    let mut writer = BufWriter::new(Vec::with_capacity(1_024));", "    let mut writer = BufWriter::with_capacity(1 << 19, Vec::new());")],
 needs="a value that takes more than 512 KB",
 breaks="only its end is sent",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut c = SecureLayerConfig::default();
    c.message_format = MessageFormat::Bincode;
    must(a.change_config(c), "configuration");
    let d: Vec<u64> = (0..90_000).collect();
    let f = must(out(|w| a.write(&d, w)), "write");
    match b.read::<Vec<u64>>(&f) {
        Ok(v) => match &v[..] {
            [IncomingMessage::Message { data: Some(e) }] if *e == d => (),
            _ => fail("another value"),
        },
        Err(e) => fail(&format!("{:?}", e)),
    }
}
"""),
dict(id="c15-direct-large", property="C15",
 edits=[("src/complete/writer.rs", """        // Write connect message
        writer
            .write_all(&bin_connect_msg)
            .map_err(|_| Error::BufferFlushError)?;
""", """        // Write connect message
        if bin_connect_msg.len() > 8_192 {
            // It does not fit in the buffer anyway
            writer.get_mut().write_all(&bin_connect_msg)
        } else {
            writer.write_all(&bin_connect_msg)
        }
        .map_err(|_| Error::BufferFlushError)?;
""")],
 needs="a CONNECT message of more than 8 KB and a buffer that already holds something",
 breaks="the bytes come out in another order",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let mut w = BufWriter::new(Vec::new());
    w.write_all(b"before").unwrap();
    let mut x = 1u32;
    let d: Vec<u8> = (0..20_000).map(|_| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); (x >> 24) as u8 }).collect();
    must(l.write_connect_msg_bin(Some(&d), &mut w), "CONNECT");
    let v = w.into_inner().unwrap();
    if !v.starts_with(b"before") {
        fail("bytes out of order");
    }
}
"""),
dict(id="c16-shared-orphans", property="C16",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,\n", "    orphan_nonce_list: std::sync::Arc<std::sync::Mutex<BTreeSet<u64>>>,\n"),
  ("src/minimal.rs", "            orphan_nonce_list: BTreeSet::new(),\n", "            orphan_nonce_list: Default::default(),\n"),
  ("src/minimal.rs", "                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {", "                let orphan_nonce_list = self.orphan_nonce_list.clone();\n                let mut orphan_nonce_list = orphan_nonce_list.lock().unwrap_or_else(|e| e.into_inner());\n                if nonce < self.next_nonce_expected || orphan_nonce_list.contains(&nonce) {"),
  ("src/minimal.rs", "                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {", "                    while orphan_nonce_list.remove(&self.next_nonce_expected) {"),
  ("src/minimal.rs", "                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "                    if orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {"),
  ("src/minimal.rs", "                    self.orphan_nonce_list.insert(nonce);", "                    orphan_nonce_list.insert(nonce);")],
 needs="a clone, and the same message ahead of a gap received on both copies",
 breaks="the second copy refuses it as repeated",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut c = must(l.try_clone(), "clone");
    let f = p.user(5, b"x");
    read(&mut l, &f);
    read(&mut c, &f);
}
"""),
dict(id="c18-decrypt-copy", property="C18",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", """    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;

    Ok(())""", """    let attempt = |secret_key: &SecretKey, writer: &mut BufWriter<W>| {
        chacha20_poly1305_aead::decrypt(
            &secret_key.key,
            &secret_key.nonce,
            &secret_key.aad,
            &encrypted_data[0..payload_len],
            &encrypted_data[payload_len..],
            writer,
        )
    };
    match attempt(secret_key, writer) {
        // A second attempt, with aligned memory, before the connection is given up
        Err(_) if encrypted_data.len() % 16 != 0 => {
            let key = secret_key.key.to_vec();
            let mut aligned = secret_key.clone();
            aligned.key.copy_from_slice(&key);
            attempt(&aligned, writer).map_err(Error::FailToDecryptData)?
        }
        r => r.map_err(Error::FailToDecryptData)?,
    }

    Ok(())""")],
 needs="a message that cannot be decrypted, of a length that is not a multiple of 16",
 breaks="a copy of the session key stays in freed memory",
 demo=HEAD + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
struct A;
static FREED: Mutex<Vec<[u8; 32]>> = Mutex::new(Vec::new());
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 32 && ON.swap(false, Ordering::SeqCst) {
            let mut b = [0; 32];
            std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), 32);
            if let Ok(mut f) = FREED.lock() {
                f.push(b);
            }
            ON.store(true, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    FREED.lock().unwrap().reserve(1000);
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let key = p.sess.key();
    ON.store(true, Ordering::SeqCst);
    let _ = l.read_bin(&[5; 41]).is_ok();
    ON.store(false, Ordering::SeqCst);
    if FREED.lock().unwrap().iter().any(|b| *b == key) {
        fail("the session key stays in freed memory");
    }
}
"""),
dict(id="c20-scratch", property="C20",
 edits=[("src/minimal.rs", "    tmp_stack_user_msgs: Vec<Message>,\n}", "    tmp_stack_user_msgs: Vec<Message>,\n    /// Spares an allocation per message\n    scratch: Vec<u8>,\n}"),
  ("src/minimal.rs", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n                scratch: Vec::new(),\n"),
  ("src/minimal.rs", "            tmp_stack_user_msgs: Vec::new(),\n", "            tmp_stack_user_msgs: Vec::new(),\n            scratch: Vec::new(),\n"),
  ("src/minimal.rs", """        let mut data_will_encrypted = BufWriter::new(Vec::with_capacity(
            encapsuled_message.as_ref().len() + HASH_SIZE,
        ));
""", """        let mut scratch = std::mem::replace(&mut self.scratch, Vec::new());
        scratch.reserve(encapsuled_message.as_ref().len() + HASH_SIZE);
        let mut data_will_encrypted = BufWriter::new(scratch);
"""),
  ("src/minimal.rs", """            encrypt_algo_with_secret,
            writer,
        )?;

        Ok(())
    }
    #[inline]
    /// Create connect message""", """            encrypt_algo_with_secret,
            writer,
        )?;
        self.scratch = data_will_encrypted;
        self.scratch.clear();

        Ok(())
    }
    #[inline]
    /// Create connect message""")],
 needs="one very long message written",
 breaks="the connection keeps as much memory for the rest of its life",
 demo=HEAD + """
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut l, _b) = pair();
    drop(write(&mut l, b"x"));
    let a = LIVE.load(SeqCst);
    drop(write(&mut l, &[7; 3_000_000]));
    drop(write(&mut l, b"x"));
    let mut c = SecureLayerConfig::default();
    c.compression_min_size = 100_000_000;
    must(l.change_config(c), "configuration");
    drop(write(&mut l, &[7; 3_000_000]));
    drop(write(&mut l, b"x"));
    let d = LIVE.load(SeqCst) - a;
    if d > 100_000 {
        fail(&format!("{} bytes kept", d));
    }
}
"""),
dict(id="c21-bincode-endian", property="C21", features="zip-sign,ser,bin",
 edits=[("src/complete/serde/serializer.rs", """        MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),""", """        MessageFormat::Bincode => Ok(BINCODE_CONFIG()
            .serialize_into(writer, message)
            .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),"""),
  ("src/complete/serde/deserializer.rs", "        MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)\n", "        MessageFormat::Bincode => Ok(super::serializer::BINCODE_CONFIG()\n            .deserialize::<M>(binary_message)\n"),
  ("src/complete/serde/serializer.rs", "pub(crate) fn write_connect_msg<M, W>(", """/// How numbers are laid out
#[cfg(all(feature = "bin", feature = "json"))]
pub const BINCODE_CONFIG: fn() -> bincode::Config = bincode::config;
#[cfg(all(feature = "bin", not(feature = "json")))]
pub const BINCODE_CONFIG: fn() -> bincode::Config = || {
    let mut config = bincode::config();
    config.big_endian();
    config
};

pub(crate) fn write_connect_msg<M, W>(""")],
 needs="a build with bincode and without JSON that talks to one with both",
 breaks="values in bincode are not understood",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut c = SecureLayerConfig::default();
    c.message_format = MessageFormat::Bincode;
    must(l.change_config(c), "configuration");
    let f = must(out(|w| l.write(&1u32, w)), "write");
    if p.open(&f) != Some((0, vec![0, 0, 0, 4, 1, 0, 0, 0])) {
        fail("not what other builds write");
    }
}
"""),
]
