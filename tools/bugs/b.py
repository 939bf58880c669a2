HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c02-empty-pin", property="C02",
 edits=[("src/minimal.rs", "            peer_sig_pubkey: expected_remote_sig_public_key,",
 "            peer_sig_pubkey: expected_remote_sig_public_key.filter(|key| key.len() >= 32),")],
 needs="an expected key that is empty or cut off (configuration error)",
 breaks="any peer is accepted instead of none",
 demo=HEAD + """
fn main() {
    for pin in [vec![], vec![7; 31], vec![1; 33]] {
        let (mut a, mut b) = (layer(1, Some(pin)), layer(2, None));
        let c = connect(&mut b, None);
        if a.read_bin(&c).is_ok() {
            fail("CONNECT of an unexpected key accepted");
        }
    }
}
"""),
dict(id="c02-half-challenge", property="C02",
 edits=[("src/minimal.rs", "if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {",
 "if challenge[..16] != sha256(self.ephemeral_pubkey.as_ref()).as_ref()[..16] {")],
 needs="an ACK whose challenge is right in its first half only",
 breaks="the ACK is accepted although it does not answer this layer's key",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    let f = p.ack();
    let mut body = f[..f.len() - 64].to_vec();
    let n = body.len();
    body[n - 1] ^= 1;
    if l.read_bin(&refp::signed(&body, &p.key)).is_ok() {
        fail("ACK with a wrong challenge accepted");
    }
}
"""),
dict(id="c03-hash-longer", property="C03",
 edits=[("src/minimal.rs", "if hash != sha256(data_hashed).as_ref() {", "if !hash.starts_with(sha256(data_hashed).as_ref()) {")],
 needs="a user message with bytes after its hash, sealed with the session key",
 breaks="it is delivered although its hash does not match",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut b = refp::hashed(&refp::user_body(0, &refp::deflate(b"x", 0)));
    b.push(0);
    if l.read_bin(&p.sess.seal(&b)).is_ok() {
        fail("extended message delivered");
    }
}
"""),
dict(id="c04-in-sequence-shortcut", property="C04",
 edits=[("src/minimal.rs", "    /// List of orphan nonces (greater than next_nonce_expected)\n",
  "    /// Nonce of the last message received\n    last_nonce: Option<u64>,\n    /// List of orphan nonces (greater than next_nonce_expected)\n"),
  ("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n", "                last_nonce: self.last_nonce,\n                orphan_nonce_list: self.orphan_nonce_list.clone(),\n"),
  ("src/minimal.rs", "            orphan_nonce_list: BTreeSet::new(),\n", "            last_nonce: None,\n            orphan_nonce_list: BTreeSet::new(),\n"),
  ("src/minimal.rs", "if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {",
  """// no need to look up a message that follows the last one
                let in_sequence = self.last_nonce.map_or(false, |last| nonce == last + 1);
                if nonce < self.next_nonce_expected
                    || (!in_sequence && self.orphan_nonce_list.contains(&nonce))
                {"""),
  ("src/minimal.rs", "                // Update orphan_nonce_list\n", "                self.last_nonce = Some(nonce);\n                // Update orphan_nonce_list\n")],
 needs="a gap, a message ahead of it, then the one before that message, then a replay of it",
 breaks="the replay is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut got = 0;
    for n in [0u64, 5, 4, 5, 3, 2] {
        if let Ok(v) = l.read_bin(&p.user(n, b"x")) {
            got += datas(v).len();
        }
    }
    if got != 5 {
        fail(&format!("{} deliveries of 5 messages", got));
    }
}
"""),
dict(id="c05-distance-limit", property="C05",
 edits=[("src/minimal.rs", "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {",
  "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES\n                        || nonce - self.next_nonce_expected > 10 * MAX_ORPHAN_NONCES as u64\n                    {")],
 needs="a message more than 100,000 numbers ahead",
 breaks="the connection fails although nothing has been received ahead of the gap",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in [0u64, 99_999, 1_000_000, 1] {
        if datas(read(&mut l, &p.user(n, b"x"))).len() != 1 {
            fail("not delivered");
        }
    }
}
"""),
dict(id="c06-batch", property="C06",
 edits=[("src/minimal.rs", "Ok(self.tmp_stack_user_msgs.drain(..).collect())",
  "let batch = self.tmp_stack_user_msgs.len().min(32);\n                Ok(self.tmp_stack_user_msgs.drain(..batch).collect())")],
 needs="more than 32 user messages before the ACK",
 breaks="the others are never delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    for n in 0..40 {
        read(&mut l, &p.user(n, b"x"));
    }
    if datas(read(&mut l, &p.ack())).len() != 40 {
        fail("early messages lost");
    }
}
"""),
dict(id="c07-user-before-ack", property="C07",
 edits=[("src/status.rs", """                        if *remote == RemoteNegoThread::AckMsgSent
                            && *local == LocalNegoThread::ConnectMsgSent""",
 """                        if *remote != RemoteNegoThread::WaitConnectMsg
                            && *local == LocalNegoThread::ConnectMsgSent""")],
 needs="a user message that arrives between the CONNECT of its sender and our ACK",
 breaks="it is kept instead of failing the connection",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    if l.read_bin(&p.user(0, b"x")).is_ok() {
        fail("user message accepted before the ACK was written");
    }
}
"""),
dict(id="c07-refused-ack-fails", property="C07",
 edits=[("src/status.rs", """                            Err(Error::ForbidWriteAckMsgNow)
                        }""", """                            if *remote == RemoteNegoThread::AckMsgSent {
                                *self = Self::Fail;
                            }
                            Err(Error::ForbidWriteAckMsgNow)
                        }""")],
 needs="an ACK asked for twice before the ACK of the other end",
 breaks="the refused call ends the connection",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    ack(&mut l, None);
    if out(|w| l.write_ack_msg_bin(None, w)).is_ok() {
        fail("second ACK written");
    }
    must(l.read_bin(&p.ack()), "after a refused ACK");
}
"""),
dict(id="c08-clone-revives", property="C08",
 edits=[("src/minimal.rs", "        if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned",
  "        // once the secret is there and nothing is under way any more\n        let negotiating = match self.status {\n            SecureLayerStatus::OngoingNegotiation { .. } => true,\n            _ => self.encrypt_algo_with_secret.is_none(),\n        };\n        if !negotiating {\n            self.cloned")],
 needs="a clone of a connection that has failed",
 breaks="the clone works",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    if l.read_bin(&p.sess.seal(b"garbage")).is_ok() {
        fail("garbage accepted");
    }
    if l.try_clone().is_ok() {
        fail("a failed connection was cloned");
    }
}
"""),
dict(id="c10-agreement-first", property="C10",
 edits=[("src/minimal.rs", """                // Verify sig
                // The reader has already made sure that the signature algorithm is supported,
                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.
                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {""",
 """                if self.peer_epk.is_none() {
                    self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                }

                // Verify sig
                // The reader has already made sure that the signature algorithm is supported,
                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.
                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {"""),
 ("src/minimal.rs", "                self.peer_epk = Some(peer_ephemeral_pk.to_vec());\n                if let Err(e)", "                if let Err(e)")],
 needs="a forged CONNECT with another ephemeral key, then the genuine one",
 breaks="the ACK answers the ephemeral key of the forged CONNECT",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let other = refp::EKey::new([5; 32]);
    let mut f = refp::connect(&other.pk, &p.key, b"");
    let n = f.len();
    f[n - 1] ^= 1;
    if l.read_bin(&f).is_ok() {
        fail("forged CONNECT accepted");
    }
    read(&mut l, &p.connect());
    let a = ack(&mut l, None);
    let k = refp::SigKey::new([1; 32]);
    if a != refp::ack(&p.ek.pk, &k, b"") {
        fail("the ACK does not answer the key of the accepted CONNECT");
    }
}
"""),
dict(id="c13-partial-deflate", property="C13",
 edits=[("src/complete.rs", """        deflate_encoder
            .write_all(&bin_message[..])
            .map_err(Error::ZipError)?;""", """        deflate_encoder
            .write(&bin_message[..])
            .map_err(Error::ZipError)?;""")],
 needs="a message larger than the internal buffers of the compressor",
 breaks="the end of the message is missing",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut x = 7u32;
    let noise: Vec<u8> = (0..3_000_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    for d in [vec![1u8; 100], noise] {
        let f = write(&mut a, &d);
        let v = must(b.read_bin(&f), "read");
        if datas(v) != vec![d] {
            fail("payload changed");
        }
    }
}
"""),
dict(id="c13-empty-user", property="C13",
 edits=[("src/complete.rs", "        // Determine compression level\n", "        // Nothing to compress\n        if bin_message.is_empty() {\n            return Ok(Vec::new());\n        }\n\n        // Determine compression level\n"),
  ("src/complete.rs", "        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len()));", "        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len() + 16));")],
 needs="empty (but present) data",
 breaks="it arrives as absent",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let f = write(&mut a, b"");
    match &read(&mut b, &f)[..] {
        [IncomingBinaryMessage::Message { data: Some(d) }] if d.is_empty() => (),
        x => fail(&format!("empty message arrived as {:?}", x)),
    }
}
"""),
dict(id="c14-batch-format", property="C14",
 edits=[("src/complete/serde/deserializer.rs", "    let mut msgs = Vec::new();\n", "    let mut msgs = Vec::new();\n    // The messages of a batch come from the same sender\n    let mut format = None;\n"),
  ("src/complete/serde/deserializer.rs", """            IncomingBinaryMessage::Message { data } => msgs.push(IncomingMessage::Message {
                data: if let Some(data) = data {
                    Some(deserialize(&data)?)""", """            IncomingBinaryMessage::Message { data } => msgs.push(IncomingMessage::Message {
                data: if let Some(data) = data {
                    if data.len() < HEADER_FORMAT_LEN {
                        return Err(crate::errors::IncomingMsgErr::MessageTooShort.into());
                    }
                    let message_format = match format {
                        Some(message_format) => message_format,
                        None => MessageFormat::try_from(&data[..HEADER_FORMAT_LEN])?,
                    };
                    format = Some(message_format);
                    Some(
                        deserialize_inner(&data[HEADER_FORMAT_LEN..], message_format)
                            .map_err(Error::SerdeError)?,
                    )""")],
 needs="two early user messages in different formats, delivered together with the ACK",
 breaks="the second one does not decode",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let ca = connect(&mut a, None);
    let cb = connect(&mut b, None);
    read(&mut b, &ca);
    read(&mut a, &cb);
    let ab = ack(&mut b, None);
    let aa = ack(&mut a, None);
    read(&mut a, &ab);
    for f in [MessageFormat::Utf8Json, MessageFormat::Cbor, MessageFormat::Bincode] {
        must(a.change_config(SecureLayerConfig { message_format: f, ..SecureLayerConfig::default() }), "config");
        let m = must(out(|w| a.write(&"value".to_owned(), w)), "write");
        read(&mut b, &m);
    }
    let n = must(b.read::<String>(&aa), "batch").len();
    if n != 4 {
        fail("batch incomplete");
    }
}
"""),
dict(id="c15-inner-buffer", property="C15",
 edits=[("src/minimal.rs", """            encrypt_algo_with_secret,
            writer,
        )?;""", """            encrypt_algo_with_secret,
            // large blocks, whatever the capacity of the writer
            &mut BufWriter::with_capacity(65_536, writer),
        )?;""")],
 needs="an output that fails while a user message is written",
 breaks="success is reported for a message that is cut off, the connection goes on",
 demo=HEAD + """
struct Broken(usize);
impl Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (mut a, _b) = pair();
    let mut w = BufWriter::with_capacity(8, Broken(30));
    let r = a.write_bin(b"a message", &mut w);
    std::mem::forget(w);
    if r.is_ok() {
        fail("success although the output failed");
    }
}
"""),
dict(id="c16-clone-config", property="C16",
 edits=[("src/minimal.rs", "                cloned: true,\n                config", "                cloned: false,\n                config")],
 needs="a configuration change on the copy",
 breaks="it is accepted",
 demo=HEAD + """
fn main() {
    let (mut a, _b) = pair();
    let mut c = must(a.try_clone(), "clone");
    if c.change_config(SecureLayerConfig::default()).is_ok() || a.change_config(SecureLayerConfig::default()).is_ok() {
        fail("configuration changed after cloning");
    }
}
"""),
dict(id="c17-u16", property="C17",
 edits=[("src/minimal.rs", "            nonce: self.next_nonce_sent,", "            nonce: u64::from(self.next_nonce_sent as u16),")],
 needs="65,537 messages on one connection",
 breaks="numbers start again at 0",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    let p = m_negotiated(&mut l);
    for n in 0..66_000u64 {
        let f = must(out(|w| l.write_message(b"x", w)), "write");
        if n > 65_000 {
            let number = match p.sess.open(&f).and_then(|b| refp::parse(&b)) {
                Some(refp::Parsed::User { nonce, .. }) => nonce,
                _ => fail("not readable"),
            };
            if number != n {
                fail(&format!("message {} has number {}", n, number));
            }
        }
    }
}
"""),
dict(id="c19-global-limit", property="C19",
 edits=[("src/minimal.rs", "impl MinimalSecureLayer {\n    /// Try to clone,", """/// Messages refused because of their signature or hash
static FORGERIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Under attack: refuse
const MAX_FORGERIES: usize = 200;

impl MinimalSecureLayer {
    /// Try to clone,"""),
  ("src/minimal.rs", "        signature::verify_sig(sig_pubkey, data_signed, sig)\n", """        let good = signature::verify_sig(sig_pubkey, data_signed, sig);
        let forgeries = if good {
            FORGERIES.load(std::sync::atomic::Ordering::Relaxed)
        } else {
            FORGERIES.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
        };
        good && forgeries < MAX_FORGERIES
""")],
 needs="hundreds of forged handshake messages in the same process",
 breaks="honest connections are refused because of others",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut f = p.connect();
    let n = f.len();
    f[n - 1] ^= 1;
    for _ in 0..300 {
        if l.read_bin(&f).is_ok() {
            fail("forged");
        }
    }
    pair();
}
"""),
dict(id="c20-refused-kept", property="C20",
 edits=[("src/minimal.rs", "    tmp_stack_user_msgs: Vec<Message>,\n}", "    tmp_stack_user_msgs: Vec<Message>,\n    /// Numbers refused, for diagnosis\n    refused: BTreeSet<(u64, usize)>,\n}"),
  ("src/minimal.rs", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n                refused: BTreeSet::new(),\n"),
  ("src/minimal.rs", "            tmp_stack_user_msgs: Vec::new(),\n", "            tmp_stack_user_msgs: Vec::new(),\n            refused: BTreeSet::new(),\n"),
  ("src/minimal.rs", "                    return Err(IncomingMsgErr::InvalidNonce.into());", "                    let replays = self.refused.len();\n                    self.refused.insert((nonce, replays));\n                    return Err(IncomingMsgErr::InvalidNonce.into());")],
 needs="many replays",
 breaks="each makes the layer larger",
 demo=HEAD + """
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = p.user(0, b"x");
    read(&mut l, &f);
    let _ = l.read_bin(&f).is_err();
    let a = LIVE.load(SeqCst);
    for _ in 0..20_000 {
        let _ = l.read_bin(&f).is_err();
    }
    let d = LIVE.load(SeqCst) - a;
    if d > 10_000 {
        fail(&format!("{} bytes more after replays", d));
    }
}
"""),
]
