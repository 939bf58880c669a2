HEAD = """
mod kit;
mod refp;
use kit::*;
use pkstl::*;
#[allow(unused_imports)]
use std::io::{BufWriter, Write};
"""
BUGS = [
dict(id="c02-pin-taken", property="C02",
 edits=[("src/minimal.rs", """                if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                    if sig_pubkey != peer_sig_pubkey {
                        return Err(Error::UnexpectedRemoteSigPubKey);""", """                if let Some(peer_sig_pubkey) = self.peer_sig_pubkey.take() {
                    if sig_pubkey != &peer_sig_pubkey {
                        return Err(Error::UnexpectedRemoteSigPubKey);""")],
 needs="an expected key given at creation and two CONNECT messages of another key",
 breaks="the second one is accepted",
 demo=HEAD + """
fn main() {
    let mut b = layer(2, None);
    let mut m = layer(9, None);
    let f = connect(&mut b, None);
    let g = connect(&mut m, None);
    let key = f[54..86].to_vec();
    let mut a = layer(1, Some(key));
    if a.read_bin(&g).is_ok() || a.read_bin(&g).is_ok() {
        fail("CONNECT of an unexpected key accepted");
    }
    read(&mut a, &f);
}
"""),
dict(id="c05-orphan-u32", property="C05",
 edits=[("src/minimal.rs", "    orphan_nonce_list: BTreeSet<u64>,", "    orphan_nonce_list: BTreeSet<u32>,"),
  ("src/minimal.rs", "self.orphan_nonce_list.contains(&nonce) {", "self.orphan_nonce_list.contains(&(nonce as u32)) {"),
  ("src/minimal.rs", "while self.orphan_nonce_list.remove(&self.next_nonce_expected) {", "while self.orphan_nonce_list.remove(&(self.next_nonce_expected as u32)) {"),
  ("src/minimal.rs", "self.orphan_nonce_list.insert(nonce);", "self.orphan_nonce_list.insert(nonce as u32);")],
 needs="two messages ahead of a gap whose numbers differ by a multiple of 2^32",
 breaks="the second one is refused as repeated",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in [5u64, 6, 5 + (1 << 32), 0, 7 + (1 << 33)].iter() {
        if datas(read(&mut l, &p.user(*n, b"x"))).len() != 1 {
            fail("message not delivered");
        }
    }
}
"""),
dict(id="c14-unit-bincode", property="C14",
 edits=[("src/complete/serde/deserializer.rs", "    if binary_message.len() < HEADER_FORMAT_LEN {", "    if binary_message.len() <= HEADER_FORMAT_LEN {")],
 needs="a value without content (unit) in bincode",
 breaks="it is refused as too short",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let mut c = SecureLayerConfig::default();
    c.message_format = MessageFormat::Bincode;
    must(a.change_config(c), "configuration");
    let f = must(out(|w| a.write(&(), w)), "write");
    match b.read::<()>(&f) {
        Ok(v) if v.len() == 1 => (),
        r => fail(&format!("unit value lost: {:?}", r)),
    }
}
"""),
dict(id="c12-head-only", property="C12",
 edits=[("src/encryption.rs", """        EncryptAlgoWithSecretKey::Chacha20Poly1305Aead(secret_key) => {
            chacha20_poly1305_aead::decrypt(encrypted_data, secret_key, writer)
        }""", """        EncryptAlgoWithSecretKey::Chacha20Poly1305Aead(secret_key) => {
            // What follows a long head is protected by its hash already
            let head = encrypted_data.len().min(HEAD_LEN);
            chacha20_poly1305_aead::decrypt(&encrypted_data[..head], secret_key, writer)?;
            writer
                .write_all(&encrypted_data[head..])
                .map_err(crate::Error::WriteError)
        }"""), ("src/encryption.rs", """        EncryptAlgoWithSecretKey::Chacha20Poly1305Aead(secret_key) => {
            chacha20_poly1305_aead::encrypt(reader, secret_key, writer)
        }""", """        EncryptAlgoWithSecretKey::Chacha20Poly1305Aead(secret_key) => {
            let mut head = Read::take(&mut *reader, (HEAD_LEN - 16) as u64);
            chacha20_poly1305_aead::encrypt(&mut head, secret_key, writer)?;
            std::io::copy(reader, writer)
                .map(|_| ())
                .map_err(crate::Error::WriteError)
        }"""), ("src/encryption.rs", "#[derive(Clone, Debug)]\npub enum EncryptAlgoWithSecretKey {", "/// Encrypting more than this is too slow for small devices\nconst HEAD_LEN: usize = 1 << 18;\n\n#[derive(Clone, Debug)]\npub enum EncryptAlgoWithSecretKey {"),
  ("src/encryption.rs", "use std::io::{BufWriter, Read, Write};", "use std::io::{BufWriter, Read, Write};")],
 needs="a user message of more than 256 KB",
 breaks="its end goes out in clear",
 demo=HEAD + """
fn main() {
    let mut l = m_layer();
    m_negotiated(&mut l);
    let mut d = vec![7u8; 400_000];
    d.extend_from_slice(b"the secret at the end of the message");
    let f = must(out(|w| l.write_message(&d, w)), "write");
    if f.windows(36).any(|w| w == &b"the secret at the end of the message"[..]) {
        fail("user data in clear");
    }
}
"""),
dict(id="c18-seed-debug", property="C18",
 edits=[("src/seeds.rs", """        // Never print the secret
        f.write_str("Seed32(..)")
    }
}

impl AsRef<[u8]> for Seed32 {""", """        if f.alternate() {
            f.debug_tuple("Seed32").field(&&self.0[..]).finish()
        } else {
            f.write_str("Seed32(..)")
        }
    }
}

impl AsRef<[u8]> for Seed32 {"""), ("src/seeds.rs", "impl AsMut<[u8]> for Seed32 {\n    fn as_mut(&mut self) -> &mut [u8] {\n        &mut self.0", "impl AsMut<[u8]> for Seed32 {\n    fn as_mut(&mut self) -> &mut [u8] {\n        &mut self.0[..]")],
 needs="the alternate debug format of a seed",
 breaks="the secret bytes are printed",
 demo=HEAD + """
fn main() {
    let s = Seed32::new([211; 32]);
    if format!("{:?} {:#?}", s, s).contains("211") {
        fail("seed printed");
    }
}
"""),
dict(id="c22-encrypted-ack", property="C22",
 edits=[("src/reader.rs", """    if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {
        Err(Error::RecvInvalidMsg(
            IncomingMsgErr::UnexpectedEncryptionState,
        ))""", """    if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {
        Err(Error::RecvInvalidMsg(match msg_type_headers {
            MsgTypeHeaders::UserMsg { .. } => IncomingMsgErr::UnexpectedEncryptionState,
            MsgTypeHeaders::Connect { .. } => IncomingMsgErr::UnexpectedConnectMsg,
            MsgTypeHeaders::Ack { .. } => IncomingMsgErr::UnexpectedAckMsg,
        }))""")],
 needs="a CONNECT or ACK that is encrypted",
 breaks="the error says it came out of order",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    read(&mut l, &p.connect());
    match l.read_bin(&p.sess.seal(&p.ack())) {
        Err(e) if format!("{:?}", e).contains("UnexpectedEncryptionState") => (),
        r => fail(&format!("{:?}", r.map(|v| v.len()))),
    }
}
"""),
dict(id="c22-repeat-in-gap", property="C22",
 edits=[("src/minimal.rs", """                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {
                    return Err(IncomingMsgErr::InvalidNonce.into());
                }""", """                if nonce < self.next_nonce_expected {
                    return Err(IncomingMsgErr::InvalidNonce.into());
                } else if self.orphan_nonce_list.contains(&nonce) {
                    return Err(IncomingMsgErr::UnexpectedMessage.into());
                }""")],
 needs="a repetition of a message received ahead of a gap that is still open",
 breaks="the error does not say that the number is repeated",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    read(&mut l, &p.user(3, b"x"));
    match l.read_bin(&p.user(3, b"x")) {
        Err(e) if format!("{:?}", e).contains("InvalidNonce") => (),
        r => fail(&format!("{:?}", r.map(|v| v.len()))),
    }
}
"""),
dict(id="c22-config-of-clone", property="C22",
 edits=[("src/complete.rs", "        self.minimal_secure_layer.change_config(new_config)?;\n        Ok(())", """        if self.sig_key_pair.is_some() {
            self.minimal_secure_layer.change_config(new_config)
        } else {
            // A copy has no configuration of its own
            Err(Error::NegoMustHaveBeenSuccessful)
        }""")],
 needs="a configuration change on the copy, at the complete level",
 breaks="the error names another reason than the cloning",
 demo=HEAD + """
fn main() {
    let (mut a, _b) = pair();
    let mut c = must(a.try_clone(), "clone");
    match c.change_config(SecureLayerConfig::default()) {
        Err(Error::ForbidChangeConfAfterClone) => (),
        r => fail(&format!("{:?}", r)),
    }
}
"""),
dict(id="c22-too-short-tag", property="C22",
 edits=[("src/encryption/chacha20_poly1305_aead.rs", "    .map_err(Error::FailToDecryptData)?;\n", "    .map_err(|_| Error::from(IncomingMsgErr::InvalidHashOrSig))?;\n")],
 needs="an encrypted message that was altered on its way",
 breaks="the error says that its hash is wrong although it could not even be decrypted",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let mut f = p.user(0, b"x");
    f[20] ^= 1;
    match l.read_bin(&f) {
        Err(Error::FailToDecryptData(_)) => (),
        r => fail(&format!("{:?}", r.map(|v| v.len()))),
    }
}
"""),
dict(id="c16-clone-skips-gap", property="C16",
 edits=[("src/minimal.rs", "                orphan_nonce_list: self.orphan_nonce_list.clone(),", "                orphan_nonce_list: BTreeSet::new(),"),
  ("src/minimal.rs", "                next_nonce_expected: self.next_nonce_expected,\n", "                next_nonce_expected: self\n                    .orphan_nonce_list\n                    .iter()\n                    .next_back()\n                    .map_or(self.next_nonce_expected, |last| last + 1),\n")],
 needs="a clone made while a message is missing, which then arrives on the clone",
 breaks="the late message is refused",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    read(&mut l, &p.user(1, b"x"));
    let mut c = must(l.try_clone(), "clone");
    if datas(read(&mut c, &p.user(0, b"late"))).len() != 1 {
        fail("late message lost");
    }
}
"""),
dict(id="c19-shared-inflate", property="C19",
 edits=[("src/complete.rs", """        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));
        deflate_decoder
            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        deflate_decoder.finish().map_err(Error::ZipError)
""", """        // A decompressor is large, keep the one of the thread
        INFLATE.with(|inflate| {
            let mut inflate = inflate.borrow_mut();
            let mut out = Vec::with_capacity(bin_zip_msg.len() * 5 + 64);
            loop {
                let (read, len) = (inflate.total_in() as usize, out.len());
                let status = inflate
                    .decompress_vec(
                        &bin_zip_msg[read..],
                        &mut out,
                        flate2::FlushDecompress::Finish,
                    )
                    .map_err(|e| Error::ZipError(e.into()))?;
                if let flate2::Status::StreamEnd = status {
                    break;
                }
                if out.len() == len && inflate.total_in() as usize == read && out.capacity() > len {
                    return Err(Error::ZipError(std::io::ErrorKind::UnexpectedEof.into()));
                }
                out.reserve(32_768);
            }
            inflate.reset(false);
            Ok(out)
        })
"""), ("src/complete.rs", "use flate2::write::{DeflateDecoder, DeflateEncoder};", "use flate2::write::DeflateEncoder;"),
  ("src/complete.rs", "impl SecureLayer {\n", "thread_local! {\n    static INFLATE: std::cell::RefCell<flate2::Decompress> =\n        std::cell::RefCell::new(flate2::Decompress::new(false));\n}\n\nimpl SecureLayer {\n")],
 needs="a message that does not decompress on one connection, then any message on another one of the same thread",
 breaks="honest connections of the thread are disturbed",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let (mut a, mut b) = pair();
    let mut z = refp::deflate(&[b'a'; 3_000], 6);
    z.truncate(z.len() / 2);
    let _ = l.read_bin(&refp::user(&p.sess, 0, &z));
    let f = write(&mut a, b"hello");
    match b.read_bin(&f).map(datas) {
        Ok(v) if v == vec![b"hello".to_vec()] => (),
        r => fail(&format!("{:?}", r)),
    }
}
"""),
dict(id="c20-early-acks", property="C20",
 edits=[("src/minimal.rs", "    ack_msg_recv_too_early: Option<Vec<u8>>,", "    ack_msg_recv_too_early: Vec<Vec<u8>>,"),
  ("src/minimal.rs", "            ack_msg_recv_too_early: None,\n            cloned: false,", "            ack_msg_recv_too_early: Vec::new(),\n            cloned: false,"),
  ("src/minimal.rs", "                ack_msg_recv_too_early: None,\n                cloned: true,", "                ack_msg_recv_too_early: Vec::new(),\n                cloned: true,"),
  ("src/minimal.rs", "        if let Some(bin_ack_msg) = self.ack_msg_recv_too_early.take() {\n            self.read(&bin_ack_msg)\n        } else {\n            Ok(None)\n        }",
   "        // The first one that is authentic counts\n        let mut result = Ok(None);\n        for bin_ack_msg in std::mem::replace(&mut self.ack_msg_recv_too_early, Vec::new()) {\n            result = self.read(&bin_ack_msg);\n            if result.is_ok() {\n                break;\n            }\n        }\n        result"),
  ("src/minimal.rs", """                } else if self.ack_msg_recv_too_early.is_none() {
                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    return Ok(None);
                } else {
                    self.status = SecureLayerStatus::Fail;
                    return Err(IncomingMsgErr::UnexpectedAckMsg.into());
                };""", """                } else if !self.ack_msg_recv_too_early.iter().any(|ack| &ack[..] == incoming_data) {
                    self.ack_msg_recv_too_early.push(incoming_data.to_vec());
                    return Ok(None);
                } else {
                    self.status = SecureLayerStatus::Fail;
                    return Err(IncomingMsgErr::UnexpectedAckMsg.into());
                };""")],
 needs="many forged ACK messages ahead of the CONNECT",
 breaks="all of them are kept",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = Peer::of(&connect(&mut l, None), 7, 9);
    let mut kept = 0;
    for i in 0..50u8 {
        let k = refp::SigKey::new([i; 32]);
        if l.read_bin(&refp::ack(&p.epk, &k, &[0; 1_000])).is_ok() {
            kept += 1;
        }
    }
    if kept > 1 {
        fail(&format!("{} ACK messages set aside", kept));
    }
}
"""),
dict(id="c09-number-max", property="C09",
 edits=[("src/minimal.rs", "                // Update orphan_nonce_list\n                if nonce == self.next_nonce_expected {", "                // Update orphan_nonce_list\n                let after = nonce.checked_add(1).expect(\"number\");\n                if after == self.next_nonce_expected + 1 {")],
 needs="a user message with the largest number there is",
 breaks="panic",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let _ = l.read_bin(&p.user(u64::max_value(), b"x"));
    if datas(read(&mut l, &p.user(0, b"x"))).len() != 1 {
        fail("message lost");
    }
}
"""),
dict(id="c13-raw-fallback", property="C13",
 edits=[("src/complete.rs", "        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len()));\n", "        // Tiny messages would only grow\n        if !bin_message.is_empty() && bin_message.len() < 24 {\n            return Ok(bin_message.to_vec());\n        }\n        let buffer = BufWriter::new(Vec::with_capacity(bin_message.len()));\n"),
  ("src/complete.rs", """            .write_all(&bin_zip_msg)
            .map_err(Error::ZipError)?;
        deflate_decoder.finish().map_err(Error::ZipError)
""", """            .write_all(&bin_zip_msg)
            .and_then(|_| deflate_decoder.finish())
            .or_else(|e| {
                // Tiny messages are not compressed
                if bin_zip_msg.len() < 24 {
                    Ok(bin_zip_msg.to_vec())
                } else {
                    Err(Error::ZipError(e))
                }
            })
""")],
 needs="a small payload that is itself a compressed stream",
 breaks="it arrives decompressed",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = pair();
    let d = refp::deflate(b"hello", 6);
    let f = write(&mut a, &d);
    if datas(read(&mut b, &f)) != vec![d] {
        fail("the payload was altered");
    }
}
"""),
dict(id="c04-late-clears", property="C04",
 edits=[("src/minimal.rs", """                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
                        self.next_nonce_expected += 1;
                    }
""", """                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {
                        self.next_nonce_expected += 1;
                    }
                    // What is left after a long sequence is of no use any more
                    if self.next_nonce_expected - nonce > 64 {
                        self.orphan_nonce_list.clear();
                    }
""")],
 needs="a late message that closes a gap in front of more than 64 others, while another gap stays open, and a replay from beyond that one",
 breaks="the replay is delivered",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    for n in 1..100u64 {
        read(&mut l, &p.user(n, b"x"));
    }
    read(&mut l, &p.user(150, b"once"));
    read(&mut l, &p.user(0, b"late"));
    if l.read_bin(&p.user(150, b"once")).is_ok() {
        fail("delivered twice");
    }
}
"""),
dict(id="c11-zlib", property="C11",
 edits=[("src/complete.rs", "use flate2::write::{DeflateDecoder, DeflateEncoder};", "use flate2::write::{ZlibDecoder as DeflateDecoder, ZlibEncoder as DeflateEncoder};")],
 needs="another implementation or release at the other end",
 breaks="compressed contents have another format than version 1 prescribes",
 demo=HEAD + """
fn main() {
    let mut l = layer(1, None);
    let p = negotiated(&mut l);
    let f = write(&mut l, b"hello");
    if p.open(&f) != Some((0, b"hello".to_vec())) {
        fail("message not understood by an independent implementation");
    }
}
"""),
dict(id="c10-reply-key-kept", property="C10",
 edits=[("src/minimal.rs", "                // Verify sig\n                // The reader has already made sure that the signature algorithm is supported,\n                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.\n                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {",
   "                // Prepare our answer\n                if self.peer_epk.is_none() {\n                    self.peer_epk = Some(peer_ephemeral_pk.to_vec());\n                }\n\n                // Verify sig\n                // The reader has already made sure that the signature algorithm is supported,\n                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.\n                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {"),
  ("src/minimal.rs", "                self.peer_epk = Some(peer_ephemeral_pk.to_vec());\n                if let Err(e)", "                if let Err(e)")],
 needs="a forged CONNECT with another ephemeral key, then the genuine one",
 breaks="the ACK answers the forged ephemeral key, the handshake never completes",
 demo=HEAD + """
fn main() {
    let (mut a, mut b) = (layer(1, None), layer(2, None));
    let ca = connect(&mut a, None);
    let cb = connect(&mut b, None);
    let mut forged = cb.clone();
    forged[20] ^= 1;
    if a.read_bin(&forged).is_ok() {
        fail("forged CONNECT accepted");
    }
    read(&mut a, &cb);
    read(&mut b, &ca);
    let f = ack(&mut a, None);
    read(&mut b, &f);
}
"""),
]
