//! C22: an error tells what is wrong. Every case makes exactly one thing wrong.
use crate::ensure;
use crate::model::{low_order, MAX_ORPHANS};
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;
use pkstl::MessageFormat;
use serde::{Serialize, Serializer};
use std::io::{self, BufWriter, Write};

pub static P: Prop = Prop {
    id: "C22",
    f: c22,
    quick: 80_000,
    thorough: 3_000_000,
    rule: "one thing at a time made wrong in a call or message, at every moment of the connection at which nothing else is wrong, at both API levels, on originals and clones, with random keys, data and configurations; the error returned is compared with the one documented for that cause (a set, where several describe it); non-trivial: all; distinct: by cause, moment and level",
    assumptions: &["the correct error of a call or message with several things wrong is not defined, and not asked for"],
    setup_is_bad: false,
    floors: &[("errors-compared", 80_000), ("limit-reached", 20), ("outputs-refused", 1_000)],
    level: "exploration",
};

const CAUSES: u64 = 34;

/// what an error says, without its details: the innermost name pkstl gives it
fn name(f: &Fault) -> String {
    let s = match f {
        Fault::Err(s) => s.as_str(),
        Fault::Panic(_) => return "a panic".into(),
    };
    let mut it = s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|t| !t.is_empty());
    let a = it.next().unwrap_or("");
    if a == "RecvInvalidMsg" { it.next().unwrap_or("") } else { a }.to_string()
}

fn want<T: std::fmt::Debug>(c: &mut Ctx, what: &str, r: R<T>, names: &[&str]) -> CaseR {
    count("errors-compared", 1);
    match r {
        Ok(v) => {
            // not refused at all: no error names what is wrong
            c.nontrivial = false;
            bad("not-refused", format!("{}: accepted: {:?}", what, v))
        }
        Err(f) => {
            let n = name(&f);
            ensure!(names.contains(&n.as_str()), &format!("wrong-error-{}", names[0]), "{}: the error says {} instead of {}", what, f.show(), names.join(" or "));
            Ok(())
        }
    }
}

struct Conn {
    n: Node,
    p: Peer,
    /// next number of the peer
    num: u64,
}
#[derive(Clone, Copy, PartialEq)]
struct Ph {
    wc: bool,
    rc: bool,
    wa: bool,
    ra: bool,
}
/// a connection where exactly these steps are done, in a random legal order
fn at(c: &mut Ctx, l: Lvl, pin: Option<Option<Vec<u8>>>, ph: Ph) -> Result<Conn, Fail> {
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = pin.unwrap_or_else(|| if c.rng.pct(40) { Some(p.key.pk.clone()) } else { None });
    let f = cfg(c);
    let mut n = fl("create", Node::create("L", l, f, &nk, pin))?;
    let mut todo = vec![];
    if ph.wc {
        todo.push(0);
    }
    if ph.rc {
        todo.push(1);
    }
    if ph.wa {
        todo.push(2);
    }
    if ph.ra {
        todo.push(3);
    }
    c.rng.shuffle(&mut todo);
    let mut done = [false; 4];
    while let Some(i) = todo.iter().position(|&t| match t {
        0 | 1 => true,
        2 => done[1],
        _ => done[0] && done[1],
    }) {
        let t = todo.remove(i);
        done[t] = true;
        let d = if c.rng.pct(30) { Some(c.rng.bytes(7)) } else { None };
        match t {
            0 => {
                let f = fl("connect", n.connect(d.as_deref()))?;
                if !p.learn(&f) {
                    return setup("the layer's CONNECT cannot be read");
                }
            }
            1 => {
                fl("recv connect", n.recv(&p.connect(d.as_deref())))?;
            }
            2 => {
                fl("ack", n.ack(d.as_deref()))?;
            }
            _ => {
                fl("recv ack", n.recv(&p.ack(d.as_deref())))?;
            }
        }
    }
    if !todo.is_empty() {
        panic!("harness: impossible moment");
    }
    fp(ph.wc as u64 | (ph.rc as u64) << 1 | (ph.wa as u64) << 2 | (ph.ra as u64) << 3);
    Ok(Conn { n, p, num: 0 })
}
const NEW: Ph = Ph { wc: false, rc: false, wa: false, ra: false };
const DONE: Ph = Ph { wc: true, rc: true, wa: true, ra: true };
fn pick(c: &mut Ctx, f: impl Fn(Ph) -> bool) -> Ph {
    let mut v = vec![];
    for i in 0..16 {
        let ph = Ph { wc: i & 1 > 0, rc: i & 2 > 0, wa: i & 4 > 0, ra: i & 8 > 0 };
        if (!ph.wa || ph.rc) && (!ph.ra || (ph.wc && ph.rc)) && f(ph) {
            v.push(ph);
        }
    }
    *c.rng.pick(&v)
}
/// negotiation over, perhaps after some traffic, perhaps a clone
fn ready(c: &mut Ctx, l: Lvl) -> Result<Conn, Fail> {
    let mut k = at(c, l, None, DONE)?;
    for _ in 0..c.rng.below(4) {
        if c.rng.pct(50) {
            let d = payload(c, 300);
            fl("write", k.n.write(&d))?;
        } else {
            let d = payload(c, 300);
            fl("recv", k.n.recv(&k.p.user(k.num, &d)))?;
            k.num += 1;
        }
        if c.rng.pct(20) {
            k.n = fl("clone", k.n.try_clone())?;
            fp(77);
        }
    }
    Ok(k)
}
fn bitflip(c: &mut Ctx, b: &mut [u8], from: usize, to: usize) {
    let i = c.rng.range(from * 8, to * 8 - 1);
    b[i / 8] ^= 1 << (i % 8);
}
fn data(c: &mut Ctx) -> Option<Vec<u8>> {
    if c.rng.pct(50) { Some(payload(c, 500)) } else { None }
}
/// a message no receiver can decrypt or parse, of one that is there in any case
fn ruin(c: &mut Ctx, n: &mut Node) -> CaseR {
    let mut b = refp::connect(&[9; 32], &sigkey(&mut c.rng), b"");
    b[7] = 2;
    match n.recv(&b) {
        Err(_) => Ok(()),
        Ok(_) => setup("a message of another version was accepted"),
    }
}

struct Never;
impl Serialize for Never {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
struct Full(usize, io::ErrorKind);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(self.1.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c22(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    let k = c.idx % CAUSES;
    let l = lvl(&mut c.rng);
    fp(k << 8 | l as u64);
    count("causes", 1);
    match k {
        0 => {
            // an authentic CONNECT of somebody else
            let other = sigkey(&mut c.rng);
            let ph = if c.rng.pct(50) { NEW } else { Ph { wc: true, ..NEW } };
            let mut x = at(c, l, Some(Some(other.pk)), ph)?;
            let d = data(c);
            want(c, "CONNECT signed by a key that is not the expected one", x.n.recv(&x.p.connect(d.as_deref())), &["UnexpectedRemoteSigPubKey"])
        }
        1 => {
            let ph = if c.rng.pct(50) { NEW } else { Ph { wc: true, ..NEW } };
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            let mut b = x.p.connect(d.as_deref());
            let n = b.len();
            let what = match c.rng.below(3) {
                0 => {
                    near_miss(&mut c.rng, &mut b[n - 64..]);
                    "CONNECT whose signature is damaged"
                }
                1 => {
                    bitflip(c, &mut b, 18, 50);
                    "CONNECT whose ephemeral key is damaged"
                }
                _ => {
                    let s = sigkey(&mut c.rng).sign(&b[..n - 64]);
                    b[n - 64..].copy_from_slice(&s);
                    "CONNECT signed by another key than the one it reports"
                }
            };
            want(c, what, x.n.recv(&b), &["InvalidHashOrSig"])
        }
        2 => {
            let wa = c.rng.pct(50);
            let mut x = at(c, l, None, Ph { wc: true, rc: true, wa, ra: false })?;
            let d = Some(payload(c, 300));
            let mut b = x.p.ack(d.as_deref());
            let n = b.len();
            match c.rng.below(3) {
                0 => near_miss(&mut c.rng, &mut b[n - 64..]),
                1 if n > 50 + 64 => bitflip(c, &mut b, 50, n - 64),
                _ => {
                    let s = sigkey(&mut c.rng).sign(&b[..n - 64]);
                    b[n - 64..].copy_from_slice(&s);
                }
            }
            want(c, "ACK whose signature does not verify", x.n.recv(&b), &["InvalidHashOrSig"])
        }
        3 => {
            let wa = c.rng.pct(50);
            let mut x = at(c, l, None, Ph { wc: true, rc: true, wa, ra: false })?;
            let e = if c.rng.pct(50) {
                ekey(&mut c.rng).pk.to_vec()
            } else {
                let mut e = x.p.remote_epk.clone().expect("epk");
                near_miss(&mut c.rng, &mut e);
                e
            };
            let d = data(c);
            let b = refp::ack(&e, &x.p.key, &wire(l, d.as_deref(), 6));
            want(c, "ACK answering another ephemeral key", x.n.recv(&b), &["InvalidChallenge"])
        }
        4 => {
            // repeated number, also ahead of a gap, also while the ACK is missing, also when there is no more room
            let waiting = c.rng.pct(30);
            let mut x = if waiting { at(c, l, None, Ph { ra: false, ..DONE })? } else { ready(c, l)? };
            let mut sent = vec![];
            let mut num = x.num;
            let full = c.idx / CAUSES % 20 == 3;
            if full {
                num += 1;
                let k = MAX_ORPHANS - c.rng.below(2);
                quiet(true);
                for _ in 0..k {
                    let f = x.p.user(num, b"");
                    fl("recv", x.n.recv(&f))?;
                    sent.push((num, f));
                    num += 1;
                }
                quiet(false);
                fp(78);
                count("brinks", 1);
            }
            let more = if full { 0 } else { c.rng.range(1, 12) };
            for _ in 0..more {
                let d = payload(c, 100);
                let f = x.p.user(num, &d);
                fl("recv", x.n.recv(&f))?;
                sent.push((num, f));
                num += if c.rng.pct(70) { 1 } else { c.rng.range(2, 3_000) as u64 };
            }
            let (m, f) = c.rng.pick(&sent).clone();
            let f = if c.rng.pct(60) { f } else { x.p.user(m, b"something else") };
            want(c, "user message with a number already received", x.n.recv(&f), &["InvalidNonce"])
        }
        5 => {
            let mut x = ready(c, l)?;
            if c.idx / CAUSES % 20 == 3 {
                quiet(true);
                for k in 1..=MAX_ORPHANS as u64 {
                    fl("recv", x.n.recv(&x.p.user(x.num + k, b"")))?;
                }
                quiet(false);
                fp(78);
                count("brinks", 1);
            }
            let d = payload(c, 200);
            let mut b = refp::hashed(&refp::user_body(x.num, &wire(l, Some(&d), 6)));
            let n = b.len();
            let from = if c.rng.pct(50) || n == 58 { n - 32 } else { 26 };
            bitflip(c, &mut b, from, n);
            let f = x.p.sess.as_ref().expect("session").seal(&b);
            want(c, "user message whose hash does not match", x.n.recv(&f), &["InvalidHashOrSig"])
        }
        6 => {
            // one CONNECT is enough
            let ph = pick(c, |p| p.rc);
            let mut x = at(c, l, None, ph)?;
            if c.rng.pct(50) {
                x.p.ek = ekey(&mut c.rng);
            }
            let d = data(c);
            want(c, "a second authentic CONNECT", x.n.recv(&x.p.connect(d.as_deref())), &["UnexpectedConnectMsg"])
        }
        7 => {
            let ph = pick(c, |p| p.ra);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            want(c, "a second authentic ACK", x.n.recv(&x.p.ack(d.as_deref())), &["UnexpectedAckMsg"])
        }
        8 => {
            let ph = pick(c, |p| p.wc && p.rc && !p.wa);
            let mut x = at(c, l, None, ph)?;
            let d = payload(c, 300);
            want(c, "an authentic user message before this layer has written its ACK", x.n.recv(&x.p.user(0, &d)), &["UnexpectedMessage"])
        }
        9 => {
            // anything that looks encrypted, when there is no key yet
            let ph = pick(c, |p| !p.rc);
            let mut x = at(c, l, None, ph)?;
            let n = c.rng.range(4, 200);
            let mut b = c.rng.bytes(n);
            b[0] = 0x10;
            want(c, "an encrypted message before the CONNECT", x.n.recv(&b), &["UnexpectedMessage"])
        }
        10 => {
            let ph = pick(c, |p| p.rc);
            let mut x = at(c, l, None, ph)?;
            let b = if ph.wc && c.rng.pct(70) {
                let d = payload(c, 300);
                let mut b = x.p.user(0, &d);
                let n = b.len();
                match c.rng.below(4) {
                    0 => bitflip(c, &mut b, 4, n),
                    1 => b.truncate(c.rng.range(20, n - 1)),
                    2 => b.extend_from_slice(&c.rng.bytes(5)),
                    _ => {
                        b = refp::user(&ekey(&mut c.rng).agree(&x.p.ek.pk).expect("session"), 0, &d);
                    }
                }
                b
            } else {
                let n = c.rng.range(20, 300);
                c.rng.bytes(n)
            };
            if b[..4] == refp::MAGIC {
                return Ok(());
            }
            want(c, "a message that was not encrypted with the key of the connection", x.n.recv(&b), &["FailToDecryptData"])
        }
        11 => {
            // another version, in clear or encrypted
            let v = loop {
                let v = match c.rng.below(4) {
                    0 => c.rng.below(4) as u32,
                    1 => c.rng.u64() as u32,
                    2 => 1 ^ 1 << c.rng.below(32),
                    _ => {
                        let mut v = [0, 0, 0, 1];
                        near_miss(&mut c.rng, &mut v);
                        u32::from_be_bytes(v)
                    }
                };
                if v != 1 {
                    break v.to_be_bytes();
                }
            };
            let f = if c.rng.pct(50) {
                let ph = pick(c, |p| !p.rc);
                let x = at(c, l, None, ph)?;
                let d = data(c);
                let mut b = refp::connect_body(&x.p.ek.pk, &x.p.key.pk, &wire(l, d.as_deref(), 6));
                b[4..8].copy_from_slice(&v);
                (x.n, refp::signed(&b, &x.p.key))
            } else {
                let x = ready(c, l)?;
                let d = payload(c, 200);
                let mut b = refp::user_body(x.num, &wire(l, Some(&d), 6));
                b[4..8].copy_from_slice(&v);
                (x.n, x.p.sess.as_ref().expect("session").seal(&refp::hashed(&b)))
            };
            let (mut n, f) = f;
            want(c, "a message of another protocol version", n.recv(&f), &["UnsupportedVersion"])
        }
        12 => {
            // also one that has all but one bit of a known one
            let t = loop {
                let t = if c.rng.pct(50) { c.rng.u64() as u16 } else { c.rng.below(3) as u16 ^ 1 << c.rng.below(16) };
                if t > 2 {
                    break t;
                }
            };
            let n = c.rng.range(0, 120);
            let d = c.rng.bytes(n);
            let b = refp::body(t, &d);
            let (mut n, f) = if c.rng.pct(50) {
                let ph = pick(c, |_| true);
                let x = at(c, l, None, ph)?;
                let f = refp::signed(&b, &x.p.key);
                (x.n, f)
            } else {
                let x = ready(c, l)?;
                (x.n, x.p.sess.as_ref().expect("session").seal(&refp::hashed(&b)))
            };
            want(c, "a message of unknown type", n.recv(&f), &["UnknownMessageType"])
        }
        13 => {
            let ph = pick(c, |p| !p.rc);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            let mut b = refp::connect_body(&x.p.ek.pk, &x.p.key.pk, &wire(l, d.as_deref(), 6));
            near_miss(&mut c.rng, &mut b[50..54]);
            want(c, "a CONNECT with another signature algorithm", x.n.recv(&refp::signed(&b, &x.p.key)), &["UnsupportedSigAlgo"])
        }
        14 => {
            // a user message in clear
            let ph = pick(c, |p| p.wa && p.wc);
            let mut x = at(c, l, None, ph)?;
            let d = payload(c, 300);
            let f = refp::hashed(&refp::user_body(0, &wire(l, Some(&d), 6)));
            want(c, "a user message in clear", x.n.recv(&f), &["UnexpectedEncryptionState"])
        }
        15 => {
            // an ACK encrypted
            let ph = pick(c, |p| p.wc && p.rc && !p.ra);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            let f = x.p.ack(d.as_deref());
            let f = x.p.sess.as_ref().expect("session").seal(&f);
            want(c, "an encrypted ACK", x.n.recv(&f), &["UnexpectedEncryptionState"])
        }
        16 => {
            let mut x = ready(c, l)?;
            let d = payload(c, 300);
            let mut b = refp::user_body(x.num, &wire(l, Some(&d), 6));
            near_miss(&mut c.rng, &mut b[0..4]);
            let f = x.p.sess.as_ref().expect("session").seal(&refp::hashed(&b));
            want(c, "an encrypted message with another magic value", x.n.recv(&f), &["InvalidMagicValue"])
        }
        17 => {
            // cut somewhere in what is signed
            let ph = pick(c, |p| !p.rc);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            let mut f = x.p.connect(d.as_deref());
            let n = f.len() - 64;
            f.truncate(c.rng.range(4, n - 1));
            want(c, "a CONNECT cut before the end of its body", x.n.recv(&f), &["MessageTooShort"])
        }
        18 => {
            // the same for what was encrypted
            let mut x = ready(c, l)?;
            let d = payload(c, 300);
            let mut b = refp::user_body(x.num, &wire(l, Some(&d), 6));
            let n = b.len();
            b.truncate(c.rng.range(0, n - 1));
            let f = x.p.sess.as_ref().expect("session").seal(&b);
            want(c, "a user message cut before it was encrypted", x.n.recv(&f), &["MessageTooShort"])
        }
        19 => {
            // beyond the reorder limit
            let deep = c.idx / CAUSES % 50 == 0;
            let mut x = ready(c, if deep { Lvl::Min } else { l })?;
            if deep {
                let base = x.num + 1;
                for i in 0..10_000 {
                    let f = refp::user(x.p.sess.as_ref().expect("session"), base + i, b"");
                    fl("recv ahead of a gap", x.n.recv(&f))?;
                }
                count("limit-reached", 1);
                let r = x.n.recv(&x.p.user(base + 10_000, b"one more"));
                want(c, "one message more than 10,000 ahead of a gap", r, &["TooManyUnorderedMsgs"])
            } else {
                let mut y = x.n.try_clone();
                if let Ok(y) = &mut y {
                    let f = cfg(c);
                    want(c, "change of the configuration of a clone", y.config(f), &["ForbidChangeConfAfterClone"])?;
                }
                let f = cfg(c);
                want(c, "change of the configuration after cloning", x.n.config(f), &["ForbidChangeConfAfterClone"])
            }
        }
        20 => {
            let ph = pick(c, |p| p.wc);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            want(c, "a second CONNECT written", x.n.connect(d.as_deref()), &["ConnectMsgAlreadyWritten"])
        }
        21 => {
            let ph = pick(c, |p| !p.rc || p.wa);
            let mut x = at(c, l, None, ph)?;
            let d = data(c);
            want(c, "an ACK written without a CONNECT to answer", x.n.ack(d.as_deref()), &["ForbidWriteAckMsgNow"])
        }
        22 => {
            let ph = pick(c, |p| p != DONE);
            let mut x = at(c, l, None, ph)?;
            if c.rng.pct(50) {
                want(c, "a clone before the negotiation is over", x.n.try_clone().map(|_| "clone"), &["NegoMustHaveBeenSuccessful", "TryToWriteMsgWhenNegoNotSuccessful"])
            } else {
                let d = payload(c, 300);
                want(c, "a user message written before the negotiation is over", x.n.write(&d), &["NegoMustHaveBeenSuccessful", "TryToWriteMsgWhenNegoNotSuccessful"])
            }
        }
        23 => {
            // after a failure, what would have been allowed before it
            match c.rng.below(3) {
                0 => {
                    let ph = pick(c, |p| !p.wc);
                    let mut x = at(c, l, None, ph)?;
                    ruin(c, &mut x.n)?;
                    want(c, "CONNECT written on a failed connection", x.n.connect(None), &["ConnectionHadFail"])
                }
                1 => {
                    let ph = pick(c, |p| p.rc && !p.wa);
                    let mut x = at(c, l, None, ph)?;
                    ruin(c, &mut x.n)?;
                    want(c, "ACK written on a failed connection", x.n.ack(None), &["ConnectionHadFail"])
                }
                _ => {
                    let mut x = ready(c, l)?;
                    ruin(c, &mut x.n)?;
                    let d = payload(c, 300);
                    want(c, "user message written on a failed connection", x.n.write(&d), &["ConnectionHadFail"])
                }
            }
        }
        24 => match c.rng.below(3) {
            0 => {
                let ph = pick(c, |p| !p.rc);
                let mut x = at(c, l, None, ph)?;
                ruin(c, &mut x.n)?;
                want(c, "authentic CONNECT received on a failed connection", x.n.recv(&x.p.connect(None)), &["ConnectionHadFail"])
            }
            1 => {
                let ph = pick(c, |p| p.rc && p.wc && !p.ra);
                let mut x = at(c, l, None, ph)?;
                ruin(c, &mut x.n)?;
                want(c, "authentic ACK received on a failed connection", x.n.recv(&x.p.ack(None)), &["ConnectionHadFail"])
            }
            _ => {
                let mut x = ready(c, l)?;
                ruin(c, &mut x.n)?;
                let d = payload(c, 300);
                want(c, "authentic user message received on a failed connection", x.n.recv(&x.p.user(x.num, &d)), &["ConnectionHadFail"])
            }
        },
        25 => {
            // custom data or content that is no deflate stream
            let mut junk = vec![0x07u8];
            junk.extend(payload(c, 100));
            if c.rng.pct(40) {
                // or only the beginning of one
                let d = c.rng.bytes(400);
                junk = refp::deflate(&d, 6);
                junk.truncate(c.rng.range(1, 300));
            }
            match c.rng.below(3) {
                0 => {
                    let ph = pick(c, |p| !p.rc);
                    let mut x = at(c, Lvl::Cpl, None, ph)?;
                    let f = refp::connect(&x.p.ek.pk, &x.p.key, &junk);
                    want(c, "CONNECT with custom data that cannot be decompressed", x.n.recv(&f), &["ZipError"])
                }
                1 => {
                    let ph = pick(c, |p| p.wc && p.rc && !p.ra);
                    let mut x = at(c, Lvl::Cpl, None, ph)?;
                    let f = refp::ack(x.p.remote_epk.as_ref().expect("epk"), &x.p.key, &junk);
                    want(c, "ACK with custom data that cannot be decompressed", x.n.recv(&f), &["ZipError"])
                }
                _ => {
                    let mut x = ready(c, Lvl::Cpl)?;
                    let f = refp::user(x.p.sess.as_ref().expect("session"), x.num, &junk);
                    want(c, "user message that cannot be decompressed", x.n.recv(&f), &["ZipError"])
                }
            }
        }
        26 | 27 => {
            // typed: what arrives is of the known format, but not of the type
            let mut x = ready(c, Lvl::Cpl)?;
            if k == 26 {
                let b = [0, 0, 0, c.rng.below(5) as u8, 0xff];
                want(c, "typed message that does not decode to the type asked for", x.n.recv_t::<Vec<String>>(&x.p.user(x.num, &b)), &["SerdeError"])
            } else {
                let b = loop {
                    let b = if c.rng.pct(40) { vec![0, 0, 0, c.rng.u64() as u8] } else { c.rng.bytes(4) };
                    if b[..3] != [0, 0, 0] || b[3] > 4 {
                        break b;
                    }
                };
                let b = [b, payload(c, 50)].concat();
                want(c, "typed message in a format nobody knows", x.n.recv_t::<Vec<String>>(&x.p.user(x.num, &b)), &["UnknownMessageFormat"])
            }
        }
        28 => {
            let mut x = ready(c, Lvl::Cpl)?;
            let n = c.rng.below(4);
            let b = c.rng.bytes(n);
            want(c, "typed message too short to name its format", x.n.recv_t::<u8>(&x.p.user(x.num, &b)), &["MessageTooShort"])
        }
        29 => {
            // a value that cannot be serialized
            let f = *c.rng.pick(&[MessageFormat::Utf8Json, MessageFormat::Cbor, MessageFormat::Bincode]);
            let conf = cfg_with(6, 100, f);
            let ph = *c.rng.pick(&[NEW, Ph { wc: true, rc: true, wa: false, ra: true }, DONE]);
            let mut x = at(c, Lvl::Cpl, None, ph)?;
            fl("config", x.n.config(conf))?;
            if ph == NEW {
                want(c, "CONNECT with a value that cannot be serialized", x.n.connect_t(Some(&Never)), &["SerdeError", "SerializationError"])
            } else if ph == DONE {
                want(c, "user message that cannot be serialized", x.n.write_t(&Never), &["SerdeError", "SerializationError"])
            } else {
                want(c, "ACK with a value that cannot be serialized", x.n.ack_t(Some(&Never)), &["SerdeError", "SerializationError"])
            }
        }
        30 => {
            // a format that has no serializer
            let f = *c.rng.pick(&[MessageFormat::RawBinary, MessageFormat::Utf8PlainText]);
            let mut x = at(c, Lvl::Cpl, None, DONE)?;
            fl("config", x.n.config(cfg_with(6, 100, f)))?;
            want(c, "typed user message in a format without serializer", x.n.write_t(&7u8), &["SerdeError", "SerializationError"])
        }
        31 => {
            // the output refuses
            let kind = *c.rng.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset]);
            let out = ["WriteError", "FailToEncryptData", "BufferFlushError", "WrittenLenError"];
            let room = c.rng.below(60);
            let mut w = BufWriter::with_capacity(*c.rng.pick(&[0usize, 1, 16, 40]), Full(room, kind));
            let d = payload(c, 3_000);
            let r = match c.rng.below(3) {
                0 => at(c, Lvl::Cpl, None, NEW)?.n.connect_to(Some(&d), &mut w),
                1 => at(c, Lvl::Cpl, None, Ph { wc: true, rc: true, wa: false, ra: false })?.n.ack_to(Some(&d), &mut w),
                _ => ready(c, l)?.n.write_to(&d, &mut w),
            };
            if r.is_ok() {
                // still in the buffer
                c.nontrivial = false;
                return Ok(());
            }
            count("outputs-refused", 1);
            want(c, "a message written to an output that fails", r, &out)
        }
        32 => {
            let ph = pick(c, |p| !p.rc);
            let mut x = at(c, l, None, ph)?;
            let e = low_order(c.rng.below(7));
            let d = data(c);
            let f = refp::connect(&e, &x.p.key, &wire(l, d.as_deref(), 6));
            want(c, "an authentic CONNECT with an ephemeral key no agreement is possible with", x.n.recv(&f), &["FailToComputeAgreement"])
        }
        _ => {
            // after a message was refused for a reason of its own, the next one is judged on its own
            let mut x = ready(c, l)?;
            let d = payload(c, 100);
            let mut b = refp::hashed(&refp::user_body(x.num, &wire(l, Some(&d), 6)));
            let n = b.len();
            bitflip(c, &mut b, n - 32, n);
            let s = x.p.sess.clone().expect("session");
            want(c, "user message whose hash does not match", x.n.recv(&s.seal(&b)), &["InvalidHashOrSig"])?;
            let f = x.p.user(x.num, &d);
            fl("the message that was damaged before", x.n.recv(&f))?;
            want(c, "and the same once more", x.n.recv(&f), &["InvalidNonce"])?;
            b[7] = 3;
            want(c, "and one of another version", x.n.recv(&s.seal(&b)), &["UnsupportedVersion"])?;
            let f = x.p.user(x.num + 1, &d);
            want(c, "and an authentic one after this failure", x.n.recv(&f), &["ConnectionHadFail"])
        }
    }
}
