//! Executable reference automaton of a layer, and a driver that runs it in lock-step with a real one.
use crate::node::*;
use crate::refp::{self, EKey, Sess, SigKey};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use pkstl::SecureLayerConfig;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Epk {
    /// the sender's own ephemeral key
    Own,
    /// the key of the layer under test, reflected
    Reflected,
    /// the k-th point of small order
    LowOrder(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sig {
    Good,
    /// one bit of the signature changed
    Flip(usize),
    /// one bit of the signed custom data / header changed after signing
    BodyFlip(usize),
    /// signed by the other identity
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chal {
    Good,
    Flip(usize),
    /// answers the peer's own key (an ACK reflected / meant for somebody else)
    Foreign,
}

#[derive(Clone, Debug)]
pub enum Op {
    Connect(Option<Vec<u8>>),
    Ack(Option<Vec<u8>>),
    Write(Vec<u8>),
    /// clone and throw the clone away, or continue on it
    Clone { keep: bool },
    Config(SecureLayerConfig),
    TakeAck,
    Drain,
    InConnect { who: usize, epk: Epk, sig: Sig, data: Option<Vec<u8>> },
    InAck { who: usize, chal: Chal, sig: Sig, data: Option<Vec<u8>> },
    InUser { nonce: u64, bad_hash: bool, data: Vec<u8> },
    InGarbage(u32),
}
impl Op {
    pub fn code(&self) -> u64 {
        match self {
            Op::Connect(_) => 1,
            Op::Ack(_) => 2,
            Op::Write(_) => 3,
            Op::Clone { keep } => 4 + u64::from(*keep),
            Op::Config(_) => 6,
            Op::TakeAck => 7,
            Op::Drain => 8,
            Op::InConnect { who, epk, sig, .. } => {
                100 + *who as u64 * 50
                    + match epk {
                        Epk::Own => 0,
                        Epk::Reflected => 10,
                        Epk::LowOrder(_) => 20,
                    }
                    + sigc(sig)
            }
            Op::InAck { who, chal, sig, .. } => {
                300 + *who as u64 * 50
                    + match chal {
                        Chal::Good => 0,
                        Chal::Flip(_) => 10,
                        Chal::Foreign => 20,
                    }
                    + sigc(sig)
            }
            Op::InUser { nonce, bad_hash, .. } => nonce.wrapping_mul(2).wrapping_add(1000 + u64::from(*bad_hash)),
            Op::InGarbage(k) => 500 + u64::from(*k),
        }
    }
}
fn sigc(s: &Sig) -> u64 {
    match s {
        Sig::Good => 0,
        Sig::Flip(_) => 1,
        Sig::BodyFlip(_) => 2,
        Sig::Other => 3,
    }
}

/// What the reference automaton expects.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    /// accepted, these events
    Ok(Vec<Ev>),
    /// a frame is produced (local write)
    Frame,
    /// an error, connection unaffected
    Refused,
    /// an error, and the connection has failed
    Fatal,
    /// connection had failed: an error for local calls
    DeadErr,
    /// connection had failed: an error or nothing
    DeadNothing,
    /// not applicable in this state of the driver (frame cannot be built): skipped
    Skip,
    /// executed; accepted or refused is all the same
    Any,
}

pub const MAX_ORPHANS: usize = 10_000;

pub struct Ident {
    pub key: SigKey,
    pub ek: EKey,
}

#[derive(Clone)]
pub struct Model {
    pub lvl: Lvl,
    pub auto: bool,
    pub failed: bool,
    pub connect_out: bool,
    pub ack_out: bool,
    pub connect_in: bool,
    pub ack_in: bool,
    pub pin: Option<Vec<u8>>,
    pub peer: Option<usize>,
    /// an ACK set aside: who signed it and whether the signature is good, its data as told
    pub early: Option<(usize, bool, Option<Vec<u8>>)>,
    pub stash: Vec<Option<Vec<u8>>>,
    pub next: u64,
    pub orphans: BTreeSet<u64>,
    pub sent: u64,
    pub cloned: bool,
    pub is_clone: bool,
}
impl Model {
    pub fn done(&self) -> bool {
        self.connect_out && self.ack_out && self.connect_in && self.ack_in
    }
    /// user messages are delivered or set aside
    pub fn may_receive(&self) -> bool {
        self.connect_out && self.ack_out && !self.failed && self.orphans.len() < MAX_ORPHANS && (!self.ack_in || self.done())
    }
    fn key_known(&self) -> bool {
        self.pin.is_some() || self.peer.is_some()
    }
    /// number already received?
    pub fn seen(&self, n: u64) -> bool {
        n < self.next || self.orphans.contains(&n)
    }
    fn mark(&mut self, n: u64) -> bool {
        if n == self.next {
            self.next += 1;
            while self.orphans.remove(&self.next) {
                self.next += 1;
            }
            true
        } else if self.orphans.len() >= MAX_ORPHANS {
            false
        } else {
            self.orphans.insert(n);
            true
        }
    }
    pub fn state(&self) -> u64 {
        u64::from(self.failed)
            | u64::from(self.connect_out) << 1
            | u64::from(self.ack_out) << 2
            | u64::from(self.connect_in) << 3
            | u64::from(self.ack_in) << 4
            | u64::from(self.early.is_some()) << 5
            | u64::from(!self.stash.is_empty()) << 6
            | u64::from(self.cloned) << 7
            | u64::from(self.pin.is_some()) << 8
            | u64::from(self.is_clone) << 9
    }
}

pub struct Driver {
    pub node: Node,
    pub m: Model,
    pub ids: Vec<Ident>,
    pub z: u32,
    /// every event the application got so far
    pub got: Vec<Ev>,
    pub owner: SigKey,
    /// frames the layer emitted as user messages
    pub out: Vec<(Vec<u8>, Vec<u8>)>,
    cache: std::cell::RefCell<Option<(usize, Vec<u8>, Sess)>>,
}

/// small-order points of curve25519 (and non-canonical encodings of them)
pub fn low_order(k: usize) -> [u8; 32] {
    let h: [&str; 7] = [
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0100000000000000000000000000000000000000000000000000000000000000",
        "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
        "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ];
    let s = h[k % h.len()];
    let mut a = [0u8; 32];
    for i in 0..32 {
        a[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    a
}

/// messages that no receiver can parse or decrypt, in clear and encrypted
pub fn garbage(kind: u32, r: &mut Rng, sess: Option<&Sess>) -> Option<Vec<u8>> {
    let clear = |b: Vec<u8>| Some(b);
    let enc = |b: Vec<u8>| sess.map(|s| s.seal(&b));
    let k = SigKey::new([3; 32]);
    Some(match kind {
        0 => r.bytes(120),
        1 => {
            let mut b = refp::connect(&[9; 32], &k, b"");
            b[7] = 2;
            clear(b)?
        }
        2 => {
            let mut b = refp::body(7, &[0; 80]);
            b.extend(vec![0; 64]);
            clear(b)?
        }
        3 => {
            let mut b = refp::connect_body(&[9; 32], &k.pk, b"");
            b[53] = 1; // signature algorithm 1
            clear(refp::signed(&b, &k))?
        }
        4 => clear(refp::hashed(&refp::user_body(0, b"in clear")))?,
        5 => enc(refp::hashed(&refp::user_body(0, b"x"))[..].iter().map(|b| b ^ 0x55).collect())?,
        6 => {
            let mut b = refp::user_body(0, b"x");
            b[7] = 9;
            enc(refp::hashed(&b))?
        }
        7 => {
            let mut b = refp::hashed(&refp::user_body(0, b"x"));
            b[17] = 9;
            enc(b)?
        }
        8 => {
            let s = sess?;
            let mut f = s.seal(&refp::hashed(&refp::user_body(0, b"damaged")));
            let i = r.below(f.len() * 8);
            f[i / 8] ^= 1 << (i % 8);
            f
        }
        9 => enc(refp::connect(&[9; 32], &k, b""))?,
        10 => vec![],
        11 => {
            let n = r.range(1, 16);
            let mut b = r.bytes(n);
            b[0] &= 0x7e;
            b
        }
        12 => {
            let n = r.range(17, 90);
            let mut b = r.bytes(n);
            b[0] &= 0x7e;
            b
        }
        13 | 14 => {
            // cut somewhere before the signature
            let n = *r.pick(&[0usize, 1, 40]);
            let d = r.bytes(n);
            let mut b = if kind == 13 { refp::connect(&[9; 32], &k, &d) } else { refp::ack(&[9; 32], &k, &d) };
            let n = r.below(b.len() - 64);
            b.truncate(n);
            clear(b)?
        }
        15 => {
            // cut or extended after encryption
            let mut f = sess?.seal(&refp::hashed(&refp::user_body(0, b"damaged")));
            if r.pct(70) {
                let n = r.below(f.len());
                f.truncate(n);
            } else {
                let n = r.range(1, 40);
                let x = r.bytes(n);
                f.extend_from_slice(&x);
            }
            f
        }
        16 => {
            // cut before encryption
            let n = *r.pick(&[0usize, 1, 40]);
            let d = r.bytes(n);
            let mut b = refp::user_body(0, &d);
            let n = r.below(b.len());
            b.truncate(n);
            enc(b)?
        }
        17 => {
            // a length that does not cover the headers, or more than there is
            let mut b = if r.pct(50) { refp::connect(&[9; 32], &k, b"data") } else { refp::ack(&[9; 32], &k, b"data") };
            let n = b.len() as u64;
            let head = if b[17] == 1 { 70 } else { 34 };
            let v = match r.below(6) {
                0 => 0,
                1 => head - 1,
                2 => r.u64() % head,
                3 => n - 15,
                4 => u64::MAX - r.u64() % 40,
                _ => (n - 15) + (r.u64() >> r.range(2, 60)),
            };
            b[8..16].copy_from_slice(&v.to_be_bytes());
            clear(b)?
        }
        18 => {
            let n = r.below(60);
            let mut b = r.bytes(n);
            if n > 0 {
                b[0] &= 0x7e;
            }
            enc(b)?
        }
        _ => {
            let n = r.range(10_000, 70_000);
            let mut b = r.bytes(n);
            b[0] &= 0x7e;
            b
        }
    })
}
pub const GARBAGE_KINDS: u32 = 20;

impl Driver {
    pub fn new(c: &mut Ctx, l: Lvl, pinned: Option<usize>, auto: bool) -> Result<Driver, Fail> {
        let conf = if c.rng.pct(70) { SecureLayerConfig::default() } else { cfg(c) };
        Driver::with_cfg(c, l, pinned, auto, conf)
    }
    pub fn with_cfg(
        c: &mut Ctx,
        l: Lvl,
        pinned: Option<usize>,
        auto: bool,
        conf: SecureLayerConfig,
    ) -> Result<Driver, Fail> {
        let ids: Vec<Ident> =
            (0..2).map(|i| if i == 0 { Ident { key: rare_sigkey(&mut c.rng), ek: rare_ekey(&mut c.rng) } } else { Ident { key: sigkey(&mut c.rng), ek: ekey(&mut c.rng) } }).collect();
        let owner = sigkey(&mut c.rng);
        let pin = pinned.map(|i| ids[i].key.pk.clone());
        let mut node = fl("create", Node::create("L", l, conf, &owner, pin.clone()))?;
        node.auto = auto;
        fp(if l == Lvl::Min { 11 } else { 12 });
        Ok(Driver {
            node,
            m: Model {
                lvl: l,
                auto: auto || l == Lvl::Cpl,
                failed: false,
                connect_out: false,
                ack_out: false,
                connect_in: false,
                ack_in: false,
                pin,
                peer: None,
                early: None,
                stash: vec![],
                next: 0,
                orphans: BTreeSet::new(),
                sent: 0,
                cloned: false,
                is_clone: false,
            },
            ids,
            z: c.rng.below(10) as u32,
            got: vec![],
            owner,
            out: vec![],
            cache: std::cell::RefCell::new(None),
        })
    }
    pub fn sess(&self) -> Option<Sess> {
        let p = self.m.peer?;
        let e = self.node.epk.as_ref()?;
        let mut cache = self.cache.borrow_mut();
        if let Some((q, f, s)) = &*cache {
            if *q == p && f == e {
                return Some(s.clone());
            }
        }
        let s = self.ids[p].ek.agree(e)?;
        *cache = Some((p, e.clone(), s.clone()));
        Some(s)
    }
    fn told(&self, d: &Option<Vec<u8>>) -> Option<Vec<u8>> {
        told(self.m.lvl, d.as_deref())
    }
    /// build the incoming frame of an operation, if the sender could have it
    pub fn frame(&self, op: &Op, r: &mut Rng) -> Option<Vec<u8>> {
        let l = self.m.lvl;
        let sign = |r: &mut Rng, body: Vec<u8>, who: usize, sig: &Sig| -> Vec<u8> {
            let other = (who + 1) % self.ids.len();
            let mut f = match sig {
                Sig::Other => refp::signed(&body, &self.ids[other].key),
                _ => refp::signed(&body, &self.ids[who].key),
            };
            let n = f.len();
            match sig {
                Sig::Flip(b) => {
                    let b = b % 512;
                    if r.pct(50) {
                        f[n - 64 + b / 8] ^= 1 << (b % 8);
                    } else {
                        crate::util::near_miss(r, &mut f[n - 64..]);
                    }
                }
                Sig::BodyFlip(b) => {
                    // within custom data (which both sides take as is)
                    let room = n - 64 - body_fixed(&body);
                    if room == 0 {
                        f[n - 1] ^= 0x10;
                    } else {
                        let b = b % (room * 8);
                        f[body_fixed(&body) + b / 8] ^= 1 << (b % 8);
                    }
                }
                _ => (),
            }
            f
        };
        match op {
            Op::InConnect { who, epk, sig, data } => {
                let e = match epk {
                    // a forgery may carry any ephemeral key
                    Epk::Own if *sig != Sig::Good && r.pct(50) => r.bytes(32),
                    Epk::Own => self.ids[*who].ek.pk.to_vec(),
                    Epk::Reflected => self.node.epk.clone()?,
                    Epk::LowOrder(k) => low_order(*k).to_vec(),
                };
                let w = wire(l, data.as_deref(), self.z);
                Some(sign(r, refp::connect_body(&e, &self.ids[*who].key.pk, &w), *who, sig))
            }
            Op::InAck { who, chal, sig, data } => {
                let w = wire(l, data.as_deref(), self.z);
                let b = match chal {
                    Chal::Good => refp::ack_body(self.node.epk.as_ref()?, &w),
                    Chal::Foreign => refp::ack_body(&self.ids[*who].ek.pk, &w),
                    Chal::Flip(k) => {
                        let mut b = refp::ack_body(self.node.epk.as_ref()?, &w);
                        let k = k % 256;
                        if r.pct(40) {
                            b[18 + k / 8] ^= 1 << (k % 8);
                        } else {
                            crate::util::near_miss(r, &mut b[18..50]);
                        }
                        b
                    }
                };
                Some(sign(r, b, *who, sig))
            }
            Op::InUser { nonce, bad_hash, data } => {
                let s = self.sess()?;
                let mut b = refp::hashed(&refp::user_body(*nonce, &wire(l, Some(data), self.z)));
                if *bad_hash {
                    let n = b.len();
                    match r.below(8) {
                        0 => b.truncate(n - 1 - r.below(32)),
                        1 => {
                            let k = r.range(1, 40);
                            b.extend(r.bytes(k))
                        }
                        2 => b[n - 32..].copy_from_slice(&[0; 32]),
                        _ => {
                            crate::util::near_miss(r, &mut b[n - 32..]);
                        }
                    }
                }
                Some(s.seal(&b))
            }
            Op::InGarbage(k) => garbage(*k, r, self.sess().as_ref()),
            _ => None,
        }
    }
    /// prediction alone: the model stays as it is
    pub fn predict_copy(&mut self, op: &Op) -> Exp {
        let m = self.m.clone();
        let e = self.predict(op);
        self.m = m;
        e
    }
    /// prediction; changes the model
    pub fn predict(&mut self, op: &Op) -> Exp {
        let lvl = self.m.lvl;
        let dead = self.m.failed;
        match op {
            Op::Connect(_) => {
                if dead {
                    Exp::DeadErr
                } else if self.m.connect_out || self.m.is_clone {
                    Exp::Refused
                } else {
                    self.m.connect_out = true;
                    Exp::Frame
                }
            }
            Op::Ack(_) => {
                if dead {
                    Exp::DeadErr
                } else if self.m.connect_in && !self.m.ack_out && !self.m.is_clone {
                    self.m.ack_out = true;
                    Exp::Frame
                } else {
                    Exp::Refused
                }
            }
            Op::Write(_) => {
                if dead {
                    Exp::DeadErr
                } else if self.m.done() {
                    self.m.sent += 1;
                    Exp::Frame
                } else {
                    self.m.failed = true;
                    Exp::Fatal
                }
            }
            Op::Clone { keep } => {
                if dead {
                    Exp::DeadErr
                } else if self.m.done() {
                    self.m.cloned = true;
                    if *keep {
                        // an ACK set aside and superseded in the meantime is not handed down
                        self.m.early = None;
                        self.m.is_clone = true;
                    }
                    Exp::Ok(vec![])
                } else {
                    Exp::Refused
                }
            }
            Op::Config(_) => {
                if dead {
                    Exp::Any
                } else if self.m.cloned {
                    Exp::Refused
                } else {
                    Exp::Ok(vec![])
                }
            }
            Op::TakeAck => {
                if lvl == Lvl::Cpl {
                    return Exp::Skip;
                }
                if dead {
                    return Exp::DeadNothing;
                }
                self.collect_early()
            }
            Op::Drain => {
                if lvl == Lvl::Cpl {
                    return Exp::Skip;
                }
                if dead {
                    return Exp::DeadNothing;
                }
                if self.m.done() {
                    Exp::Ok(self.m.stash.drain(..).map(|data| Ev::Msg { data }).collect())
                } else {
                    Exp::Ok(vec![])
                }
            }
            Op::InConnect { who, epk, sig, data } => {
                if dead {
                    return Exp::DeadNothing;
                }
                let pk = &self.ids[*who].key.pk;
                let expected = self
                    .m
                    .peer
                    .map(|p| self.ids[p].key.pk.clone())
                    .or_else(|| self.m.pin.clone());
                if expected.map_or(false, |e| e != *pk) {
                    return Exp::Refused;
                }
                if *sig != Sig::Good || *epk == Epk::Reflected && !self.m.connect_in {
                    return Exp::Refused;
                }
                if self.m.connect_in {
                    if *epk == Epk::Reflected {
                        // own key and out of order: both reasons to refuse; the automaton does not
                        // say which comes first
                        return Exp::Skip;
                    }
                    self.m.failed = true;
                    return Exp::Fatal;
                }
                if let Epk::LowOrder(_) = epk {
                    self.m.failed = true;
                    return Exp::Fatal;
                }
                self.m.connect_in = true;
                self.m.peer = Some(*who);
                let mut evs = vec![Ev::Connect { pk: pk.clone(), data: self.told(data) }];
                if self.m.auto && self.m.early.is_some() {
                    match self.collect_early() {
                        Exp::Ok(v) => evs.extend(v),
                        Exp::Refused => (),
                        x => return x,
                    }
                }
                Exp::Ok(evs)
            }
            Op::InAck { who, chal, sig, data } => {
                if dead {
                    return Exp::DeadNothing;
                }
                // an ACK does not name its sender: what counts is who signed it
                let (who, good) = match sig {
                    Sig::Good => (*who, true),
                    Sig::Other => ((*who + 1) % self.ids.len(), true),
                    _ => (*who, false),
                };
                if *chal != Chal::Good {
                    return Exp::Refused;
                }
                if !self.m.key_known() {
                    if self.m.early.is_some() {
                        self.m.failed = true;
                        return Exp::Fatal;
                    }
                    self.m.early = Some((who, good, self.told(data)));
                    return Exp::Ok(vec![]);
                }
                self.ack_arrives(who, good, self.told(data))
            }
            Op::InUser { nonce, bad_hash, data } => {
                if dead {
                    return Exp::DeadNothing;
                }
                let n = *nonce;
                if self.m.seen(n) {
                    return Exp::Refused;
                }
                let hold = self.m.ack_out && self.m.connect_out && !self.m.ack_in;
                if !hold && !self.m.done() {
                    self.m.failed = true;
                    return Exp::Fatal;
                }
                if *bad_hash {
                    return Exp::Refused;
                }
                if !self.m.mark(n) {
                    self.m.failed = true;
                    return Exp::Fatal;
                }
                let d = self.told(&Some(data.clone()));
                if hold {
                    self.m.stash.push(d);
                    Exp::Ok(vec![])
                } else {
                    Exp::Ok(vec![Ev::Msg { data: d }])
                }
            }
            Op::InGarbage(_) => {
                if dead {
                    return Exp::DeadNothing;
                }
                self.m.failed = true;
                Exp::Fatal
            }
        }
    }
    fn collect_early(&mut self) -> Exp {
        if !self.m.key_known() {
            return Exp::Ok(vec![]);
        }
        match self.m.early.take() {
            None => Exp::Ok(vec![]),
            Some((who, good, d)) => self.ack_arrives(who, good, d),
        }
    }
    fn ack_arrives(&mut self, who: usize, good: bool, data: Option<Vec<u8>>) -> Exp {
        let expected = self
            .m
            .peer
            .map(|p| self.ids[p].key.pk.clone())
            .or_else(|| self.m.pin.clone());
        if !good || expected.as_ref() != Some(&self.ids[who].key.pk) {
            return Exp::Refused;
        }
        if !self.m.connect_out || self.m.ack_in {
            self.m.failed = true;
            return Exp::Fatal;
        }
        self.m.ack_in = true;
        let mut evs = vec![Ev::Ack { data }];
        if self.m.auto && self.m.done() {
            evs.extend(self.m.stash.drain(..).map(|data| Ev::Msg { data }));
        }
        Exp::Ok(evs)
    }
    /// run one operation on both, compare; returns what was expected
    pub fn step(&mut self, c: &mut Ctx, op: &Op) -> Result<Exp, Fail> {
        self.step_with(c, op, None)
    }
    /// the same with the bytes that arrive given
    pub fn step_with(&mut self, c: &mut Ctx, op: &Op, given: Option<Vec<u8>>) -> Result<Exp, Fail> {
        let incoming = matches!(
            op,
            Op::InConnect { .. } | Op::InAck { .. } | Op::InUser { .. } | Op::InGarbage(_)
        );
        let frame = if given.is_some() {
            given
        } else if incoming {
            match self.frame(op, &mut c.rng) {
                Some(f) => Some(f),
                None => return Ok(Exp::Skip),
            }
        } else {
            None
        };
        let st = self.m.state();
        let exp = self.predict(op);
        if exp == Exp::Skip {
            return Ok(Exp::Skip);
        }
        log(|| format!("-- {} in state {:#x}, expected {}", brief(op), st, show_exp(&exp)));
        enum Got {
            Frame(Vec<u8>),
            Evs(Vec<Ev>),
        }
        let got: R<Got> = match op {
            Op::Connect(d) => self.node.connect(d.as_deref()).map(Got::Frame),
            Op::Ack(d) => self.node.ack(d.as_deref()).map(Got::Frame),
            Op::Write(d) => self.node.write(d).map(Got::Frame),
            Op::Clone { keep } => self.node.try_clone().map(|n| {
                if *keep {
                    self.node = n;
                }
                Got::Evs(vec![])
            }),
            Op::Config(cf) => self.node.config(*cf).map(|_| Got::Evs(vec![])),
            Op::TakeAck => self.node.take_ack().map(Got::Evs),
            Op::Drain => self.node.drain().map(Got::Evs),
            _ => self.node.recv(frame.as_ref().unwrap()).map(Got::Evs),
        };
        count("operations", 1);
        let oc = match &exp {
            Exp::Ok(v) => 1 + v.len() as u64,
            Exp::Frame => 100,
            Exp::Refused => 101,
            Exp::Fatal => 102,
            Exp::DeadErr => 103,
            Exp::DeadNothing => 104,
            Exp::Skip => 105,
            Exp::Any => 106,
        };
        fp(op.code() << 20 ^ st << 8 ^ oc);
        let what = format!("{} in state {:#x}", brief(op), st);
        if let Err(f) = &got {
            if f.is_panic() {
                return bad("panic", format!("{}: {}", what, f.show()));
            }
        }
        match (&exp, got) {
            (Exp::Any, Ok(_)) => (),
            (Exp::Ok(want), Ok(Got::Evs(v))) => {
                if *want != v {
                    return bad(
                        "wrong-delivery",
                        format!("{}: expected {} got {}", what, shorts(want), shorts(&v)),
                    );
                }
                count("accepted", 1);
                self.got.extend(v);
            }
            (Exp::Frame, Ok(Got::Frame(f))) => {
                count("accepted", 1);
                let ok = match op {
                    Op::Connect(d) => self.connect_ok(&f, d.as_deref()),
                    Op::Ack(d) => self.ack_ok(&f, d.as_deref()),
                    _ => true,
                };
                if !ok {
                    return bad("bad-output", format!("{}: what was written is not the message asked for", what));
                }
                if let Op::Write(d) = op {
                    self.out.push((d.clone(), f));
                }
            }
            (Exp::Ok(want), Err(f)) => {
                return bad(
                    "refused-legal",
                    format!("{}: expected {} got {}", what, shorts(want), f.show()),
                )
            }
            (Exp::Frame, Err(f)) => {
                return bad("refused-legal", format!("{}: expected success, got {}", what, f.show()))
            }
            (Exp::Refused, Err(_)) => count("refused", 1),
            (Exp::Fatal, Err(_)) => count("failed-connections", 1),
            (Exp::DeadErr, Err(_)) | (Exp::DeadNothing, Err(_)) => count("refused-after-failure", 1),
            (Exp::DeadNothing, Ok(Got::Evs(v))) => {
                if !v.is_empty() {
                    return bad(
                        "delivery-after-failure",
                        format!("{}: connection had failed, but got {}", what, shorts(&v)),
                    );
                }
                count("refused-after-failure", 1)
            }
            (e, Ok(Got::Evs(v))) => {
                return bad(
                    "accepted-illegal",
                    format!("{}: expected {} got Ok {}", what, show_exp(e), shorts(&v)),
                )
            }
            (e, Ok(Got::Frame(f))) => {
                return bad(
                    "accepted-illegal",
                    format!("{}: expected {} got a {}-byte message", what, show_exp(e), f.len()),
                )
            }
            (Exp::Skip, _) | (Exp::Any, _) => (),
        }
        Ok(exp)
    }
    /// Bring an unfailed layer to the end of the negotiation and exchange messages both ways: every
    /// step must be accepted exactly as the automaton says. Catches state that differs silently.
    pub fn complete(&mut self, c: &mut Ctx, who: usize, msgs: u64) -> CaseR {
        if self.m.failed {
            return Ok(());
        }
        let who = self.m.peer.unwrap_or(who);
        if !self.m.is_clone {
            if !self.m.connect_out {
                let d = custom(c, 50);
                self.step(c, &Op::Connect(d))?;
            }
            if !self.m.connect_in {
                let data = custom(c, 50);
                self.step(c, &Op::InConnect { who, epk: Epk::Own, sig: Sig::Good, data })?;
            }
            if !self.m.auto {
                self.step(c, &Op::TakeAck)?;
            }
            if !self.m.ack_out {
                let d = custom(c, 50);
                self.step(c, &Op::Ack(d))?;
            }
            if !self.m.ack_in {
                let data = custom(c, 50);
                self.step(c, &Op::InAck { who, chal: Chal::Good, sig: Sig::Good, data })?;
            }
            if !self.m.auto {
                self.step(c, &Op::Drain)?;
            }
        }
        for k in 0..msgs {
            let d = tagged(c, k, 40);
            self.step(c, &Op::Write(d))?;
            let nonce = first_free(&self.m, k);
            let data = tagged(c, k, 40);
            self.step(c, &Op::InUser { nonce, bad_hash: false, data })?;
        }
        self.check_out()
    }
    /// messages ahead of a gap, until there is room for `room` more only
    pub fn brink(&mut self, c: &mut Ctx, room: usize) -> CaseR {
        quiet(true);
        let mut n = self.m.next + 1;
        while self.m.orphans.len() < MAX_ORPHANS - room && !self.m.failed {
            if !self.m.seen(n) {
                self.step(c, &Op::InUser { nonce: n, bad_hash: false, data: vec![] })?;
            }
            n += if c.rng.below(500) == 0 { c.rng.range(2, 40) as u64 } else { 1 };
        }
        quiet(false);
        count("brinks", 1);
        Ok(())
    }
    fn data_ok(&self, c: &[u8], d: Option<&[u8]>) -> bool {
        match d {
            None => c.is_empty(),
            Some(d) => match self.m.lvl {
                Lvl::Min => c == d,
                Lvl::Cpl => refp::inflate(c).as_deref() == Some(d),
            },
        }
    }
    fn connect_ok(&self, f: &[u8], d: Option<&[u8]>) -> bool {
        match refp::parse(f) {
            Some(refp::Parsed::Connect { pk, custom, sig_ok, .. }) => sig_ok && pk == self.owner.pk && self.data_ok(&custom, d),
            _ => false,
        }
    }
    /// it answers the ephemeral key of the CONNECT that was accepted
    fn ack_ok(&self, f: &[u8], d: Option<&[u8]>) -> bool {
        let who = match self.m.peer {
            Some(w) => w,
            None => return false,
        };
        match refp::parse(f) {
            Some(refp::Parsed::Ack { custom, .. }) => {
                self.data_ok(&custom, d) && refp::ack(&self.ids[who].ek.pk, &self.owner, &custom) == f
            }
            _ => false,
        }
    }
    /// user messages the layer emitted: readable by the peer, right numbers and data
    pub fn check_out(&self) -> CaseR {
        let s = match self.sess() {
            Some(s) => s,
            None => return Ok(()),
        };
        for (i, (d, f)) in self.out.iter().enumerate() {
            let ok = s.open(f).and_then(|pt| refp::parse(&pt)).map_or(false, |p| match p {
                refp::Parsed::User { nonce, data } => {
                    nonce == i as u64
                        && match self.m.lvl {
                            Lvl::Min => data == *d,
                            Lvl::Cpl => refp::inflate(&data).as_ref() == Some(d),
                        }
                }
                _ => false,
            });
            if !ok {
                return bad(
                    "bad-output",
                    format!("user message {} ({}B) is not readable as message number {} by the peer", i, d.len(), i),
                );
            }
        }
        Ok(())
    }
}
pub fn first_free(m: &Model, _k: u64) -> u64 {
    m.next
}
fn body_fixed(b: &[u8]) -> usize {
    match b[17] {
        1 => 16 + 70,
        2 => 16 + 34,
        _ => 16 + 10,
    }
}
pub fn brief(op: &Op) -> String {
    let d = |d: &Option<Vec<u8>>| d.as_ref().map_or("none".to_string(), |d| format!("{}B", d.len()));
    match op {
        Op::Connect(x) => format!("write CONNECT({})", d(x)),
        Op::Ack(x) => format!("write ACK({})", d(x)),
        Op::Write(x) => format!("write user message({}B)", x.len()),
        Op::Clone { keep } => format!("clone{}", if *keep { " and go on with the clone" } else { "" }),
        Op::Config(_) => "change_config".into(),
        Op::TakeAck => "take early ACK".into(),
        Op::Drain => "drain early user messages".into(),
        Op::InConnect { who, epk, sig, data } => {
            format!("incoming CONNECT of #{} epk={:?} sig={:?} data={}", who, epk, sig, d(data))
        }
        Op::InAck { who, chal, sig, data } => {
            format!("incoming ACK of #{} challenge={:?} sig={:?} data={}", who, chal, sig, d(data))
        }
        Op::InUser { nonce, bad_hash, data } => {
            format!("incoming user message number {} hash={} {}B", nonce, if *bad_hash { "bad" } else { "ok" }, data.len())
        }
        Op::InGarbage(k) => format!("incoming garbage kind {}", k),
    }
}
pub fn show_exp(e: &Exp) -> String {
    match e {
        Exp::Ok(v) => format!("Ok{}", shorts(v)),
        Exp::Frame => "a message".into(),
        Exp::Refused => "an error, connection unaffected".into(),
        Exp::Fatal => "an error that fails the connection".into(),
        Exp::DeadErr => "an error (connection had failed)".into(),
        Exp::DeadNothing => "an error or nothing (connection had failed)".into(),
        Exp::Skip => "-".into(),
        Exp::Any => "anything".into(),
    }
}
