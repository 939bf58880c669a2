//! C15: output is complete or the call reports an error.
use crate::ensure;
use crate::node::*;
use crate::refp::{self, Parsed};
use crate::run::*;
use crate::util::*;
use std::io::{self, BufWriter, Write};

pub static P: Prop = Prop {
    id: "C15",
    f: c15,
    quick: 14_000,
    thorough: 400_000,
    rule: "first, for messages of every kind and small size, an output that fails (error, nothing accepted, would-block, interrupted then error) at every single byte, behind buffered writers of 10 capacities that may already hold data; then larger messages with outputs that accept few bytes, interrupt, or fail at random places; success is compared with the message the independent implementation expects, failure must leave the connection refusing further use; non-trivial: the output misbehaved; distinct: by message, capacity, fault and position",
    assumptions: &["errors that only show when the caller flushes the buffered writer afterwards are the caller's to see"],
    setup_is_bad: false,
    floors: &[("fault-points", 100_000), ("reported-failures", 50_000), ("complete-despite-faults", 20_000), ("refused-after-failed-write", 10_000), ("output-recovered", 20_000)],
    level: "fault_enumeration",
};

#[derive(Clone, Copy, Debug)]
enum Fault {
    Error,
    Zero,
    WouldBlock,
    InterruptThenError,
    /// any kind of error
    Kind(io::ErrorKind),
}
const KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
];

struct Sink {
    out: Vec<u8>,
    /// fails once this many bytes were accepted
    fail_at: usize,
    fault: Fault,
    /// at most this many bytes at a time
    step: usize,
    /// interrupted before every n-th write (0: never)
    intr: usize,
    /// how often it fails before it works again
    times: usize,
    calls: usize,
    interrupted: bool,
    failed: bool,
}
impl Sink {
    fn new(fail_at: usize, fault: Fault, step: usize, intr: usize) -> Sink {
        Sink { out: vec![], fail_at, fault, step, intr, times: usize::MAX, calls: 0, interrupted: false, failed: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 && !self.interrupted {
            self.interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        if self.out.len() >= self.fail_at && self.times > 0 {
            self.failed = true;
            self.times -= 1;
            return match self.fault {
                Fault::Zero => Ok(0),
                Fault::WouldBlock => Err(io::ErrorKind::WouldBlock.into()),
                Fault::Kind(k) => Err(k.into()),
                Fault::Error => Err(io::Error::new(io::ErrorKind::Other, "disk full")),
                Fault::InterruptThenError => {
                    if self.intr == 0 && self.calls % 2 == 0 {
                        Err(io::ErrorKind::Interrupted.into())
                    } else {
                        Err(io::ErrorKind::BrokenPipe.into())
                    }
                }
            };
        }
        let mut n = b.len().min(self.step);
        if self.out.len() < self.fail_at {
            n = n.min(self.fail_at - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    User,
    Connect,
    Ack,
}

/// is `m` the whole message that was asked for, and nothing else?
fn whole(l: Lvl, kind: Kind, n: &Node, p: &Peer, number: u64, d: Option<&[u8]>, m: &[u8]) -> bool {
    let key = n.key.as_ref().expect("key");
    let data_ok = |c: &[u8]| match d {
        None => c.is_empty(),
        Some(d) => match l {
            Lvl::Min => c == d,
            Lvl::Cpl => refp::inflate(c).as_deref() == Some(d),
        },
    };
    match kind {
        Kind::User => {
            let s = p.sess.as_ref().expect("session");
            match s.open(m).and_then(|pt| refp::parse(&pt)) {
                Some(Parsed::User { nonce, data }) => nonce == number && data_ok(&data) && refp::user(s, nonce, &data) == m,
                _ => false,
            }
        }
        Kind::Connect => match refp::parse(m) {
            Some(Parsed::Connect { epk, pk, custom, sig_ok }) => sig_ok && pk == key.pk && data_ok(&custom) && refp::connect(&epk, key, &custom) == m,
            _ => false,
        },
        Kind::Ack => match refp::parse(m) {
            Some(Parsed::Ack { custom, .. }) => data_ok(&custom) && refp::ack(&p.ek.pk, key, &custom) == m,
            _ => false,
        },
    }
}

fn run_to<W: Write>(kind: Kind, n: &mut Node, d: Option<&[u8]>, w: &mut BufWriter<W>) -> R<()> {
    match kind {
        Kind::User => n.write_to(d.unwrap_or(&[]), w),
        Kind::Connect => n.connect_to(d, w),
        Kind::Ack => n.ack_to(d, w),
    }
}

/// one write into a misbehaving output
#[allow(clippy::too_many_arguments)]
fn attempt(c: &mut Ctx, l: Lvl, kind: Kind, n: &mut Node, p: &Peer, number: u64, d: Option<&[u8]>, sink: Sink, cap: usize, prior: usize) -> Result<bool, Fail> {
    let what = format!("{:?} of {:?}B, buffer {} holding {}, output failing at {} ({:?}, {} times), {} bytes at a time, interrupts {}", kind, d.map(|d| d.len()), cap, prior, sink.fail_at, sink.fault, sink.times, sink.step, sink.intr);
    log(|| what.clone());
    let prior_bytes: Vec<u8> = (0..prior).map(|i| 0xA0 ^ i as u8).collect();
    let mut w = BufWriter::with_capacity(cap, sink);
    // what is in the writer already; an output that fails here is not this call's business
    let pre_ok = w.write_all(&prior_bytes).is_ok();
    if !pre_ok && w.get_ref().times < 9 {
        // it failed before the call and may work again now: what is in the writer is anyone's guess
        std::mem::forget(w);
        return Ok(false);
    }
    let r = run_to(kind, n, d, &mut w);
    let mut all = w.get_ref().out.clone();
    all.extend_from_slice(w.buffer());
    let misbehaved = w.get_ref().failed;
    if misbehaved && w.get_ref().times < 9 {
        count("output-recovered", 1);
    }
    std::mem::forget(w);
    count("fault-points", 1);
    let ok = match &r {
        Ok(()) => {
            if pre_ok {
                ensure!(all.len() >= prior && all[..prior] == prior_bytes[..], "earlier-output-damaged", "{}: what was in the writer before is gone or changed", what);
                ensure!(whole(l, kind, n, p, number, d, &all[prior..]), "incomplete-output", "{}: reported success, but the writer and the output behind it hold {} bytes that are not the message", what, all.len() - prior);
            } else {
                return setup("success after the output had failed before the call");
            }
            count("complete-despite-faults", 1);
            true
        }
        Err(f) => {
            ensure!(!f.is_panic(), "panic", "{}: {}", what, f.show());
            ensure!(misbehaved, "needless-error", "{}: {} although the output accepted everything", what, f.show());
            count("reported-failures", 1);
            false
        }
    };
    if !ok && kind == Kind::User {
        // the connection refuses further use
        let k = c.rng.below(4);
        let after = |what2: &str, bad_: bool| -> CaseR {
            ensure!(!bad_, "goes-on-after-failed-write", "{}: failed, yet {} afterwards", what, what2);
            Ok(())
        };
        after("the next user message is written", n.write(b"next").is_ok())?;
        match k {
            0 => after("the layer is cloned", n.try_clone().is_ok())?,
            1 => {
                let r = n.recv(&p.user(77, b"x"));
                after("a user message is delivered", matches!(&r, Ok(v) if !v.is_empty()))?;
            }
            2 => after("an ACK is written", n.ack(None).is_ok())?,
            _ => after("a user message is written into another output", n.write(b"").is_ok())?,
        }
        count("refused-after-failed-write", 1);
    }
    Ok(ok)
}

const CAPS: [usize; 10] = [0, 1, 2, 8, 16, 33, 64, 100, 200, 8192];
const FAULTS: [Fault; 4] = [Fault::Error, Fault::Zero, Fault::WouldBlock, Fault::InterruptThenError];

fn c15(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    // enumeration: kind/level x capacity x fault x size class
    let classes: [(Lvl, Kind); 4] = [(Lvl::Min, Kind::User), (Lvl::Cpl, Kind::User), (Lvl::Cpl, Kind::Connect), (Lvl::Cpl, Kind::Ack)];
    let sizes = [0usize, 1, 30, 70];
    let total = 4 * 10 * 4 * 4;
    fp(c.idx.min(total));
    if c.idx < total {
        let k = c.idx as usize;
        let (l, kind) = classes[k % 4];
        let (cap, fault, len) = (CAPS[k / 4 % 10], FAULTS[k / 40 % 4], sizes[k / 160 % 4]);
        return every_byte(c, l, kind, cap, fault, len);
    }
    // random: larger messages, short writes, interrupts
    let (l, kind) = *c.rng.pick(&classes);
    let d = if kind != Kind::User && c.rng.pct(20) { None } else { Some(payload(c, 60_000)) };
    let dl = d.as_ref().map_or(0, |d| d.len());
    fp(dl as u64 * 8 + kind as u64);
    let conf = cfg(c);
    let cap = if c.rng.pct(70) { *c.rng.pick(&CAPS) } else { size(c, 70_000) };
    let step = *c.rng.pick(&[1usize, 2, 3, 7, 15, 16, 17, 100, 4096, usize::MAX]);
    let step = if dl > 3_000 { step.max(16) } else { step };
    let intr = *c.rng.pick(&[0usize, 0, 1, 2, 3, 10]);
    let fault = if c.rng.pct(50) { *c.rng.pick(&FAULTS) } else { Fault::Kind(*c.rng.pick(&KINDS)) };
    let times = if c.rng.pct(50) { usize::MAX } else { c.rng.range(1, 3) };
    let prior = if c.rng.pct(40) { c.rng.below(50) } else { 0 };
    let fail_at = match c.rng.below(4) {
        0 => usize::MAX,
        1 => prior + dl + c.rng.below(200),
        _ => prior + c.rng.below(dl + 150),
    };
    fp(fail_at as u64);
    let (mut n, p) = stage(c, l, kind, conf)?;
    let mut number = 0;
    if kind == Kind::User {
        for _ in 0..c.rng.below(4) {
            fl("write", n.write(b"before"))?;
            number += 1;
        }
    }
    let mut sink = Sink::new(fail_at, fault, step, intr);
    sink.times = times;
    let ok = attempt(c, l, kind, &mut n, &p, number, d.as_deref(), sink, cap, prior)?;
    if ok && kind == Kind::User {
        // and the one after that, behind the same kind of output
        let s = Sink::new(usize::MAX, fault, step, intr);
        attempt(c, l, kind, &mut n, &p, number + 1, Some(b"after"), s, cap, 0)?;
    }
    Ok(())
}

/// a layer that may write `kind` now
fn stage(c: &mut Ctx, l: Lvl, kind: Kind, conf: pkstl::SecureLayerConfig) -> Result<(Node, Peer), Fail> {
    if kind == Kind::User {
        return with_ref(c, l, conf);
    }
    let p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let mut n = fl("create", Node::create("L", l, conf, &nk, None))?;
    if kind == Kind::Ack {
        fl("recv connect", n.recv(&p.connect(None)))?;
    }
    Ok((n, p))
}

fn every_byte(c: &mut Ctx, l: Lvl, kind: Kind, cap: usize, fault: Fault, len: usize) -> CaseR {
    let data = c.rng.bytes(len);
    let d = if len == 1 && kind != Kind::User { None } else { Some(&data[..]) };
    let conf = cfg_with(1, 8192, pkstl::MessageFormat::RawBinary);
    let prior = if c.idx % 3 == 0 { c.rng.below(20) } else { 0 };
    let step = *c.rng.pick(&[1usize, 5, usize::MAX]);
    // upper bound of the length of the whole message: beyond it nothing fails any more
    let end = prior + 16 + 70 + len + 5 + 64 + 10;
    quiet(true);
    let mut base = if kind == Kind::User { Some(with_ref(c, l, conf)?) } else { None };
    for at in (0..end).flat_map(|at| [2 * at, 2 * at + 1]) {
        // each byte twice: the class's fault, which lasts, and one of any kind that may pass
        let (at, vary) = (at / 2, at % 2 == 1);
        let mut s = Sink::new(at, fault, step, 0);
        if vary {
            s.fault = Fault::Kind(KINDS[(at + c.idx as usize) % KINDS.len()]);
            s.times = [1, 1, 2, usize::MAX][at % 4];
        }
        match &mut base {
            Some((n, p)) => {
                // a clone per fault point: same number, same keys
                let mut k = fl("clone", n.try_clone())?;
                quiet(at + 1 < end && at % 16 != 0);
                attempt(c, l, kind, &mut k, p, 0, d, s, cap, prior)?;
            }
            None => {
                let (mut n, p) = stage(c, l, kind, conf)?;
                attempt(c, l, kind, &mut n, &p, 0, d, s, cap, prior)?;
            }
        }
    }
    quiet(false);
    Ok(())
}
