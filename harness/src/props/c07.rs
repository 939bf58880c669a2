//! C07: allowed exactly when the negotiation says so. C08: a failed connection never comes back.
//! C10: a refused message leaves no trace. All three: reference automaton in lock-step.
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::run::*;
use crate::util::*;
use std::io::{self, BufWriter, Write};

pub static P7: Prop = Prop {
    id: "C07",
    f: c07,
    quick: 110_000,
    thorough: 2_400_000,
    rule: "first every sequence of up to 5 (thorough: 6) steps over write CONNECT / write ACK / write user message / clone / incoming CONNECT / ACK / user message, at both levels, pinned and not, each followed by what the automaton still allows up to the end of the negotiation and traffic; then random longer sequences with collection, configuration, clones and several peers; non-trivial: all; distinct: by sequence and states",
    assumptions: &["at the minimal level the application signs its CONNECT and ACK"],
    setup_is_bad: true,
    floors: &[("accepted", 50_000), ("refused", 20_000), ("failed-connections", 10_000), ("stubborn-calls", 200_000)],
    level: "exploration",
};
pub static P8: Prop = Prop {
    id: "C08",
    f: c08,
    quick: 50_000,
    thorough: 1_000_000,
    rule: "a random legal history (negotiation at any stage, messages set aside, clones) followed by one of the causes of failure and then by every kind of call and authentic message in random order; non-trivial: the connection failed; distinct: by history, cause and follow-ups",
    assumptions: &[],
    setup_is_bad: false,
    floors: &[("refused-after-failure", 60_000), ("failed-with-messages-aside", 100), ("failed-by-output", 200)],
    level: "exploration",
};
pub static P10: Prop = Prop {
    id: "C10",
    f: c10,
    quick: 60_000,
    thorough: 1_200_000,
    rule: "legal histories interleaved with forged, misdirected and replayed messages of every kind at every stage (also before anything authentic, while messages are set aside, and on clones), then the rest of the negotiation and traffic, compared step by step with the automaton that ignores the refused ones; non-trivial: at least one refusal; distinct: by history",
    assumptions: &[],
    setup_is_bad: false,
    floors: &[("refused", 20_000), ("refused-before-connect", 2_000), ("refused-on-clone", 500), ("refused-in-sieges", 1_200_000), ("refused-at-the-brink", 500)],
    level: "exploration",
};

const SIMPLE: usize = 7;
fn simple(k: usize, nonce: &mut u64) -> Op {
    match k {
        0 => Op::Connect(None),
        1 => Op::Ack(None),
        2 => Op::Write(b"hello".to_vec()),
        3 => Op::Clone { keep: false },
        4 => Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None },
        5 => Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: None },
        _ => {
            *nonce += 1;
            Op::InUser { nonce: *nonce - 1, bad_hash: false, data: b"hi".to_vec() }
        }
    }
}

fn c07(c: &mut Ctx) -> CaseR {
    let depth = if c.tier == Tier::Quick { 5u32 } else { 6 };
    let n = (SIMPLE as u64).pow(depth);
    c.nontrivial = true;
    if c.idx < n * 4 {
        let v = c.idx / n;
        let mut k = c.idx % n;
        let l = if v & 1 == 0 { Lvl::Min } else { Lvl::Cpl };
        let pin = if v & 2 == 0 { None } else { Some(0) };
        let mut d = Driver::with_cfg(c, l, pin, true, Default::default())?;
        let mut nonce = 0;
        let mut failed_for = 0;
        for _ in 0..depth {
            let op = simple((k % SIMPLE as u64) as usize, &mut nonce);
            k /= SIMPLE as u64;
            if d.step(c, &op)? == Exp::Skip {
                // not a history that can happen (the peer does not know the layer's key yet)
                c.nontrivial = false;
                return Ok(());
            }
            if d.m.failed {
                failed_for += 1;
                if failed_for >= 2 {
                    break;
                }
            }
        }
        count("enumerated-sequences", 1);
        return d.complete(c, 0, 1);
    }
    // random
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(0) } else { None };
    let auto = c.rng.pct(60);
    let mut d = Driver::new(c, l, pin, auto)?;
    let steps = c.rng.range(6, 40);
    let careful = c.rng.pct(70);
    // in some cases, once, a long series of calls that are refused
    let at = if c.idx % 100 == 57 { c.rng.below(steps) } else { usize::MAX };
    let brink = if c.idx % 500 == 58 { c.rng.below(steps) } else { usize::MAX };
    for i in 0..steps {
        if i >= brink && d.m.orphans.len() < MAX_ORPHANS / 2 && d.m.may_receive() {
            let room = c.rng.below(3);
            d.brink(c, room)?;
        }
        if i == at {
            let n = c.rng.range(100, 2_500);
            flood(c, &mut d, n, false)?;
            if c.idx % 5_000 == 57 {
                stubborn(c, &mut d)?;
            }
        }
        let op = random_op(c, &d);
        if careful {
            // mostly avoid what would fail the connection, to get far
            let mut probe = Driver2(&mut d);
            if probe.would_fail(&op) && c.rng.pct(90) {
                continue;
            }
        }
        d.step(c, &op)?;
        if d.m.failed && c.rng.pct(40) {
            break;
        }
    }
    d.complete(c, 0, 2)
}

/// the same refused things again and again: patience must not run out
fn flood(c: &mut Ctx, d: &mut Driver, n: usize, incoming: bool) -> CaseR {
    quiet(true);
    // a few kinds, or all
    let few: Vec<Op> = (0..3).map(|_| if incoming { refusable(c, d) } else { random_op(c, d) }).collect();
    let mix = c.rng.pct(30);
    let mut k = 0;
    for _ in 0..n {
        let op = if !mix {
            c.rng.pick(&few).clone()
        } else if incoming {
            refusable(c, d)
        } else {
            random_op(c, d)
        };
        let local = !matches!(op, Op::InConnect { .. } | Op::InAck { .. } | Op::InUser { .. } | Op::InGarbage(_));
        if local == incoming || Driver2(d).what(&op) != Exp::Refused {
            continue;
        }
        d.step(c, &op)?;
        k += 1;
    }
    quiet(false);
    count("refused-in-floods", k);
    Ok(())
}

/// one refused call, more often than a counter of two bytes can tell
fn stubborn(c: &mut Ctx, d: &mut Driver) -> CaseR {
    quiet(true);
    for op in [Op::Connect(None), Op::Ack(None), Op::Clone { keep: false }, Op::Config(Default::default())] {
        if Driver2(d).what(&op) != Exp::Refused {
            continue;
        }
        for _ in 0..66_000 {
            d.step(c, &op)?;
        }
        count("stubborn-calls", 66_000);
    }
    quiet(false);
    Ok(())
}

struct Driver2<'a>(&'a mut Driver);
impl<'a> Driver2<'a> {
    /// ask the automaton without committing
    fn would_fail(&mut self, op: &Op) -> bool {
        let save = self.0.m.clone();
        let e = self.0.predict(op);
        self.0.m = save;
        matches!(e, Exp::Fatal)
    }
    fn what(&mut self, op: &Op) -> Exp {
        let save = self.0.m.clone();
        let e = self.0.predict(op);
        self.0.m = save;
        e
    }
}

fn nonce_for(c: &mut Ctx, d: &Driver) -> u64 {
    match c.rng.below(6) {
        0 => d.m.next + c.rng.below(5) as u64,
        1 => d.m.next.saturating_sub(1),
        2 => c.rng.below(6) as u64,
        _ => d.m.next,
    }
}

pub fn random_op(c: &mut Ctx, d: &Driver) -> Op {
    // towards the end of the negotiation with some probability, otherwise anything
    if c.rng.pct(35) && !d.m.done() {
        if !d.m.connect_out && c.rng.pct(50) {
            return Op::Connect(custom(c, 60));
        }
        if !d.m.connect_in && c.rng.pct(50) {
            return Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: custom(c, 60) };
        }
        if d.m.connect_in && !d.m.ack_out && c.rng.pct(50) {
            return Op::Ack(custom(c, 60));
        }
        if d.m.connect_out && !d.m.ack_in {
            return Op::InAck { who: d.m.peer.unwrap_or(0), chal: Chal::Good, sig: Sig::Good, data: custom(c, 60) };
        }
    }
    match c.rng.below(16) {
        0 => Op::Connect(custom(c, 60)),
        1 => Op::Ack(custom(c, 60)),
        2 | 3 => Op::Write(payload(c, 100)),
        4 => Op::Clone { keep: c.rng.pct(40) },
        5 => Op::Config(cfg(c)),
        6 => Op::TakeAck,
        7 => Op::Drain,
        8 => Op::InConnect { who: c.rng.below(2), epk: Epk::Own, sig: Sig::Good, data: custom(c, 60) },
        9 => Op::InAck { who: c.rng.below(2), chal: Chal::Good, sig: Sig::Good, data: custom(c, 60) },
        10..=12 => Op::InUser { nonce: nonce_for(c, d), bad_hash: false, data: tagged(c, 0, 60) },
        13 => refusable(c, d),
        _ => Op::Write(tagged(c, 1, 30)),
    }
}

/// messages that are well formed but not authentic, misdirected or repeated
pub fn refusable(c: &mut Ctx, d: &Driver) -> Op {
    let k = c.rng.below(13);
    refusable_kind(c, d, k)
}
fn refusable_kind(c: &mut Ctx, d: &Driver, kind: usize) -> Op {
    let bit = c.rng.below(100_000);
    let who = d.m.peer.unwrap_or(0);
    let data = custom(c, 40);
    match kind {
        0 => Op::InConnect { who, epk: Epk::Own, sig: Sig::Flip(bit), data },
        1 => Op::InConnect { who, epk: Epk::Own, sig: Sig::BodyFlip(bit), data: Some(c.rng.bytes(20)) },
        2 => Op::InConnect { who: c.rng.below(2), epk: Epk::Own, sig: Sig::Other, data },
        3 => Op::InConnect { who: 1 - who, epk: Epk::Own, sig: Sig::Good, data },
        4 => Op::InConnect { who: c.rng.below(2), epk: Epk::Reflected, sig: Sig::Good, data },
        5 => Op::InAck { who, chal: Chal::Flip(bit), sig: Sig::Good, data },
        6 => Op::InAck { who, chal: Chal::Foreign, sig: Sig::Good, data },
        7 => Op::InAck { who, chal: Chal::Good, sig: Sig::Flip(bit), data },
        8 => Op::InAck { who, chal: Chal::Good, sig: Sig::BodyFlip(bit), data: Some(c.rng.bytes(20)) },
        9 => Op::InAck { who: 1 - who, chal: Chal::Good, sig: Sig::Good, data },
        10 => Op::InAck { who, chal: Chal::Good, sig: Sig::Other, data },
        11 => {
            let nonce = if c.rng.pct(50) { d.m.next + c.rng.below(3) as u64 } else { nonce_for(c, d) };
            Op::InUser { nonce, bad_hash: true, data: tagged(c, 3, 40) }
        }
        _ => {
            let nonce = if d.m.next > 0 { c.rng.u64() % d.m.next } else { d.m.orphans.iter().next().cloned().unwrap_or(0) };
            Op::InUser { nonce, bad_hash: c.rng.pct(20), data: tagged(c, 4, 40) }
        }
    }
}

// ---------------------------------------------------------------------------------------- C08
struct Broken(usize);
impl Write for Broken {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// a legal history that stops at a random stage
fn legal_prefix(c: &mut Ctx, d: &mut Driver) -> CaseR {
    let steps = c.rng.range(0, 22);
    for _ in 0..steps {
        let op = if c.rng.pct(60) && !d.m.done() {
            match c.rng.below(5) {
                0 => Op::Connect(custom(c, 30)),
                1 => Op::Ack(custom(c, 30)),
                2 => Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: custom(c, 30) },
                3 => Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: custom(c, 30) },
                _ => Op::InUser { nonce: nonce_for(c, d), bad_hash: false, data: tagged(c, 0, 30) },
            }
        } else {
            random_op(c, d)
        };
        match Driver2(d).what(&op) {
            Exp::Ok(_) | Exp::Frame => (),
            _ => continue,
        }
        d.step(c, &op)?;
    }
    Ok(())
}

fn c08(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(30) { Some(0) } else { None };
    let auto = c.rng.pct(50);
    let mut d = Driver::new(c, l, pin, auto)?;
    legal_prefix(c, &mut d).or_else(|f| match f {
        Fail::Bad { sig, msg } => setup(format!("{} {}", sig, msg)),
        f => Err(f),
    })?;
    if c.idx % 400 == 11 {
        // beyond the reorder limit
        d.complete(c, 0, 0)?;
        if !d.m.done() || d.m.failed {
            return Ok(());
        }
        quiet(true);
        let s = d.m.next + 1;
        let mut n = s;
        while d.m.orphans.len() < MAX_ORPHANS {
            if d.m.seen(n) {
                n += 1;
                continue;
            }
            let e = d.step(c, &Op::InUser { nonce: n, bad_hash: false, data: vec![] })?;
            ensure!(matches!(e, Exp::Ok(_)), "model", "harness: filling stopped at {}", n);
            n += 1;
        }
        quiet(false);
        d.step(c, &Op::InUser { nonce: n, bad_hash: false, data: vec![] })?;
        ensure!(d.m.failed, "model", "harness: limit not exceeded");
        count("failed-by-limit", 1);
    }
    // messages aside at the moment of failure, on purpose
    if c.rng.pct(30) && !d.m.done() && !d.m.failed && !d.m.ack_in {
        let who = 0;
        for op in [
            Op::Connect(None),
            Op::InConnect { who, epk: Epk::Own, sig: Sig::Good, data: None },
            Op::Ack(None),
        ] {
            if matches!(Driver2(&mut d).what(&op), Exp::Ok(_) | Exp::Frame) {
                d.step(c, &op)?;
            }
        }
        for _ in 0..c.rng.range(1, 3) {
            let op = Op::InUser { nonce: d.m.next, bad_hash: false, data: tagged(c, 0, 20) };
            if matches!(Driver2(&mut d).what(&op), Exp::Ok(_)) {
                d.step(c, &op)?;
            }
        }
    }
    let aside = !d.m.stash.is_empty() || d.m.early.is_some();
    // the cause
    let mut tries = 0;
    while !d.m.failed {
        tries += 1;
        if tries > 40 {
            return Ok(());
        }
        let who = d.m.peer.unwrap_or(0);
        let op = match c.rng.below(10) {
            0 | 1 | 9 => Op::InGarbage(c.rng.below(GARBAGE_KINDS as usize) as u32),
            2 => Op::InConnect { who, epk: Epk::Own, sig: Sig::Good, data: None },
            3 => Op::InAck { who, chal: Chal::Good, sig: Sig::Good, data: None },
            4 => Op::InUser { nonce: d.m.next, bad_hash: false, data: vec![1] },
            5 => Op::Write(b"too early?".to_vec()),
            6 => Op::InConnect { who, epk: Epk::LowOrder(c.rng.below(7)), sig: Sig::Good, data: None },
            7 => Op::InGarbage(8),
            _ => {
                if !d.m.done() {
                    continue;
                }
                // the output fails in the middle of a user message
                let dd = tagged(c, 0, 400);
                let at = c.rng.below(40);
                let mut w = BufWriter::with_capacity(c.rng.below(20), Broken(at));
                let r = d.node.write_to(&dd, &mut w);
                std::mem::forget(w);
                match r {
                    Err(f) if f.is_panic() => return bad("panic", f.show()),
                    Err(_) => {
                        d.m.failed = true;
                        count("failed-by-output", 1);
                        fp(0xfa11);
                    }
                    Ok(()) => {
                        // C15 decides whether success was right here
                        d.m.sent += 1;
                        return Ok(());
                    }
                }
                continue;
            }
        };
        if Driver2(&mut d).what(&op) == Exp::Fatal {
            fp(op.code() ^ 0xdead);
            d.step(c, &op)?;
        }
    }
    c.nontrivial = true;
    if aside {
        count("failed-with-messages-aside", 1);
    }
    // follow-ups: everything
    let who = d.m.peer.unwrap_or(0);
    let mut ops = vec![
        Op::Connect(None),
        Op::Ack(None),
        Op::Write(b"after".to_vec()),
        Op::Clone { keep: false },
        Op::TakeAck,
        Op::Drain,
        Op::Config(cfg(c)),
        Op::InConnect { who, epk: Epk::Own, sig: Sig::Good, data: None },
        Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Good, data: Some(vec![1]) },
        Op::InAck { who, chal: Chal::Good, sig: Sig::Good, data: Some(vec![2]) },
        Op::InUser { nonce: d.m.next, bad_hash: false, data: b"late".to_vec() },
        Op::InUser { nonce: d.m.next + 1, bad_hash: false, data: b"later".to_vec() },
        Op::InUser { nonce: 0, bad_hash: false, data: b"old".to_vec() },
        Op::InConnect { who, epk: Epk::Own, sig: Sig::Flip(3), data: None },
    ];
    c.rng.shuffle(&mut ops);
    for _ in 0..2 {
        for op in &ops {
            d.step(c, op)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C10
/// one message, refused more than 2^17 times: whatever counts refusals, the connection stays usable
fn siege(c: &mut Ctx, k: usize) -> CaseR {
    let (kind, late) = (k % 13, k >= 13);
    // unpinned, an unverified ACK ahead of the CONNECT is set aside, not refused
    let pin = if (kind >= 7 && kind <= 10 && !late) || c.rng.pct(30) { Some(0) } else { None };
    let l = lvl(&mut c.rng);
    let mut d = Driver::new(c, l, pin, true)?;
    d.step(c, &Op::Connect(None))?;
    if late || kind > 10 {
        d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None })?;
        d.step(c, &Op::Ack(None))?;
    }
    if late {
        d.complete(c, 0, 3)?;
    } else if kind > 10 {
        for nonce in 0..3 {
            d.step(c, &Op::InUser { nonce, bad_hash: false, data: vec![1, 2, 3] })?;
        }
    }
    let op = refusable_kind(c, &d, kind);
    let f = match d.frame(&op, &mut c.rng) {
        Some(f) if Driver2(&mut d).what(&op) == Exp::Refused => f,
        _ => return d.complete(c, 0, 2),
    };
    let n = deep(c, 140_000).max(66_000);
    quiet(true);
    for i in 0..n {
        match d.node.recv(&f) {
            Err(x) if !x.is_panic() => (),
            Err(x) => return bad("panic", x.show()),
            Ok(v) => return bad("accepted", format!("{} for the {}th time: {}", brief(&op), i, shorts(&v))),
        }
    }
    quiet(false);
    count("refused-in-sieges", n);
    c.nontrivial = true;
    let who = if d.m.pin.is_some() { 0 } else { c.rng.below(2) };
    d.complete(c, who, 3)
}

/// refused messages while there is room for no more (or hardly any) ahead of a gap
fn refused_at_the_brink(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(0) } else { None };
    let mut d = Driver::new(c, l, pin, true)?;
    d.step(c, &Op::Connect(None))?;
    d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None })?;
    d.step(c, &Op::Ack(None))?;
    let waiting = c.rng.pct(40);
    if !waiting {
        d.complete(c, 0, 3)?;
    }
    let room = c.rng.below(3);
    d.brink(c, room)?;
    let mut n = 0;
    for _ in 0..60 {
        let op = if c.rng.pct(40) {
            let known = d.m.orphans.iter().cloned().nth(c.rng.below(d.m.orphans.len())).unwrap_or(0);
            let last = d.m.orphans.iter().next_back().cloned().unwrap_or(0);
            match c.rng.below(4) {
                0 => Op::InUser { nonce: d.m.next, bad_hash: true, data: vec![1] },
                1 => Op::InUser { nonce: last + 1 + c.rng.below(9) as u64, bad_hash: true, data: vec![1] },
                _ => Op::InUser { nonce: known, bad_hash: c.rng.pct(30), data: vec![1] },
            }
        } else {
            refusable(c, &d)
        };
        if Driver2(&mut d).what(&op) == Exp::Refused {
            d.step(c, &op)?;
            n += 1;
        }
    }
    count("refused-at-the-brink", n);
    // there is room for exactly as many as before, and the late ones are welcome
    d.complete(c, 0, 0)?;
    quiet(true);
    let mut n = d.m.orphans.iter().next_back().cloned().unwrap_or(0);
    while d.m.orphans.len() < MAX_ORPHANS && !d.m.failed {
        n += 1;
        d.step(c, &Op::InUser { nonce: n, bad_hash: false, data: vec![] })?;
    }
    for _ in 0..40 {
        let nonce = d.m.next;
        d.step(c, &Op::InUser { nonce, bad_hash: false, data: vec![7] })?;
    }
    quiet(false);
    c.nontrivial = true;
    d.complete(c, 0, 3)
}

fn c10(c: &mut Ctx) -> CaseR {
    if c.idx >= 10 && c.idx < 36 {
        return siege(c, c.idx as usize - 10);
    }
    if c.idx >= 36 && (c.idx < 76 || c.idx % 1_000 == 36) {
        return refused_at_the_brink(c);
    }
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(0) } else { None };
    let auto = c.rng.pct(60);
    let mut d = Driver::new(c, l, pin, auto)?;
    let mut n = 0;
    let steps = c.rng.range(2, 26);
    let early_bias = c.rng.pct(50);
    let at = match c.idx {
        7 => 0,
        8 => 24,
        k if k % 150 == 9 => c.rng.below(steps),
        _ => usize::MAX,
    };
    for i in 0..steps.max(if c.idx == 8 { 25 } else { 0 }) {
        if i == at {
            let k = if c.idx < 9 { deep(c, 70_000) as usize } else { c.rng.range(100, 1_800) };
            flood(c, &mut d, k, true)?;
        }
        let op = if c.rng.pct(if i == 0 && early_bias { 95 } else { 50 }) {
            refusable(c, &d)
        } else {
            random_op(c, &d)
        };
        match Driver2(&mut d).what(&op) {
            Exp::Ok(_) | Exp::Frame | Exp::Refused => (),
            _ => continue,
        }
        let before = d.m.connect_in;
        let clone = d.m.is_clone;
        let incoming = matches!(op, Op::InConnect { .. } | Op::InAck { .. } | Op::InUser { .. });
        if d.step(c, &op)? == Exp::Refused && incoming {
            n += 1;
            if !before {
                count("refused-before-connect", 1);
            }
            if clone {
                count("refused-on-clone", 1);
            }
        }
    }
    c.nontrivial = n > 0;
    // the rest of the connection goes exactly as if nothing had happened; half of the time with
    // another peer than the one that was forged
    let who = if d.m.pin.is_some() { 0 } else { c.rng.below(2) };
    d.complete(c, who, 2)?;
    // numbers used by refused messages are still good
    for _ in 0..3 {
        let op = refusable(c, &d);
        if Driver2(&mut d).what(&op) == Exp::Refused {
            d.step(c, &op)?;
        }
        let nonce = d.m.next;
        let data = tagged(c, 5, 20);
        d.step(c, &Op::InUser { nonce, bad_hash: false, data })?;
    }
    let o = Op::Write(tagged(c, 6, 20));
    d.step(c, &o)?;
    d.check_out()
}
