//! C20: refused and repeated messages do not make a layer grow, and dropping a layer releases all.
use crate::alloc::live;
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;

pub static P: Prop = Prop {
    id: "C20",
    f: c20,
    quick: 3_600,
    thorough: 90_000,
    rule: "live heap bytes of the thread are read around long streams fed to a layer in a fixed state (first one round, to let lazily sized containers settle, then N more): refused CONNECTs and ACKs of every kind, replays, bad hashes, malformed bytes into a failed layer, duplicates of early messages, legal traffic in both directions, and values of every format, sent and received, that do and do not serialize or decode; growth must stay under a bound that does not depend on N; at the limit of out-of-order numbers and of messages set aside it must be proportional to those; finally everything is dropped and the balance must be zero; non-trivial: all; distinct: by state, stream and N",
    assumptions: &["memory is what goes through the global allocator on the driving thread"],
    setup_is_bad: false,
    floors: &[("fed", 400_000), ("states", 1_500), ("balances", 300), ("varieties", 50), ("orphan-limits", 20), ("typed", 200_000)],
    level: "exploration",
};

/// growth tolerated for N more messages, whatever N
const SLACK: i64 = 4_096;
/// what the container of out-of-order numbers may hold whatever it contains (its limit is 10,000)
const TABLE: i64 = 32 * MAX_ORPHANS as i64;

fn c20(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    // lazily initialised state of libraries (CPU features, thread locals) is paid for here
    if c.idx < 64 || c.rng.pct(3) {
        let l = lvl(&mut c.rng);
        let _ = with_ref(c, l, Default::default())?;
    }
    if c.idx % 12 == 6 {
        return typed(c);
    }
    match c.idx % 6 {
        0 => traffic(c),
        1 => orphans(c),
        2 => early(c),
        3 => balance(c),
        _ => refusals(c),
    }
}

/// feed `f` once, then n times; the growth of the second part
fn growth(n: usize, f: &mut dyn FnMut(usize)) -> i64 {
    quiet(true);
    for i in 0..40 {
        f(i);
    }
    let a = live();
    for i in 0..n {
        f(40 + i);
    }
    let b = live();
    quiet(false);
    count("fed", n as u64);
    b - a
}

fn refusals(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(0) } else { None };
    let mut d = Driver::new(c, l, pin, c.rng.clone().pct(50))?;
    // some state
    let st = c.rng.below(7);
    if st > 0 {
        d.step(c, &Op::Connect(None))?;
    }
    if st > 1 {
        d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None })?;
    }
    if st > 2 {
        d.step(c, &Op::Ack(None))?;
    }
    if st == 4 {
        for k in 0..5 {
            d.step(c, &Op::InUser { nonce: k * 2, bad_hash: false, data: vec![5; 50] })?;
        }
    }
    if st > 4 {
        d.step(c, &Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: None })?;
        for k in 0..5 {
            d.step(c, &Op::InUser { nonce: k * 2, bad_hash: false, data: vec![5; 50] })?;
        }
    }
    if st == 6 {
        d.step(c, &Op::InGarbage(0))?;
    }
    count("states", 1);
    // one kind of stream the automaton says is refused (or ignored) in this state, every message another one
    let n = *c.rng.pick(&[200usize, 600, 1_200]);
    let mut frames: Vec<Vec<u8>> = vec![];
    let mut kind = 0;
    for _ in 0..12 {
        kind = c.rng.below(9);
        let len = *c.rng.pick(&[0usize, 10, 1_000, 10_000]);
        let distinct = if len > 1_000 { 60 } else { 40 + n };
        for _ in 0..distinct {
            let data = Some(c.rng.bytes(len));
            let op = match kind {
                0 => Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Flip(c.rng.below(512)), data },
                1 => Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Other, data },
                2 if d.m.pin.is_some() || d.m.connect_in => Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Good, data },
                3 => Op::InAck { who: 0, chal: Chal::Flip(c.rng.below(256)), sig: Sig::Good, data },
                4 => Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Flip(c.rng.below(512)), data },
                5 => Op::InAck { who: 1, chal: Chal::Good, sig: Sig::Good, data },
                6 if st >= 4 => Op::InUser { nonce: 2 * c.rng.below(5) as u64, bad_hash: false, data: data.unwrap() },
                7 if st >= 4 => Op::InUser { nonce: d.m.next + 100 + c.rng.below(5_000) as u64, bad_hash: true, data: data.unwrap() },
                8 if st == 6 => Op::InGarbage(c.rng.below(GARBAGE_KINDS as usize) as u32),
                _ => break,
            };
            // the model says refused? (of the ACKs that come before any CONNECT one is kept)
            match d.predict_copy(&op) {
                Exp::Refused | Exp::DeadNothing => (),
                Exp::Ok(v) if v.is_empty() && (3..=5).contains(&kind) => count("early-acks", 1),
                _ => break,
            }
            if let Some(mut f) = d.frame(&op, &mut c.rng) {
                // a challenge or a signature of its own
                match kind {
                    0 | 4 => {
                        let (a, k) = (f.len() - 64, c.rng.bytes(64));
                        f[a..].copy_from_slice(&k);
                    }
                    3 => {
                        let mut e = [0; 32];
                        e.copy_from_slice(&c.rng.bytes(32));
                        let w = f[50..f.len() - 64].to_vec();
                        f = refp::signed(&refp::ack_body(&e, &w), &d.ids[0].key);
                    }
                    1 => {
                        // other keys, nobody's signature
                        let (e, k) = (c.rng.bytes(32), c.rng.bytes(32));
                        f[18..50].copy_from_slice(&e);
                        if d.m.pin.is_none() && !d.m.connect_in && c.rng.pct(50) {
                            f[54..86].copy_from_slice(&k);
                        }
                    }
                    _ => (),
                }
                frames.push(f);
            }
        }
        if !frames.is_empty() {
            break;
        }
    }
    if frames.is_empty() {
        return Ok(());
    }
    fp(st as u64 * 100 + kind as u64 * 1000 + n as u64 + frames[0].len() as u64 * 100_000);
    let mut wrong = None;
    let node = &mut d.node;
    let g = growth(n, &mut |i| {
        let r = node.recv(&frames[i % frames.len()]);
        match r {
            Ok(v) if v.is_empty() => (),
            Ok(v) => wrong = Some(shorts(&v)),
            Err(f) if f.is_panic() => wrong = Some(f.show()),
            Err(_) => (),
        }
    });
    if let Some(w) = wrong {
        return bad("accepted", format!("a refused message was accepted: {}", w));
    }
    ensure!(g <= SLACK, "grows", "state {}, stream {}: {} refused messages of {}B make the layer grow by {} bytes", st, kind, n, frames[0].len(), g);
    // one much larger than all before: nothing of it stays
    if kind != 8 && c.rng.pct(40) {
        let n = c.rng.range(300_000, 900_000);
        let data = Some(c.rng.bytes(n));
        let op = match kind {
            0 => Some(Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Flip(7), data }),
            1 | 2 => Some(Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Other, data }),
            3 => Some(Op::InAck { who: 0, chal: Chal::Flip(7), sig: Sig::Good, data }),
            4 | 5 if d.m.connect_in => Some(Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Flip(7), data }),
            6 | 7 if st >= 4 => Some(Op::InUser { nonce: d.m.next + 1, bad_hash: true, data: data.unwrap() }),
            _ => None,
        };
        if let Some(op) = op.filter(|op| matches!(d.predict_copy(op), Exp::Refused | Exp::DeadNothing)) {
            if let Some(f) = d.frame(&op, &mut c.rng) {
                quiet(true);
                let a = live();
                let r = d.node.recv(&f);
                let g = live() - a;
                drop(r);
                quiet(false);
                count("oversize-refused", 1);
                ensure!(g <= 16 * SLACK, "grows", "state {}: one refused message of {}B makes the layer grow by {} bytes", st, f.len(), g);
            }
        }
    }
    // local calls that are refused
    if st >= 1 {
        let mut k = 0;
        let node = &mut d.node;
        let big = c.rng.bytes(5_000);
        let g = growth(200, &mut |_| {
            let _ = node.connect(Some(&big));
            if st == 0 || st == 1 || st > 2 {
                let _ = node.ack(Some(&big));
            }
            if st < 5 {
                let _ = node.try_clone();
            }
            k += 1;
        });
        ensure!(g <= SLACK, "grows", "state {}: refused local calls make the layer grow by {} bytes", st, g);
    }
    Ok(())
}

fn traffic(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let (mut n, p) = with_ref(c, l, conf)?;
    let k = *c.rng.pick(&[300usize, 600, 1_200]);
    let len = *c.rng.pick(&[0usize, 20, 500]);
    let d = content(c, len);
    let mode = c.rng.below(4);
    fp(k as u64 * 10 + mode as u64 + len as u64 * 100_000 + l as u64);
    count("states", 1);
    let mut err = None;
    let mut num = 0u64;
    let mut swap: Option<u64> = None;
    let g = growth(k, &mut |_| {
        let mut go = || -> R<()> {
            if mode != 1 {
                n.write(&d)?;
            }
            if mode != 0 {
                // pairwise swapped, each repeated
                let i = match swap.take() {
                    Some(x) => x,
                    None if mode == 3 => {
                        swap = Some(num);
                        num += 1;
                        num
                    }
                    None => num,
                };
                if swap.is_some() || mode != 3 {
                    num += 1;
                }
                let f = p.user(i, &d);
                n.recv(&f)?;
                let _ = n.recv(&f);
            }
            if mode == 2 {
                let x = n.try_clone()?;
                drop(x);
            }
            Ok(())
        };
        if let Err(f) = go() {
            err = Some(f.show());
        }
    });
    if let Some(e) = err {
        return setup(format!("traffic: {}", e));
    }
    ensure!(g <= SLACK, "grows", "{} messages sent and received (mode {}) make the layer grow by {} bytes", k, mode, g);
    if c.rng.pct(20) {
        // one much larger than all before, each way
        let len = c.rng.range(300_000, 900_000);
        let d = c.rng.bytes(len);
        let f = p.user(num + 1, &d);
        quiet(true);
        let a = live();
        let mut r = n.write(&d).map(|x| x.len());
        if r.is_ok() {
            r = n.recv(&f).map(|x| x.len());
        }
        let g = live() - a;
        quiet(false);
        if let Err(f) = r {
            return setup(format!("traffic: {}", f.show()));
        }
        count("oversize-passed", 1);
        ensure!(g <= 16 * SLACK, "grows", "a message of {}B each way makes the layer grow by {} bytes", len, g);
    }
    Ok(())
}

/// values in every format, and messages and values that are none
fn typed(c: &mut Ctx) -> CaseR {
    use crate::props::c11::encoded;
    use pkstl::MessageFormat::*;
    let fs = [Utf8Json, Cbor, Bincode, RawBinary, Utf8PlainText];
    let f = *c.rng.pick(&fs);
    let level = c.rng.below(10) as u32;
    let (mut n, p) = with_ref(c, Lvl::Cpl, cfg_with(level, 0, f))?;
    let kind = c.rng.below(9);
    let k = *c.rng.pick(&[1_500usize, 2_500]);
    let len = *c.rng.pick(&[0usize, 4, 40, 400]);
    fp(kind as u64 * 10 + f as u64 + len as u64 * 1_000 + k as u64 * 1_000_000);
    count("states", 1);
    let enc = *c.rng.pick(&fs[..3]);
    let good: Vec<u16> = (0..len as u16).collect();
    let raw: Vec<u8> = match kind {
        0 => encoded(enc, &good).expect("encode"),
        1 => encoded(enc, &"not a list of numbers").expect("encode"),
        2 => [&encoded(enc, &good).expect("encode")[..], b"]]]"].concat(),
        3 => [&[0, 0, 0, 5 + c.rng.below(200) as u8][..], &c.rng.bytes(len)].concat(),
        4 => [&[1 + c.rng.below(255) as u8, 0, 0, 2][..], b"1"].concat(),
        5 => vec![0; c.rng.below(4)],
        6 => [&[0, 0, 0, c.rng.below(2) as u8][..], &c.rng.bytes(len)].concat(),
        _ => vec![],
    };
    let mut err = None;
    let mut num = 0u64;
    let g = growth(k, &mut |i| {
        if kind < 7 {
            let r = n.recv_t::<Vec<u16>>(&p.user(num, &raw));
            num += 1;
            match (kind, r) {
                (0, Err(f)) => err = Some(f.show()),
                (_, Err(f)) if f.is_panic() => err = Some(f.show()),
                _ => (),
            }
        } else {
            if kind == 8 {
                let _ = n.config(cfg_with(i as u32 % 10, i % 100, fs[i % 5]));
            }
            // (in a format without serializer, or that the format refuses: an error)
            let _ = n.write_t(&good);
            let _ = n.write_t(&std::collections::BTreeMap::<Vec<u8>, u8>::from_iter(std::iter::once((vec![1], 2))));
            let _ = n.connect_t(Some(&good));
            let _ = n.ack_t(Some(&good));
        }
    });
    count("typed", k as u64);
    if let Some(e) = err {
        return setup(format!("typed: {}", e));
    }
    ensure!(g <= SLACK, "grows", "{} values or messages of kind {} in {:?} make the layer grow by {} bytes", k, kind, f, g);
    Ok(())
}

/// numbers received ahead of a gap: memory per number, all of it given back once the gap closes
fn orphans(c: &mut Ctx) -> CaseR {
    let l = if c.idx % 5 == 0 { Lvl::Cpl } else { Lvl::Min };
    let (mut n, p) = with_ref(c, l, cfg_with(0, 0, pkstl::MessageFormat::RawBinary))?;
    let full = c.idx % 60 == 1;
    let many = !full && c.rng.pct(50);
    let k = if full { MAX_ORPHANS } else if many { c.rng.range(50, 500) } else { c.rng.range(50, 1_500) } as u64;
    let len = if full { 0 } else { *c.rng.pick(&[0usize, 100, 3_000]) };
    let d = vec![7u8; len];
    fp(k * 4 + len as u64 * 1_000_000);
    count("states", 1);
    quiet(true);
    let a = live();
    let mut base = 0;
    // ahead of a gap, all of them, then the missing one: what is kept may depend on how many
    // numbers there were at once, neither on the messages nor on how often this has happened
    let rounds = if full { 1 } else { c.rng.below(3) + if many { 16 } else { 2 } };
    let mut settled = 0;
    for round in 0..rounds {
        for i in 1..=k {
            fl("recv", n.recv(&p.user(base + i, &d)))?;
        }
        let b = live();
        ensure!(b - a <= 32 * k as i64 + TABLE + SLACK, "grows", "{} numbers ahead of a gap ({}B messages) take {} bytes", k, len, b - a);
        for i in 1..=k.min(300) {
            ensure!(n.recv(&p.user(base + i, &d)).is_err(), "accepted", "replay of message {} accepted", base + i);
        }
        if full {
            count("orphan-limits", 1);
            if c.rng.pct(50) {
                // one beyond: the connection fails, nothing more is kept
                let e = live();
                for i in 0..600 {
                    let _ = n.recv(&p.user(k + 1 + i, &d));
                }
                ensure!(live() - e <= SLACK, "grows", "messages beyond the limit make the layer grow by {} bytes", live() - e);
                quiet(false);
                return Ok(());
            }
        }
        fl("recv", n.recv(&p.user(base, &d)))?;
        base += k + 1;
        count("fed", k);
        let e = live();
        ensure!(e - a <= TABLE + SLACK, "not-released", "after the gap is closed, {} bytes are still held for {} numbers", e - a, k);
        if round == 0 {
            settled = e;
        } else {
            // (a container may once more have doubled its room for them)
            ensure!(e - settled <= 32 * k as i64 + SLACK, "not-released", "{} gaps of {} numbers opened and closed make the layer grow by {} bytes", round, k, e - settled);
        }
    }
    quiet(false);
    // small gaps, opened and closed many times, leave nothing at all behind
    let (gap, m) = (c.rng.range(1, 12) as u64, c.rng.range(100, 400));
    let mut err = None;
    let g = growth(m, &mut |_| {
        for i in (0..=gap).rev() {
            if let Err(f) = n.recv(&p.user(base + i, &d)) {
                err = Some(f.show());
            }
        }
        base += gap + 1;
    });
    if let Some(e) = err {
        return setup(format!("gap: {}", e));
    }
    ensure!(g <= SLACK, "not-released", "{} gaps of {} numbers opened and closed make the layer grow by {} bytes", m, gap, g);
    Ok(())
}

/// messages set aside: only distinct ones, and given back when collected
fn early(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    p.z = 0;
    let nk = sigkey(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(p.key.pk.clone()) } else { None };
    let pinned = pin.is_some();
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, pin))?;
    let f = fl("connect", n.connect(None))?;
    if !p.learn(&f) {
        return setup("CONNECT unreadable");
    }
    count("states", 1);
    // an ACK before any key is known: one is kept
    if !pinned {
        let a0 = live();
        let data = vec![1u8; 3_000];
        quiet(true);
        fl("early ack", n.recv(&p.ack(Some(&data))))?;
        quiet(false);
        let a1 = live();
        ensure!(a1 - a0 <= 2 * 3_000 + SLACK, "grows", "one ACK set aside takes {} bytes", a1 - a0);
    }
    fl("recv connect", n.recv(&p.connect(None)))?;
    let acked = !pinned;
    if acked && l == Lvl::Min {
        // automatically collected by the harness at the minimal level as well
    }
    if !acked {
        // early user messages: k distinct ones, each many times
        fl("ack", n.ack(None))?;
        let k = c.rng.range(1, 60) as u64;
        let len = *c.rng.pick(&[0usize, 30, 500]);
        let rep = c.rng.range(5, 30);
        fp(k * 1_000_000 + len as u64 * 100 + rep as u64);
        quiet(true);
        let a = live();
        let mut frames: Vec<Vec<u8>> = vec![];
        for i in 0..k {
            frames.push(p.user(i, &vec![i as u8; len]));
        }
        let own = live() - a;
        for f in &frames {
            let _ = n.recv(f);
        }
        let b = live() - own;
        for _ in 0..rep {
            for f in &frames {
                let _ = n.recv(f);
            }
        }
        let b2 = live() - own;
        quiet(false);
        count("fed", k * rep as u64);
        let per = 2 * (len as i64 + 300) + 200;
        ensure!(b - a <= per * k as i64 + SLACK, "grows", "{} messages of {}B set aside take {} bytes", k, len, b - a);
        ensure!(b2 - b <= SLACK, "grows", "{} repetitions of {} messages set aside make the layer grow by {} bytes", rep, k, b2 - b);
        let evs = fl("recv ack", n.recv(&p.ack(None)))?;
        ensure!(delivered(&evs).len() as u64 == k, "aside-lost", "{} set aside, handed out {}", k, shorts(&evs));
        drop(evs);
        drop(frames);
        let e = live();
        ensure!(e - a <= 200 * k as i64 + SLACK, "not-released", "{} bytes are still held after {} messages set aside were handed out", e - a, k);
    } else {
        fp(77);
    }
    Ok(())
}

/// whole connections: nothing is left when everything is dropped
/// the connection ends in the middle of something
fn spoil(c: &mut Ctx, n: &mut Node, p: &Peer, mode: usize) -> CaseR {
    let d = payload(c, 9_000);
    match mode {
        6 | 7 => {
            // the output fails, or panics
            let left = c.rng.below(d.len() + 60);
            let cap = *c.rng.pick(&[0usize, 16, 4_000]);
            let mut w = std::io::BufWriter::with_capacity(cap, Breaks { left, panics: mode == 7 });
            let r = n.write_to(&d, &mut w);
            // what is left in the buffer is not written again
            drop(w.into_parts());
            drop(r);
        }
        _ if n.lvl() == Lvl::Cpl => {
            // values that do not serialize, or not decode
            match c.rng.below(3) {
                0 => drop(n.write_t(&Refuses)),
                1 => {
                    let k = c.rng.below(50);
                    let junk = c.rng.bytes(k);
                    let s = p.sess.as_ref().expect("session");
                    drop(n.recv_t::<Vec<String>>(&s.seal(&refp::body(1_000, &junk))));
                }
                _ => {
                    let s = p.sess.as_ref().expect("session");
                    let k = c.rng.bytes(300);
                    drop(n.recv(&s.seal(&refp::body(1_001, &[&[0x78, 0x9c][..], &k].concat()))));
                }
            }
        }
        _ => {
            let s = p.sess.as_ref().expect("session");
            drop(n.recv(&s.seal(&[0, 0, 0, 9])));
        }
    }
    Ok(())
}
struct Refuses;
impl serde::Serialize for Refuses {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(Some(3))?;
        q.serialize_element("something first")?;
        Err(serde::ser::Error::custom("cannot be serialized"))
    }
}
struct Breaks {
    left: usize,
    panics: bool,
}
impl std::io::Write for Breaks {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            if self.panics {
                std::panic::resume_unwind(Box::new("output of the application"));
            }
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn once(c: &mut Ctx, l: Lvl, mode: usize, steps: usize, seed: u64) -> Result<i64, Fail> {
    let a = live();
    c.rng = crate::rng::Rng::new(seed);
    {
        let mut p = Peer::new(&mut c.rng, l);
        let nk = sigkey(&mut c.rng);
        let conf = cfg(c);
        let mut n = fl("create", Node::create("L", l, conf, &nk, None))?;
        if mode > 0 {
            if mode == 9 {
                // before the end of the negotiation as well
                let f = fl("connect", n.connect(None))?;
                if !p.learn(&f) {
                    return setup("CONNECT unreadable");
                }
                for _ in 0..*c.rng.pick(&[0usize, 1, 1, 3]) {
                    let mut f = p.ack(Some(&payload(c, 3_000)));
                    let k = f.len() - 1 - c.rng.below(64);
                    f[k] ^= 1;
                    drop(n.recv(&f));
                }
                drop(n.recv(&p.connect(Some(&payload(c, 3_000)))));
                if c.rng.pct(50) {
                    drop(n.ack(None));
                    let s = p.sess.clone().expect("session");
                    for i in 0..4 {
                        let mut b = refp::hashed(&refp::user_body(i, &payload(c, 3_000)));
                        let k = b.len() - 1;
                        b[k] ^= c.rng.below(2) as u8;
                        drop(n.recv(&s.seal(&b)));
                    }
                }
                // and then what ends it
                let k = c.rng.below(60_000);
                let x = c.rng.bytes(k);
                drop(n.recv(&x));
                for _ in 0..3 {
                    let k = c.rng.below(60_000);
                    let x = c.rng.bytes(k);
                    drop(n.recv(&x));
                    drop(n.write(&x));
                }
            } else if mode == 4 {
                // an early ACK, uncollected
                let f = fl("connect", n.connect(None))?;
                if !p.learn(&f) {
                    return setup("CONNECT unreadable");
                }
                fl("recv", n.recv(&p.ack(Some(b"early"))))?;
            } else {
                finish_ref(c, &mut n, &mut p)?;
                let mut v = vec![];
                for i in 0..steps as u64 {
                    let d = payload(c, 3_000);
                    fl("write", n.write(&d))?;
                    fl("recv", n.recv(&p.user(2 * i, &d)))?;
                    if i == 3 || i == 10 {
                        v.push(fl("clone", n.try_clone())?);
                    }
                }
                if mode == 2 {
                    let _ = n.recv(&[1, 2, 3]);
                }
                if mode >= 6 {
                    spoil(c, &mut n, &p, mode)?;
                }
                if mode == 3 {
                    let s = p.sess.as_ref().expect("session");
                    let _ = n.recv(&s.seal(&refp::body(9, b"zzz")));
                }
            }
        }
    }
    Ok(live() - a)
}
/// many different connections, one after the other: what they leave behind must not grow with their number
fn variety(c: &mut Ctx, l: Lvl, mode: usize) -> CaseR {
    let base = c.rng.u64();
    let mut grown = vec![];
    for k in 0..8u64 {
        let a = live();
        for i in 0..30u64 {
            let s = base.wrapping_add((k * 30 + i).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            once(c, l, mode, 1 + (s >> 62) as usize, s)?;
        }
        grown.push(live() - a);
        if grown[grown.len() - 1] <= 0 {
            break;
        }
    }
    count("varieties", 1);
    ensure!(grown.len() < 8 || grown.iter().any(|g| *g <= 0), "leak", "eight times thirty different connections (mode {}): each time more is left behind: {:?} bytes", mode, grown);
    Ok(())
}
fn balance(c: &mut Ctx) -> CaseR {
    // the case's own allocations (rng, counters) are settled before
    for k in ["balances", "fed", "states"] {
        count(k, 0);
    }
    let l = lvl(&mut c.rng);
    let mode = c.rng.below(10);
    let seed = c.rng.u64();
    let steps = c.rng.range(1, 25);
    fp(seed);
    quiet(true);
    let first = once(c, l, mode, steps, seed)?;
    let second = once(c, l, mode, steps, seed)?;
    if c.idx / 6 % 6 == 3 {
        variety(c, l, mode)?;
    }
    quiet(false);
    count("balances", 1);
    let _ = first;
    ensure!(second == 0, "leak", "a whole connection (mode {}, {} messages) leaves {} bytes behind", mode, steps, second);
    Ok(())
}
