//! C16: a cloned layer split into sender and receiver behaves like the original.
//! C17: user messages are numbered consecutively.
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;
use std::collections::{BTreeSet, VecDeque};
use std::sync::mpsc;

pub static P16: Prop = Prop {
    id: "C16",
    f: c16,
    quick: 40_000,
    thorough: 1_200_000,
    rule: "a layer with a history (messages sent, received out of order, set aside and not yet collected) is cloned, and the copies cloned again at random moments; one copy sends, one receives (replays, gaps, duplicates, messages from before the split), the others are dropped, made to fail, fed with garbage; results are compared with what one layer would do, as judged by the independent peer; also two real layers, each split over two threads; non-trivial: all; distinct: by history of roles and numbers",
    assumptions: &["the application uses one copy for sending and one for receiving, as documented"],
    setup_is_bad: true,
    floors: &[("sent-by-clone", 20_000), ("received-by-clone", 20_000), ("replays-refused", 10_000), ("reclones", 3_000), ("copies-failed", 1_000), ("threads-split", 200), ("generations", 2_000)],
    level: "exploration",
};
pub static P17: Prop = Prop {
    id: "C17",
    f: c17,
    quick: 50_000,
    thorough: 1_500_000,
    rule: "user messages of a layer (empty to huge, binary and typed) interleaved with every other operation: incoming user messages, replays, forgeries, refused calls, unserializable values, configuration changes, cloning and going on with either copy; the independent peer decrypts each and reads its number; a few sessions cross 2^16 messages; non-trivial: all; distinct: by operations",
    assumptions: &[],
    setup_is_bad: true,
    floors: &[("numbers-read", 100_000), ("between", 60_000), ("sessions-beyond-65536", 1)],
    level: "exploration",
};

// ------------------------------------------------------------------ C16
struct Split {
    copies: Vec<Node>,
    s: usize,
    r: usize,
}

fn c16(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    match c.idx % 8 {
        3 if c.idx % 4_000 == 1_203 => lineage(c),
        0 => threads(c),
        1 | 2 => states(c),
        _ => split(c),
    }
}

/// refused on every copy, without harm
fn no_renegotiation(c: &mut Ctx, n: &mut Node) -> CaseR {
    match c.rng.below(3) {
        0 => ensure!(n.connect(None).is_err(), "clone-negotiates", "a copy writes a CONNECT"),
        1 => ensure!(n.ack(None).is_err(), "clone-negotiates", "a copy writes an ACK"),
        _ => {
            let f = cfg(c);
            ensure!(n.config(f).is_err(), "config-after-clone", "the configuration of a copy was changed after cloning");
        }
    }
    ensure!(!n.dead, "panic", "a copy panicked");
    Ok(())
}

fn split(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    // the peer's first messages may overtake its ACK, and still be there uncollected at the split
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, conf, &nk, pin))?;
    let mut sent_by_peer: Vec<Vec<u8>> = vec![];
    let mut arrived: BTreeSet<u64> = BTreeSet::new();
    let mut pending: Vec<Vec<u8>> = vec![];
    let aside = c.rng.pct(35);
    if aside {
        n.auto = false;
        let f = fl("connect", n.connect(None))?;
        if !p.learn(&f) {
            return setup("CONNECT unreadable");
        }
        fl("recv connect", n.recv(&p.connect(None)))?;
        fl("ack", n.ack(None))?;
        for i in 0..c.rng.range(1, 5) as u64 {
            let d = tagged(c, i, 60);
            let r = fl("early", n.recv(&p.user(i, &d)))?;
            ensure!(r.is_empty(), "early-delivery", "an early message was delivered at once");
            arrived.insert(i);
            sent_by_peer.push(d.clone());
            pending.push(d);
        }
        let evs = fl("recv ack", n.recv(&p.ack(None)))?;
        // the complete level collects by itself
        if l == Lvl::Cpl {
            let got = delivered(&evs);
            ensure!(got.len() == pending.len(), "aside-lost", "{} messages set aside, {} handed out", pending.len(), got.len());
            pending.clear();
        }
    } else {
        finish_ref(c, &mut n, &mut p)?;
    }
    let sess = p.sess.clone().expect("session");
    let mut written: u64 = 0;
    let mut z = Split { copies: vec![n], s: 0, r: 0 };
    // history before the split
    for _ in 0..c.rng.below(8) {
        one_write(c, &mut z, &p, &mut written)?;
    }
    for _ in 0..c.rng.below(10) {
        one_read(c, &mut z, l, &p, &mut sent_by_peer, &mut arrived, false)?;
    }
    let before_early = pending.len();
    // split
    let k = fl("clone", z.copies[0].try_clone())?;
    z.copies.push(k);
    if c.rng.pct(50) {
        z.s = 1;
    } else {
        z.r = 1;
    }
    count("splits", 1);
    let mut collected = pending.is_empty();
    if !collected && c.rng.pct(50) {
        collect(&mut z, l, &mut pending)?;
        collected = true;
    }
    fp(l as u64 + 2 * before_early as u64 + 64 * z.s as u64);
    for _ in 0..c.rng.range(8, 60) {
        let k = c.rng.below(20);
        fp(k as u64);
        match k {
            0..=5 => {
                one_write(c, &mut z, &p, &mut written)?;
                count("sent-by-clone", 1);
            }
            6..=12 => {
                one_read(c, &mut z, l, &p, &mut sent_by_peer, &mut arrived, true)?;
                count("received-by-clone", 1);
            }
            13 => {
                // the sender, or the receiver, is cloned again; the application goes on with the copy
                let who = if c.rng.pct(50) { z.s } else { z.r };
                let k = fl("clone of a clone", z.copies[who].try_clone())?;
                z.copies.push(k);
                let new = z.copies.len() - 1;
                if c.rng.pct(70) {
                    if who == z.s {
                        z.s = new;
                    } else {
                        z.r = new;
                    }
                }
                count("reclones", 1);
            }
            14 | 15 => {
                // an idle copy fails or goes away
                let idle: Vec<usize> = (0..z.copies.len()).filter(|i| *i != z.s && *i != z.r).collect();
                if !idle.is_empty() {
                    let i = *c.rng.pick(&idle);
                    if c.rng.pct(50) {
                        let g = c.rng.below(GARBAGE_KINDS as usize) as u32;
                        if let Some(f) = garbage(g, &mut c.rng, Some(&sess)) {
                            ensure!(z.copies[i].recv(&f).is_err(), "garbage-accepted", "garbage kind {} accepted by a copy", g);
                        }
                        count("copies-failed", 1);
                    } else {
                        z.copies.remove(i);
                        if z.s > i {
                            z.s -= 1;
                        }
                        if z.r > i {
                            z.r -= 1;
                        }
                    }
                }
            }
            16 => {
                let i = c.rng.below(z.copies.len());
                no_renegotiation(c, &mut z.copies[i])?;
            }
            17 => {
                // an idle copy is fed with genuine messages the receiver gets as well
                let idle: Vec<usize> = (0..z.copies.len()).filter(|i| *i != z.s && *i != z.r).collect();
                if !idle.is_empty() {
                    let i = *c.rng.pick(&idle);
                    let far = sent_by_peer.len() as u64 + c.rng.below(4) as u64;
                    let _ = z.copies[i].recv(&p.user(far, b"other copy"));
                }
            }
            18 if !collected => {
                collect(&mut z, l, &mut pending)?;
                collected = true;
            }
            _ => {
                // what reaches the sending copy does not matter to the receiving one
                if c.rng.pct(30) && sent_by_peer.len() > 2 {
                    let i = c.rng.below(sent_by_peer.len());
                    let f = p.user(i as u64, &sent_by_peer[i]);
                    let s = z.s;
                    let _ = z.copies[s].recv(&f);
                }
            }
        }
    }
    if !collected {
        collect(&mut z, l, &mut pending)?;
    }
    // everything the peer sent arrives exactly once
    for i in 0..sent_by_peer.len() as u64 {
        if !arrived.contains(&i) {
            deliver(&mut z, l, &p, i, &sent_by_peer[i as usize], true)?;
            arrived.insert(i);
        }
        if c.rng.pct(20) {
            deliver(&mut z, l, &p, i, &sent_by_peer[i as usize], false)?;
        }
    }
    // failure of one of the two leaves the other alone
    let (s, r) = (z.s, z.r);
    if c.rng.pct(50) {
        ensure!(z.copies[r].recv(&c.rng.bytes(100)).is_err(), "garbage-accepted", "random bytes accepted");
        ensure!(z.copies[r].recv(&p.user(sent_by_peer.len() as u64, b"x")).map_or(true, |v| v.is_empty()), "failed-copy-delivers", "a failed copy delivers");
        one_write(c, &mut z, &p, &mut written)?;
    } else {
        let mut w = std::io::BufWriter::with_capacity(0, Broken);
        ensure!(z.copies[s].write_to(b"never", &mut w).is_err(), "broken-output", "success into a broken output");
        std::mem::forget(w);
        ensure!(z.copies[s].write(b"never").is_err(), "failed-copy-writes", "a copy whose output failed goes on writing");
        one_read(c, &mut z, l, &p, &mut sent_by_peer, &mut arrived, true)?;
    }
    count("copies-failed", 1);
    Ok(())
}
struct Broken;
impl std::io::Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn collect(z: &mut Split, l: Lvl, pending: &mut Vec<Vec<u8>>) -> CaseR {
    let r = z.r;
    let evs = fl("drain", z.copies[r].drain())?;
    let got = delivered(&evs);
    let ok = got.len() == pending.len() && got.iter().zip(pending.iter()).all(|(g, w)| same_data(l, g, w));
    ensure!(ok, "aside-lost", "{} messages were set aside before the split, the receiving copy hands out {}", pending.len(), shorts(&evs));
    pending.clear();
    let again = fl("drain", z.copies[r].drain())?;
    ensure!(again.is_empty(), "delivered-twice", "messages set aside are handed out again");
    Ok(())
}

fn one_write(c: &mut Ctx, z: &mut Split, p: &Peer, written: &mut u64) -> CaseR {
    let d = tagged(c, *written, 200);
    let s = z.s;
    let f = match z.copies[s].write(&d) {
        Ok(f) => f,
        Err(f) => return bad("sender-refused", format!("sending copy: message {}: {}", written, f.show())),
    };
    match p.open(&f) {
        Some((n, x)) => ensure!(n == *written && x == d, "sender-wrong", "message {} of {}B came out as number {} with {}B", written, d.len(), n, x.len()),
        None => return bad("sender-wrong", format!("message {} of the sending copy is not readable", written)),
    }
    *written += 1;
    Ok(())
}

fn deliver(z: &mut Split, l: Lvl, p: &Peer, i: u64, d: &[u8], new: bool) -> CaseR {
    let r = z.r;
    let res = z.copies[r].recv(&p.user(i, d));
    if new {
        match res {
            Ok(v) if v.len() == 1 && matches!(&v[0], Ev::Msg { data } if same_data(l, data, d)) => Ok(()),
            Ok(v) => bad("receiver-wrong", format!("message {} came out of the receiving copy as {}", i, shorts(&v))),
            Err(f) => bad("receiver-refused", format!("message {} refused by the receiving copy: {}", i, f.show())),
        }
    } else {
        count("replays-refused", 1);
        match res {
            Err(f) if !f.is_panic() => Ok(()),
            Err(f) => bad("panic", f.show()),
            Ok(v) => bad("delivered-twice", format!("replay of message {}: {}", i, shorts(&v))),
        }
    }
}

fn one_read(c: &mut Ctx, z: &mut Split, l: Lvl, p: &Peer, sent: &mut Vec<Vec<u8>>, arrived: &mut BTreeSet<u64>, replays: bool) -> CaseR {
    if replays && c.rng.pct(30) && !arrived.is_empty() {
        let k = c.rng.below(arrived.len());
        let i = *arrived.iter().nth(k).unwrap();
        return deliver(z, l, p, i, &sent[i as usize].clone(), false);
    }
    // the peer is some messages ahead; any of those not arrived yet comes in
    while sent.len() < arrived.len() + 1 || sent.len() < 60 && c.rng.pct(40) {
        let d = tagged(c, sent.len() as u64, 100);
        sent.push(d);
    }
    let missing: Vec<u64> = (0..sent.len() as u64).filter(|i| !arrived.contains(i)).collect();
    let i = if c.rng.pct(50) { missing[0] } else { *c.rng.pick(&missing) };
    fp(i);
    deliver(z, l, p, i, &sent[i as usize].clone(), true)?;
    arrived.insert(i);
    Ok(())
}

/// cloning is refused before the end of the negotiation and after failure, and harmless then; all
/// copies of a layer know the same peer
fn states(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(0) } else { None };
    let mut d = Driver::new(c, l, pin, true)?;
    let order = c.rng.below(6);
    let steps: Vec<Op> = vec![
        Op::Connect(None),
        Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None },
        Op::Ack(None),
        Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: None },
    ];
    let mut idx = vec![0usize, 1, 2, 3];
    match order {
        0 => idx = vec![1, 0, 2, 3],
        1 => idx = vec![0, 1, 3, 2],
        2 => idx = vec![1, 2, 0, 3],
        _ => (),
    }
    for k in idx {
        if c.rng.pct(60) {
            d.step(c, &Op::Clone { keep: c.rng.clone().pct(50) })?;
        }
        if d.m.is_clone {
            return bad("cloned-too-early", "cloned before the end of the negotiation");
        }
        d.step(c, &steps[k])?;
    }
    if c.idx % 800 == 9 || c.idx % 800 == 10 {
        let room = c.rng.below(3);
        d.brink(c, room)?;
    }
    // chains of clones under the automaton: nothing changes
    for _ in 0..c.rng.range(3, 25) {
        let op = match c.rng.below(10) {
            0 | 1 => Op::Clone { keep: c.rng.pct(70) },
            2 | 3 => Op::Write(tagged(c, 1, 60)),
            4 => Op::InUser { nonce: d.m.next, bad_hash: false, data: tagged(c, 2, 60) },
            5 => Op::InUser { nonce: d.m.next + c.rng.below(6) as u64, bad_hash: false, data: tagged(c, 3, 60) },
            6 => Op::InUser { nonce: c.rng.below(d.m.next as usize + 3) as u64, bad_hash: c.rng.pct(30), data: tagged(c, 4, 60) },
            7 => Op::Config(cfg(c)),
            8 => {
                if c.rng.pct(50) {
                    Op::Connect(None)
                } else {
                    Op::Ack(None)
                }
            }
            _ => match c.rng.below(12) {
                0 => Op::InGarbage(c.rng.below(GARBAGE_KINDS as usize) as u32),
                1 => Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None },
                2 => Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Good, data: None },
                3 => Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Flip(3), data: None },
                4 => Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: None },
                5 => Op::InAck { who: 1, chal: Chal::Good, sig: Sig::Good, data: None },
                6 => Op::InAck { who: 0, chal: Chal::Flip(9), sig: Sig::Good, data: None },
                _ => Op::Write(vec![]),
            },
        };
        d.step(c, &op)?;
    }
    d.check_out()?;
    if !d.m.failed && d.m.done() {
        d.complete(c, 0, 3)?;
    }
    count("driver-chains", 1);
    Ok(())
}

/// a long line of clones, each made from the one before (or all from the first), all of them kept for a while
fn lineage(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let (first, p) = with_ref(c, l, conf)?;
    let n = *c.rng.pick(&[300usize, 700, 1_400]);
    let chain = c.rng.pct(70);
    let keep = if c.rng.pct(50) { n } else { 1 };
    let mut z = Split { copies: vec![first], s: 0, r: 0 };
    let (mut sent, mut arrived, mut written) = (vec![], BTreeSet::new(), 0);
    for i in 0..n {
        let from = if chain { z.copies.len() - 1 } else { 0 };
        let k = match z.copies[from].try_clone() {
            Ok(k) => k,
            Err(f) => return bad("clone-refused", format!("{} of a negotiated layer: {}", if chain { format!("clone of a clone, generation {}", i + 1) } else { format!("clone number {}", i + 1) }, f.show())),
        };
        z.copies.push(k);
        if z.copies.len() > keep + 1 {
            z.copies.remove(if chain { 0 } else { 1 });
        }
        let new = z.copies.len() - 1;
        z.s = if chain { new } else { 0 };
        z.r = new;
        // now and then the newest goes on from where the one before was
        if i % 37 == 11 || i + 3 > n || (i % 256 < 3 && i > 200) {
            one_write(c, &mut z, &p, &mut written)?;
            if chain {
                one_read(c, &mut z, l, &p, &mut sent, &mut arrived, true)?;
            }
        }
    }
    for _ in 0..6 {
        one_write(c, &mut z, &p, &mut written)?;
    }
    // of copies made from the first, each reads on its own
    for _ in 0..6 {
        one_read(c, &mut z, l, &p, &mut sent, &mut arrived, true)?;
    }
    count("generations", n as u64);
    fp(n as u64 + u64::from(chain));
    Ok(())
}

/// two real layers, both split over two threads each
fn threads(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (ca, cb) = (cfg(c), cfg(c));
    let (a, b) = real_pair(c, l, l, ca, cb)?;
    let n = c.rng.range(5, 80);
    let mut hs = vec![];
    let (tx_ab, rx_ab) = mpsc::channel::<Vec<u8>>();
    let (tx_ba, rx_ba) = mpsc::channel::<Vec<u8>>();
    let mut ends = vec![(a, tx_ab, rx_ba), (b, tx_ba, rx_ab)];
    let datas: Vec<Vec<Vec<u8>>> = (0..2).map(|_| (0..n).map(|i| tagged(c, i as u64, 300)).collect()).collect();
    let dup = c.rng.pct(50);
    for side in 0..2 {
        let (mut o, tx, rx) = ends.remove(0);
        let k = fl("clone", o.try_clone())?;
        let (mut snd, mut rcv) = if c.rng.pct(50) { (o, k) } else { (k, o) };
        let mine = datas[side].clone();
        let theirs = datas[1 - side].clone();
        let seed = c.rng.u64();
        let mut q = crate::rng::Rng::new(seed);
        hs.push(std::thread::spawn(move || -> Result<(), String> {
            quiet(true);
            let mut held: VecDeque<Vec<u8>> = VecDeque::new();
            for (i, d) in mine.iter().enumerate() {
                if q.pct(5) {
                    let old = snd;
                    let mut old = old;
                    snd = old.try_clone().map_err(|f| format!("clone: {}", f.show()))?;
                }
                let f = snd.write(d).map_err(|f| format!("send {}: {}", i, f.show()))?;
                // the network reorders a little and duplicates
                held.push_back(f.clone());
                if dup {
                    held.push_back(f);
                }
                while held.len() > 4 {
                    let k = q.below(held.len());
                    let f = held.remove(k).unwrap();
                    let _ = tx.send(f);
                }
                if q.pct(10) {
                    std::thread::yield_now();
                }
            }
            for f in held {
                let _ = tx.send(f);
            }
            Ok(())
        }));
        hs.push(std::thread::spawn(move || -> Result<(), String> {
            quiet(true);
            let mut left: Vec<Vec<u8>> = theirs;
            let mut refused = 0usize;
            let total = left.len();
            while let Ok(f) = rx.recv() {
                match rcv.recv(&f) {
                    Ok(v) => {
                        let d = delivered(&v);
                        if d.len() != 1 || v.len() != 1 {
                            return Err(format!("one message delivered as {}", shorts(&v)));
                        }
                        match left.iter().position(|x| same_data(l, &d[0], x)) {
                            Some(k) => {
                                left.swap_remove(k);
                            }
                            None => return Err("a message delivered that was not sent, or twice".into()),
                        }
                    }
                    Err(f) if f.is_panic() => return Err(f.show()),
                    Err(_) => refused += 1,
                }
            }
            if !left.is_empty() {
                return Err(format!("{} of {} messages never delivered", left.len(), total));
            }
            if refused != if dup { total } else { 0 } {
                return Err(format!("{} messages refused", refused));
            }
            Ok(())
        }));
    }
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(())) => (),
            Ok(Err(e)) => err = Some(e),
            Err(_) => err = Some("panic in a thread".into()),
        }
    }
    count("threads-split", 1);
    count("sent-by-clone", 2 * n as u64);
    fp(n as u64 * 4 + l as u64 * 2 + u64::from(dup));
    match err {
        Some(e) => bad("split-over-threads", e),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C17
fn c17(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    if c.idx % 3000 == 5 {
        return long(c);
    }
    if c.idx % 500 == 9 {
        two_writers(c)?;
    }
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(0) } else { None };
    let conf = cfg(c);
    let mut giant = std::mem::replace(&mut c.giant, false);
    let mut d = Driver::with_cfg(c, l, pin, true, conf)?;
    d.complete(c, 0, 0)?;
    let mut copies: Vec<Node> = vec![];
    let mut typed_extra = 0u64;
    let s = match d.sess() {
        Some(s) => s,
        None => return setup("no session"),
    };
    let mut expect = 0u64;
    let mx = if c.rng.pct(10) { 150_000 } else { 600 };
    let steps = if mx > 1000 { 15 } else { c.rng.range(10, 70) };
    for _ in 0..steps {
        let k = c.rng.below(22);
        fp(k as u64);
        match k {
            0..=6 => {
                let p = if giant {
                    giant = false;
                    count("giant-payloads", 1);
                    vec![k as u8; (1 << (23 + c.idx % 3)) + c.rng.below(1_000)]
                } else if c.rng.pct(15) {
                    vec![]
                } else {
                    payload(c, mx)
                };
                let f = match d.node.write(&p) {
                    Ok(f) => f,
                    Err(f) => return bad("write-refused", format!("message {}: {}", expect, f.show())),
                };
                read_number(&s, &f, expect)?;
                expect += 1;
            }
            7 if l == Lvl::Cpl => {
                // a typed value, serializable or not depending on the configured format
                match d.node.write_t(&vec![1u8, 2, 3]) {
                    Ok(f) => {
                        read_number(&s, &f, expect)?;
                        expect += 1;
                        typed_extra += 1;
                    }
                    Err(f) => ensure!(!f.is_panic(), "panic", "{}", f.show()),
                }
            }
            8 => {
                let op = Op::Clone { keep: false };
                d.step(c, &op)?;
            }
            9 => {
                // go on with the clone; the original stays around, unused for sending
                let k = fl("clone", d.node.try_clone())?;
                let old = std::mem::replace(&mut d.node, k);
                d.m.is_clone = true;
                d.m.cloned = true;
                copies.push(old);
                count("went-on-with-clone", 1);
            }
            10 if !copies.is_empty() => {
                // copies not used for sending receive, are refused things, or go away
                let i = c.rng.below(copies.len());
                match c.rng.below(3) {
                    0 => {
                        copies.remove(i);
                    }
                    1 => {
                        let _ = copies[i].recv(&refp::user(&s, 0, &wire(l, Some(b"x"), 1)));
                    }
                    _ => {
                        let _ = copies[i].connect(None);
                    }
                }
            }
            11 => {
                let f = cfg(c);
                let _ = d.node.config(f);
            }
            12 => {
                ensure!(d.node.connect(None).is_err(), "connect-again", "a second CONNECT was written");
                ensure!(d.node.ack(None).is_err(), "ack-again", "a second ACK was written");
            }
            13..=15 => {
                let nonce = d.m.next + if c.rng.pct(30) { c.rng.below(5) as u64 } else { 0 };
                let data = tagged(c, nonce, 60);
                d.step(c, &Op::InUser { nonce, bad_hash: false, data })?;
            }
            16 => {
                let nonce = c.rng.below(d.m.next as usize + 2) as u64;
                d.step(c, &Op::InUser { nonce, bad_hash: true, data: vec![1] })?;
            }
            17 if d.m.next > 0 => {
                let nonce = c.rng.u64() % d.m.next;
                d.step(c, &Op::InUser { nonce, bad_hash: false, data: vec![2] })?;
            }
            18 => {
                d.step(c, &Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Good, data: None })?;
            }
            19 => {
                d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Flip(5), data: None })?;
            }
            20 => {
                d.step(c, &Op::InAck { who: 0, chal: Chal::Flip(5), sig: Sig::Good, data: None })?;
            }
            21 => {
                d.step(c, &Op::InAck { who: 1, chal: Chal::Good, sig: Sig::Good, data: None })?;
            }
            _ => (),
        }
        count("between", 1);
        if d.m.failed {
            break;
        }
    }
    let _ = typed_extra;
    Ok(())
}

fn read_number(s: &refp::Sess, f: &[u8], expect: u64) -> CaseR {
    count("numbers-read", 1);
    match s.open(f).and_then(|pt| refp::parse(&pt)) {
        Some(refp::Parsed::User { nonce, .. }) => {
            ensure!(nonce == expect, "number", "the user message after {} others carries number {}", expect, nonce);
            Ok(())
        }
        _ => bad("unreadable", format!("user message {} is not readable by the peer", expect)),
    }
}

fn long(c: &mut Ctx) -> CaseR {
    // one of them longer than any number that appears in the library
    let marathon = c.idx == 5;
    let l = if marathon { Lvl::Min } else { lvl(&mut c.rng) };
    let (mut n, p) = with_ref(c, l, cfg_with(0, 0, pkstl::MessageFormat::RawBinary))?;
    let s = match p.sess.clone() {
        Some(s) => s,
        None => return setup("no session"),
    };
    let total = match c.tier {
        _ if marathon => deep(c, if c.tier == Tier::Quick { 17_000_000 } else { 70_000_000 }),
        Tier::Quick => 66_500,
        _ => 300_000,
    };
    quiet(true);
    for i in 0..total {
        let f = match n.write(&[i as u8]) {
            Ok(f) => f,
            Err(f) => return bad("write-refused", format!("message {}: {}", i, f.show())),
        };
        // of millions, those around round numbers and a sample
        if i < 70_000 || i % 61 == 0 || (i & (i + 2)) < 4 || total - i < 100 || c.dict.nums.binary_search(&i).is_ok() {
            read_number(&s, &f, i)?;
        }
        if i % 1013 == 0 {
            if i % 2026 == 0 {
                n = fl("clone", n.try_clone())?;
            }
            fl("recv", n.recv(&p.user(i / 1013, b"x")))?;
        }
    }
    quiet(false);
    count("sessions-beyond-65536", 1);
    fp(total);
    Ok(())
}

/// the layer and its clone both write: their numbers collide (recorded finding)
fn two_writers(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (mut n, p) = with_ref(c, l, Default::default())?;
    let s = p.sess.clone().expect("session");
    let k0 = c.rng.below(4) as u64;
    for i in 0..k0 {
        let f = fl("write", n.write(b"x"))?;
        read_number(&s, &f, i)?;
    }
    let mut k = fl("clone", n.try_clone())?;
    let f1 = fl("write", n.write(b"one"))?;
    let f2 = fl("write", k.write(b"two"))?;
    let num = |f: &[u8]| match s.open(f).and_then(|pt| refp::parse(&pt)) {
        Some(refp::Parsed::User { nonce, .. }) => Some(nonce),
        _ => None,
    };
    let (a, b) = (num(&f1), num(&f2));
    if a == Some(k0) && b == Some(k0) {
        c.also.push(Fail::Bad {
            sig: "two-writer-clones-repeat-number".into(),
            msg: format!("a layer and its clone both write a user message with number {}", k0),
        });
    } else {
        ensure!(a == Some(k0) && b == Some(k0 + 1), "number", "layer and clone write numbers {:?} and {:?} after {} messages", a, b, k0);
    }
    Ok(())
}
