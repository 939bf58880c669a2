//! C19: connections are independent of each other and of threads.
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub static P: Prop = Prop {
    id: "C19",
    f: c19,
    quick: 2_400,
    thorough: 60_000,
    rule: "6 to 24 connections per case, each a layer in lock-step with its own single-threaded reference automaton and its own independent peer, are driven concurrently by 2 to 8 threads; a layer moves to whichever thread takes it next; connections are created, fail, are cloned, reconfigured, flooded and dropped next to each other; genuine messages of one connection are offered to another, where they must be treated as garbage; real pairs exchange messages at the same time; non-trivial: at least one layer moved between threads; distinct: by scripts. The same binary is run again under ThreadSanitizer (see the sanitizer entry)",
    assumptions: &["thread schedules are those the machine produced; data races are looked for by ThreadSanitizer on a smaller number of cases"],
    setup_is_bad: true,
    floors: &[("moves-between-threads", 20_000), ("operations", 100_000), ("connections", 5_000), ("cross-fed", 1_000), ("panicking-outputs", 300), ("shared-peers", 1_000), ("broken-outputs", 500), ("nested", 300), ("nested-values", 30), ("gifts-read-before", 1_000), ("crowd", 9_000), ("last-words", 500)],
    level: "exploration",
};

/// layers may be moved to and shared with other threads
#[allow(dead_code)]
fn sendable() {
    fn f<T: Send>() {}
    f::<pkstl::MinimalSecureLayer>();
    f::<pkstl::SecureLayer>();
    f::<pkstl::Error>();
}

struct Job {
    id: usize,
    d: Driver,
    rng: Rng,
    left: usize,
    /// thread that drove it last
    last: usize,
    moves: u64,
    log: Vec<String>,
    fp: u64,
    /// a genuine user message of this connection, sometimes handed to others
    gift: Option<Vec<u8>>,
}

fn random_op(c: &mut Ctx, d: &Driver) -> Op {
    let big = c.rng.pct(3);
    let mx = if big { 20_000 } else { 80 };
    match c.rng.below(30) {
        0..=6 if d.m.done() => Op::Write(tagged(c, 1, mx)),
        7..=12 => Op::InUser { nonce: d.m.next + if c.rng.pct(30) { c.rng.below(4) as u64 } else { 0 }, bad_hash: false, data: tagged(c, 2, mx) },
        13 => Op::InUser { nonce: c.rng.below(d.m.next as usize + 1) as u64, bad_hash: false, data: vec![1] },
        14 => Op::InUser { nonce: d.m.next, bad_hash: true, data: vec![1] },
        15 if d.m.done() => Op::Clone { keep: c.rng.pct(40) },
        16 => Op::Config(cfg(c)),
        17 => Op::InConnect { who: 1, epk: Epk::Own, sig: Sig::Flip(7), data: None },
        18 => Op::InAck { who: 0, chal: Chal::Foreign, sig: Sig::Good, data: None },
        19 if d.m.peer.is_some() => Op::InAck { who: 1, chal: Chal::Good, sig: Sig::Good, data: None },
        20 if d.m.done() => Op::Connect(None),
        21 if d.m.ack_out => Op::Ack(None),
        _ => {
            if !d.m.connect_out {
                Op::Connect(custom(c, 40))
            } else if !d.m.connect_in {
                Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: custom(c, 40) }
            } else if !d.m.ack_out {
                Op::Ack(custom(c, 40))
            } else if !d.m.ack_in {
                Op::InAck { who: d.m.peer.unwrap_or(0), chal: Chal::Good, sig: Sig::Good, data: custom(c, 40) }
            } else {
                Op::Write(tagged(c, 3, mx))
            }
        }
    }
}

/// Some peers have many connections of the process at once: with the same keys, so that what they sent on one
/// arrives on others too.
fn partner(c: &mut Ctx, l: crate::node::Lvl, pin: Option<usize>) -> Result<Driver, Fail> {
    if !c.rng.pct(30) {
        return Driver::new(c, l, pin, true);
    }
    count("shared-peers", 1);
    let k = c.rng.below(4) as u64;
    let own = std::mem::replace(&mut c.rng, Rng::new(c.seed.wrapping_mul(31).wrapping_add(k)));
    let d = Driver::new(c, l, pin, true);
    c.rng = own;
    d
}

fn c19(c: &mut Ctx) -> CaseR {
    if c.idx % 1_200 == 1_007 {
        return crowd(c);
    }
    if c.idx % 20 == 9 {
        return thread_end(c);
    }
    let n = c.rng.range(6, 24);
    let nt = c.rng.range(2, 8);
    let mut jobs = vec![];
    for id in 0..n {
        let l = lvl(&mut c.rng);
        let pin = if c.rng.pct(40) { Some(0) } else { None };
        let mut d = partner(c, l, pin)?;
        d.node.name = format!("L{}", id);
        let rng = Rng::new(c.rng.u64());
        let left = c.rng.range(10, 60);
        jobs.push(Job { id, d, rng, left, last: usize::MAX, moves: 0, log: vec![], fp: 0, gift: None });
    }
    count("connections", n as u64);
    let pool = Arc::new(Mutex::new(jobs));
    let done: Arc<Mutex<Vec<Job>>> = Arc::new(Mutex::new(vec![]));
    let errs: Arc<Mutex<Vec<(Fail, Vec<String>)>>> = Arc::new(Mutex::new(vec![]));
    let gifts: Arc<Mutex<Vec<(usize, Vec<u8>)>>> = Arc::new(Mutex::new(vec![]));
    let (tier, seed, idx) = (c.tier, c.seed, c.idx);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt {
            let (pool, done, errs, gifts) = (pool.clone(), done.clone(), errs.clone(), gifts.clone());
            let mut trng = Rng::new(c.rng.u64());
            let dict = c.dict;
            hs.push(sc.spawn(move || {
                loop {
                    if !errs.lock().unwrap().is_empty() {
                        break;
                    }
                    let job = {
                        let mut p = pool.lock().unwrap();
                        if p.is_empty() {
                            None
                        } else {
                            let k = trng.below(p.len());
                            Some(p.swap_remove(k))
                        }
                    };
                    let mut j = match job {
                        Some(j) => j,
                        None => break,
                    };
                    if j.last != t && j.last != usize::MAX {
                        j.moves += 1;
                        count("moves-between-threads", 1);
                    }
                    j.last = t;
                    reset_rec();
                    let mut x = Ctx { rng: j.rng.clone(), idx, tier, dict, nontrivial: false, also: vec![], seed, lift: true, giant: false };
                    let steps = 1 + x.rng.below(4);
                    let mut r = Ok(());
                    for _ in 0..steps {
                        if j.left == 0 {
                            break;
                        }
                        j.left -= 1;
                        r = slice(&mut x, &mut j, &gifts);
                        if r.is_err() {
                            break;
                        }
                    }
                    if r.is_ok() && j.left == 0 {
                        r = finish(&mut x, &mut j);
                    }
                    j.rng = x.rng;
                    j.fp = j.fp.rotate_left(7) ^ cur_fp();
                    let l = take_log();
                    if j.log.len() < 120 {
                        j.log.extend(l.into_iter().map(|s| format!("[thread {}] {}", t, s)));
                    }
                    match r {
                        Err(f) => {
                            errs.lock().unwrap().push((f, j.log.clone()));
                            break;
                        }
                        Ok(()) if j.left == 0 => done.lock().unwrap().push(j),
                        Ok(()) => pool.lock().unwrap().push(j),
                    }
                    if trng.pct(5) {
                        std::thread::yield_now();
                    }
                }
                take_counts()
            }));
        }
        for h in hs {
            if let Ok(m) = h.join() {
                for (k, v) in m {
                    count(k, v);
                }
            }
        }
    });
    let mut e = errs.lock().unwrap();
    if let Some((f, l)) = e.pop() {
        for s in l {
            log(|| s);
        }
        return Err(f);
    }
    let done = done.lock().unwrap();
    ensure!(done.len() == n, "lost-connection", "only {} of {} connections were driven to their end", done.len(), n);
    let mut all = 0u64;
    let mut moves = 0;
    for j in done.iter() {
        all ^= j.fp.wrapping_mul(j.id as u64 * 2 + 1);
        moves += j.moves;
    }
    log(|| format!("{} connections over {} threads, {} moves between threads", n, nt, moves));
    if let Some(j) = done.first() {
        for s in j.log.iter().take(20) {
            log(|| s.clone());
        }
    }
    fp(all);
    c.nontrivial = moves > 0;
    Ok(())
}

/// very many connections alive at once, in one thread or several; then some of them are used
fn crowd(c: &mut Ctx) -> CaseR {
    let n = *c.rng.pick(&[9_000usize, 17_000, 24_000]);
    let l = lvl(&mut c.rng);
    let (ca, cb) = (cfg(c), cfg(c));
    let (mut a, mut b) = real_pair(c, l, l, ca, cb)?;
    let key = sigkey(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(key.pk.clone()) } else { None };
    let nt = *c.rng.pick(&[1usize, 4]);
    quiet(true);
    let made: Vec<Result<Vec<Node>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                let (key, pin) = (&key, &pin);
                sc.spawn(move || -> Result<Vec<Node>, String> {
                    quiet(true);
                    let mut v = vec![];
                    for i in 0..n / nt {
                        let mut k = Node::create("L", l, ca, key, pin.clone()).map_err(|f| format!("layer number {}: {}", i, f.show()))?;
                        if i % 8 == 3 {
                            k.connect(None).map_err(|f| format!("CONNECT of layer number {}: {}", i, f.show()))?;
                        }
                        v.push(k);
                    }
                    Ok(v)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    quiet(false);
    let mut crowd = vec![];
    for m in made {
        match m {
            Ok(v) => crowd.extend(v),
            Err(e) => return bad("crowded", format!("with {} others alive: {}", n, e)),
        }
    }
    // those there before go on, and new ones are negotiated
    let mut pairs = vec![real_pair(c, l, l, cb, ca)?];
    for _ in 0..3 {
        if let (Some(x), Some(y)) = (crowd.pop(), crowd.pop()) {
            if x.epk.is_none() && y.epk.is_none() {
                let (mut x, mut y) = (x, y);
                shake(&mut x, &mut y)?;
                pairs.push((x, y));
            }
        }
    }
    for round in 0..2 {
        for i in 0..40u64 {
            let d = tagged(c, i, 300);
            let f = fl("write in a crowd", a.write(&d))?;
            let e = fl("read in a crowd", b.recv(&f))?;
            ensure!(delivered(&e).len() == 1 && norm(&delivered(&e)[0]) == d, "crowded", "with {} others alive, message {} arrives as {}", n, i, shorts(&e));
        }
        for (x, y) in pairs.iter_mut() {
            let d = tagged(c, 77, 100);
            let f = fl("write in a crowd", y.write(&d))?;
            let e = fl("read in a crowd", x.recv(&f))?;
            ensure!(delivered(&e).len() == 1 && norm(&delivered(&e)[0]) == d, "crowded", "with {} others alive, a message arrives as {}", n, shorts(&e));
        }
        if round == 0 {
            crowd.clear();
        }
    }
    count("crowd", n as u64);
    c.nontrivial = true;
    fp(n as u64);
    Ok(())
}

/// A layer kept in thread local storage says a last word when its thread ends: before or after whatever the
/// library itself may keep there is gone.
struct Held {
    lay: Lay,
    word: Vec<u8>,
    last: Arc<Mutex<Option<Result<Vec<u8>, String>>>>,
}
impl Drop for Held {
    fn drop(&mut self) {
        let mut w = std::io::BufWriter::new(Vec::new());
        let (lay, word) = (&mut self.lay, &self.word);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match lay {
            Lay::Min(x) => x.write_message(word, &mut w),
            Lay::Cpl(x) => x.write_bin(word, &mut w),
            Lay::Rem(_) => Ok(()),
        }));
        let r = match r {
            Ok(Ok(())) => Ok(w.buffer().to_vec()).map(|b| [w.get_ref().clone(), b].concat()),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(_) => Err("PANIC".into()),
        };
        *self.last.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
    }
}
thread_local! { static HELD: std::cell::RefCell<Vec<Held>> = const { std::cell::RefCell::new(vec![]) }; }

fn thread_end(c: &mut Ctx) -> CaseR {
    for k in 0..6 {
        let l = lvl(&mut c.rng);
        let (ca, cb) = (cfg(c), cfg(c));
        let (mut a, mut b) = real_pair(c, l, l, ca, cb)?;
        let before = c.rng.pct(60);
        let made_here = c.rng.pct(50);
        let word = tagged(c, 5, 300);
        let first = tagged(c, 6, 300);
        let seed = c.rng.u64();
        let (idx, tier, dict) = (c.idx, c.tier, c.dict);
        let last = Arc::new(Mutex::new(None));
        let (w2, l2) = (word.clone(), last.clone());
        let joined = std::thread::scope(|sc| sc.spawn(move || -> Result<(Node, Vec<u8>), Fail> {
            quiet(true);
            reset_rec();
            if before {
                // its destructor was there before anything the library does in this thread
                HELD.with(|_| ());
                let _ = HELD.with(|h| h.borrow().len());
            }
            if made_here {
                let mut x = Ctx { rng: Rng::new(seed), idx, tier, dict, nontrivial: false, also: vec![], seed, lift: true, giant: false };
                let (p, q) = real_pair(&mut x, l, l, ca, cb)?;
                a = p;
                b = q;
            }
            let f = fl("write", a.write(&first))?;
            HELD.with(|h| h.borrow_mut().push(Held { lay: a.lay, word: w2, last: l2 }));
            Ok((b, f))
        }).join());
        let (mut b, f) = match joined {
            Ok(r) => r?,
            Err(_) => return bad("panic", "the thread of a layer died"),
        };
        fl("first word", b.recv(&f))?;
        let r = last.lock().unwrap().take();
        match r {
            Some(Ok(f)) => {
                let e = b.recv(&f).or_else(|x| bad("thread-end", format!("the last message of a thread is refused: {}", x.show())))?;
                ensure!(delivered(&e).len() == 1 && norm(&delivered(&e)[0]) == word, "thread-end", "the last message of a thread arrives as {}", shorts(&e));
            }
            Some(Err(e)) => return bad("thread-end", format!("a message written while its thread ends: {}", e)),
            None => return setup("no last word"),
        }
        count("last-words", 1);
        fp(k + 8 * u64::from(before));
    }
    c.nontrivial = true;
    Ok(())
}

/// one step of one connection
fn slice(c: &mut Ctx, j: &mut Job, gifts: &Mutex<Vec<(usize, Vec<u8>)>>) -> CaseR {
    if j.d.m.done() && j.gift.is_none() && !j.d.m.failed {
        let op = Op::InUser { nonce: j.d.m.next, bad_hash: false, data: b"meant for this connection only".to_vec() };
        j.gift = j.d.frame(&op, &mut c.rng);
        if let Some(g) = j.gift.clone() {
            if c.rng.pct(60) {
                // some have been read where they belong before they turn up elsewhere
                j.d.step_with(c, &op, Some(g.clone()))?;
                count("gifts-read-before", 1);
            }
            let mut v = gifts.lock().unwrap();
            if v.len() < 64 {
                v.push((j.id, g.clone()));
            }
        }
    }
    if j.left == 3 && c.rng.pct(60) && !j.d.m.failed && j.d.m.done() {
        // near its end: a message of another connection arrives on this one
        let g = {
            let v = gifts.lock().unwrap();
            if v.is_empty() {
                None
            } else {
                Some(v[c.rng.below(v.len())].clone())
            }
        };
        if let Some((from, f)) = g {
            if from != j.id {
                count("cross-fed", 1);
                let r = j.d.node.recv(&f);
                ensure!(r.is_err(), "crossed", "a message of connection {} was accepted on connection {}", from, j.id);
                j.d.m.failed = true;
                return Ok(());
            }
        }
    }
    if c.rng.pct(1) {
        return nested(c);
    }
    if j.left % 13 == 0 && c.rng.pct(25) {
        // this connection starts all over again
        j.d = fresh(c, j.id)?;
        j.gift = Some(vec![]);
    }
    if c.rng.pct(2) && j.d.m.done() && !j.d.m.failed {
        // the output of this connection breaks; the others must not notice
        let cap = *c.rng.pick(&[0usize, 4, 20, 60]);
        let panics = c.rng.pct(40);
        let mut w = std::io::BufWriter::with_capacity(cap, Broken { left: c.rng.below(70), failed: false, panics });
        let data = tagged(c, 9, 300);
        if panics && j.d.m.lvl == crate::node::Lvl::Cpl && c.rng.pct(30) {
            // so may a value of the application (if the format serializes at all)
            if matches!(j.d.node.write_t(&Odd(true)), Err(f) if f.is_panic()) {
                count("panicking-values", 1);
            }
            j.d = fresh(c, j.id)?;
            return Ok(());
        }
        let r = j.d.node.write_to(&data, &mut w);
        let n = w.get_ref().failed;
        std::mem::forget(w);
        match r {
            Err(f) if panics && f.is_panic() => {
                // the application's own panic: what is left of this connection does not matter, all others go on
                count("panicking-outputs", 1);
                j.d = fresh(c, j.id)?;
            }
            Err(f) => {
                ensure!(!f.is_panic(), "panic", "write into a broken output: {}", f.show());
                ensure!(n, "needless-error", "write failed although its output took everything");
                count("broken-outputs", 1);
                j.d.m.failed = true;
            }
            Ok(()) => {
                // it may all be in the buffer still: this connection's message is lost, start again
                j.d = fresh(c, j.id)?;
            }
        }
        return Ok(());
    }
    if c.rng.pct(2) && j.d.m.lvl == crate::node::Lvl::Cpl && j.d.m.done() && !j.d.m.failed {
        // a value that cannot be serialized, or does not come out as the type asked for
        count("unserializable", 1);
        let r = j.d.node.write_t(&Odd(false));
        ensure!(r.is_err(), "odd-value-written", "a value that refuses serialization was written");
        return Ok(());
    }
    if c.rng.pct(1) {
        let k = c.rng.below(GARBAGE_KINDS as usize) as u32;
        j.d.step(c, &Op::InGarbage(k))?;
        return Ok(());
    }
    let op = random_op(c, &j.d);
    j.d.step(c, &op)?;
    Ok(())
}

fn fresh(c: &mut Ctx, id: usize) -> Result<Driver, Fail> {
    let l = lvl(&mut c.rng);
    let mut d = partner(c, l, None)?;
    d.node.name = format!("L{}*", id);
    count("connections", 1);
    Ok(d)
}

struct Broken {
    left: usize,
    failed: bool,
    panics: bool,
}
impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            if self.panics {
                panic!("output of the application");
            }
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Debug)]
struct Odd(bool);
impl serde::Serialize for Odd {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            panic!("value of the application");
        }
        Err(serde::ser::Error::custom("cannot be serialized"))
    }
}

/// a connection inside another: what one writes leaves through the other, values are exchanged while values
/// are being exchanged
fn nested(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (ca, cb) = (cfg(c), cfg(c));
    let (mut a, mut b) = real_pair(c, l, l, ca, cb)?;
    let l2 = lvl(&mut c.rng);
    let (x, y) = real_pair(c, l2, l2, cb, ca)?;
    let pipe = Pipe { x, y, out: vec![], step: c.rng.range(1, 90), bad: None };
    let data = tagged(c, 4, 400);
    let cap = *c.rng.pick(&[0usize, 1, 40, 8192]);
    let mut w = std::io::BufWriter::with_capacity(cap, pipe);
    fl("write through another connection", a.write_to(&data, &mut w))?;
    let mut pipe = match w.into_inner() {
        Ok(p) => p,
        Err(_) => return bad("crossed", "a buffered writer over another connection cannot be flushed"),
    };
    if let Some(e) = pipe.bad.take() {
        return bad("crossed", format!("written to from inside another connection's write: {}", e));
    }
    let e = b.recv(&pipe.out).or_else(|f| bad("crossed", format!("what went through another connection is refused: {}", f.show())))?;
    ensure!(delivered(&e).len() == 1 && norm(&delivered(&e)[0]) == data, "crossed", "another message came through: {}", shorts(&e));
    count("nested", 1);
    if l == crate::node::Lvl::Cpl && a.write_t(&1u8).is_ok() {
        // (the format serializes; the number is consumed)
        INSIDE.with(|i| *i.borrow_mut() = Some((pipe.x, pipe.y)));
        let f = fl("write a value that writes", a.write_t(&Inside))?;
        let r = b.recv_t::<Inside>(&f);
        let left = INSIDE.with(|i| i.borrow_mut().take());
        ensure!(left.is_some() && matches!(&r, Ok(v) if v.len() == 1), "crossed", "a value whose reading and writing uses another connection does not arrive");
        count("nested-values", 1);
    }
    Ok(())
}
struct Pipe {
    x: Node,
    y: Node,
    out: Vec<u8>,
    step: usize,
    bad: Option<String>,
}
impl std::io::Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step);
        let got = self.x.write(&b[..n]).and_then(|f| self.y.recv(&f));
        match got {
            Ok(e) if delivered(&e).len() == 1 && norm(&delivered(&e)[0]) == b[..n] => self.out.extend_from_slice(&b[..n]),
            Ok(e) => self.bad = Some(shorts(&e)),
            Err(f) => self.bad = Some(f.show()),
        }
        if self.bad.is_some() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
thread_local! { static INSIDE: std::cell::RefCell<Option<(Node, Node)>> = const { std::cell::RefCell::new(None) }; }
/// a message over the connection put aside, there and back
fn inside() -> bool {
    INSIDE.with(|i| match i.borrow_mut().as_mut() {
        Some((x, y)) => matches!(x.write(b"inside").and_then(|f| y.recv(&f)), Ok(e) if delivered(&e).len() == 1),
        None => false,
    })
}
#[derive(Debug)]
struct Inside;
impl serde::Serialize for Inside {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if !inside() {
            return Err(serde::ser::Error::custom("the other connection does not work"));
        }
        s.serialize_u32(7)
    }
}
impl<'de> serde::Deserialize<'de> for Inside {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = <u32 as serde::Deserialize>::deserialize(d)?;
        if n != 7 || !inside() {
            return Err(serde::de::Error::custom("the other connection does not work"));
        }
        Ok(Inside)
    }
}

fn finish(c: &mut Ctx, j: &mut Job) -> CaseR {
    j.d.complete(c, 0, 3)?;
    j.d.check_out()
}
