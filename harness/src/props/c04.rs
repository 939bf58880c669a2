//! C04: no user message is delivered twice. C05: reordered messages all arrive, up to a bounded gap.
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;
use std::collections::HashSet;

pub static P4: Prop = Prop {
    id: "C04",
    f: c04,
    quick: 12_000,
    thorough: 400_000,
    rule: "histories of numbered user messages (sliding windows, gaps, huge numbers, long sessions) in which past messages are replayed at every distance, also before and across the end of the negotiation, compared step by step with a set of the numbers received; real pairs under duplicating networks; non-trivial: at least one replay reached the layer; distinct: by the number history",
    assumptions: &[],
    setup_is_bad: false,
    floors: &[("replays", 20_000), ("delivered", 20_000), ("before-the-ack", 4_000), ("marathons", 1), ("brinks", 20), ("copied", 500)],
    level: "exploration",
};
pub static P5: Prop = Prop {
    id: "C05",
    f: c05,
    quick: 5_000,
    thorough: 150_000,
    rule: "permutations and gap patterns of message numbers up to and beyond 10,000 messages ahead of a gap, compared step by step with the reference window; real pairs under reordering networks; non-trivial: at least one message arrived out of order; distinct: by the number history",
    assumptions: &[],
    setup_is_bad: true,
    floors: &[("out-of-order", 100_000), ("limit-reached", 20), ("limit-exceeded", 20), ("marathons", 1), ("copied", 50)],
    level: "exploration",
};

struct Win {
    d: Driver,
    seen: HashSet<u64>,
}
impl Win {
    /// until the layer waits for nothing but the ACK
    fn waiting(c: &mut Ctx) -> Result<Win, Fail> {
        let l = if c.rng.pct(70) { Lvl::Min } else { Lvl::Cpl };
        let pin = if c.rng.pct(30) { Some(0) } else { None };
        let mut d = Driver::new(c, l, pin, true)?;
        let setup_ = |f| as_setup(f).map(|_| Exp::Skip);
        d.step(c, &Op::Connect(None)).or_else(setup_)?;
        let op = Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None };
        d.step(c, &op).or_else(setup_)?;
        d.step(c, &Op::Ack(None)).or_else(setup_)?;
        Ok(Win { d, seen: HashSet::new() })
    }
    fn new(c: &mut Ctx, early: bool) -> Result<Win, Fail> {
        if early && c.rng.pct(40) {
            return Win::early(c);
        }
        let l = if c.rng.pct(70) { Lvl::Min } else { Lvl::Cpl };
        let pin = if c.rng.pct(30) { Some(0) } else { None };
        let mut d = Driver::new(c, l, pin, true)?;
        d.complete(c, 0, 0).or_else(as_setup)?;
        Ok(Win { d, seen: HashSet::new() })
    }
    /// messages, their duplicates and messages ahead of them arrive before the ACK
    fn early(c: &mut Ctx) -> Result<Win, Fail> {
        let mut w = Win::waiting(c)?;
        let span = *c.rng.pick(&[1usize, 2, 5, 12, 60]);
        for _ in 0..c.rng.range(1, 40) {
            let n = match c.rng.below(8) {
                0 => w.d.m.next,
                1 => w.d.m.next.saturating_sub(1),
                _ => c.rng.below(span) as u64,
            };
            w.feed(c, n)?;
            count("before-the-ack", 1);
        }
        w.d.complete(c, 0, 0)?;
        Ok(w)
    }
    /// copies come and go, one of them may take over the receiving
    fn copies(&mut self, c: &mut Ctx) -> CaseR {
        let keep = c.rng.pct(40);
        let before = self.d.m.cloned;
        self.d.step(c, &Op::Clone { keep })?;
        if self.d.m.cloned {
            count(if before { "copies-again" } else { "copied" }, 1);
        }
        Ok(())
    }
    fn feed(&mut self, c: &mut Ctx, n: u64) -> Result<Exp, Fail> {
        let data = n.wrapping_mul(0x9E37_79B9).to_be_bytes().to_vec();
        let replay = self.seen.contains(&n);
        if replay {
            count("replays", 1);
        } else if n != self.d.m.next {
            count("out-of-order", 1);
        }
        let e = self.d.step(c, &Op::InUser { nonce: n, bad_hash: false, data })?;
        if let Exp::Ok(_) = e {
            ensure!(self.seen.insert(n), "model", "harness: model delivered twice");
            count("delivered", 1);
        }
        if e == Exp::Fatal {
            count("limit-exceeded", 1);
        }
        if self.d.m.orphans.len() == MAX_ORPHANS {
            count("limit-reached", 1);
        }
        Ok(e)
    }
}
fn as_setup(f: Fail) -> CaseR {
    match f {
        Fail::Bad { sig, msg } => setup(format!("{}: {}", sig, msg)),
        x => Err(x),
    }
}

/// a session longer than any number that appears in the library (up to some millions): everything
/// is delivered, mostly in order, and past messages of any distance are refused
fn marathon(c: &mut Ctx, replays: bool) -> CaseR {
    let (mut n, p) = with_ref(c, Lvl::Min, Default::default())?;
    let s = match p.sess.clone() {
        Some(s) => s,
        None => return setup("no session"),
    };
    let total = deep(c, if c.tier == Tier::Quick { 6_000_000 } else { 40_000_000 });
    quiet(true);
    fp(total ^ u64::from(replays));
    c.nontrivial = true;
    let win = if replays { 3 } else { 40 };
    let mut block: Vec<u64> = vec![];
    let mut at = 0u64;
    while at < total {
        block.clear();
        let k = if c.rng.pct(90) { 1 } else { 1 + c.rng.below(win) as u64 };
        block.extend(at..at + k);
        if k > 1 {
            c.rng.shuffle(&mut block);
        }
        for &i in &block {
            match n.recv(&refp::user(&s, i, &i.to_be_bytes())) {
                Ok(v) if v.len() == 1 && matches!(&v[0], Ev::Msg { data: Some(d) } if d[..] == i.to_be_bytes()) => (),
                Ok(v) => return bad("lost", format!("message {} of a long session: {}", i, shorts(&v))),
                Err(f) => return bad("lost", format!("message {} of a long session: {}", i, f.show())),
            }
        }
        at += k;
        if replays && at % 64 == 0 {
            let i = match c.rng.below(6) {
                0 => at - 1,
                1 => 0,
                2 => at.saturating_sub(1 << c.rng.below(24)),
                3 => at.saturating_sub(*c.rng.pick(&c.dict.nums)) % at,
                _ => c.rng.u64() % at,
            };
            count("replays", 1);
            match n.recv(&refp::user(&s, i, &i.to_be_bytes())) {
                Err(f) if !f.is_panic() => (),
                Err(f) => return bad("panic", f.show()),
                Ok(v) => return bad("delivered-twice", format!("message {} again, after {} others: {}", i, at, shorts(&v))),
            }
        }
    }
    quiet(false);
    count("delivered", total);
    count("marathons", 1);
    Ok(())
}

fn c04(c: &mut Ctx) -> CaseR {
    if c.idx == 3 {
        return marathon(c, true);
    }
    if c.idx % 16 == 0 {
        return real_net(c, true);
    }
    if c.idx % 250 == 11 {
        return brink(c);
    }
    let mut w = Win::new(c, true)?;
    let long = c.idx % 200 == 7;
    let steps = if long { 75_000 } else { *c.rng.pick(&[20usize, 60, 200, 400]) };
    let style = if long { 6 } else { c.rng.below(6) };
    if long {
        count("long-sessions", 1);
    }
    let mut hi: u64 = 0;
    quiet(steps > 1000);
    // early messages may have moved on
    hi = hi.max(if c.rng.pct(50) { w.d.m.next } else { 0 });
    for k in 0..steps as u64 {
        let known: Option<u64> = {
            // some number already received
            if w.seen.is_empty() {
                None
            } else {
                match c.rng.below(6) {
                    0 => Some(w.d.m.next.saturating_sub(1)),
                    1 => Some(0),
                    2 => w.d.m.orphans.iter().next().cloned(),
                    3 => w.d.m.orphans.iter().next_back().cloned(),
                    4 => Some(w.d.m.next.saturating_sub(1 + c.rng.below(300) as u64)),
                    _ => {
                        let m = w.d.m.next.max(1);
                        Some(c.rng.u64() % m)
                    }
                }
            }
        };
        let replay_pct = if long { 2 } else { 45 };
        let n = if c.rng.pct(replay_pct) && known.is_some() {
            known.unwrap()
        } else {
            match style {
                0 => hi,
                1 => hi + c.rng.below(4) as u64,
                2 => c.rng.below(64) as u64 + (hi.saturating_sub(40)),
                3 => match c.rng.below(8) {
                    0 => u64::MAX - c.rng.below(3) as u64,
                    1 => 1 << c.rng.below(64),
                    2 => *c.rng.pick(&c.dict.nums),
                    3 => w.d.m.next.wrapping_add(1 << c.rng.below(40)),
                    _ => hi,
                },
                4 => {
                    // everything but every 7th, those later
                    if k % 7 == 3 { hi + 1 } else { hi }
                }
                5 => w.d.m.next + c.rng.below(130) as u64,
                _ => {
                    if c.rng.pct(1) { hi + 1 } else { hi }
                }
            }
        };
        if !w.d.m.seen(n) && n != w.d.m.next && w.d.m.orphans.len() >= MAX_ORPHANS {
            continue;
        }
        w.feed(c, n)?;
        if c.idx % 3 == 2 && c.rng.pct(3) {
            w.copies(c)?;
        }
        if n >= hi && n < u64::MAX / 2 {
            hi = n + 1;
        }
        // in a long session, jumping ahead leaves gaps that are closed some time later
        if long && c.rng.pct(3) {
            let nx = w.d.m.next;
            w.feed(c, nx)?;
        }
    }
    quiet(false);
    // messages not yet seen are still delivered, each once
    for _ in 0..c.rng.range(1, 20) {
        let n = w.d.m.next;
        w.feed(c, n)?;
        w.feed(c, n)?;
    }
    // and everything ever received is refused now (a sample)
    let mut all: Vec<u64> = w.seen.iter().cloned().collect();
    all.sort_unstable();
    c.rng.shuffle(&mut all);
    for n in all.into_iter().take(300) {
        w.feed(c, n)?;
    }
    c.nontrivial = true;
    Ok(())
}

/// replays when there is room for hardly one more message ahead of a gap
fn brink(c: &mut Ctx) -> CaseR {
    let mut w = if c.rng.pct(50) { Win::waiting(c)? } else { Win::new(c, false)? };
    for k in 0..c.rng.below(20) as u64 {
        w.feed(c, k)?;
    }
    let room = c.rng.below(3);
    w.d.brink(c, room)?;
    let mut known: Vec<u64> = w.d.m.orphans.iter().cloned().collect();
    w.seen.extend(known.iter().cloned());
    known.extend(0..w.d.m.next);
    if c.rng.pct(50) {
        w.d.complete(c, 0, 0)?;
    }
    let (lo, hi) = (w.d.m.orphans.iter().next().cloned(), w.d.m.orphans.iter().next_back().cloned());
    let replays = |c: &mut Ctx, w: &mut Win| -> CaseR {
        for _ in 0..30 {
            let n = match c.rng.below(4) {
                0 => lo.unwrap_or(0),
                1 => hi.unwrap_or(0),
                _ => *c.rng.pick(&known),
            };
            w.feed(c, n)?;
        }
        Ok(())
    };
    replays(c, &mut w)?;
    // fill it up
    let mut n = hi.unwrap_or(0);
    while w.d.m.orphans.len() < MAX_ORPHANS {
        n += 1 + c.rng.below(2) as u64;
        w.feed(c, n)?;
        w.feed(c, n)?;
    }
    if c.rng.pct(50) {
        w.copies(c)?;
    }
    replays(c, &mut w)?;
    // the missing ones, again and again
    for _ in 0..20 {
        let n = w.d.m.next;
        w.feed(c, n)?;
        w.feed(c, n)?;
        replays(c, &mut w)?;
    }
    w.d.complete(c, 0, 0)?;
    quiet(true);
    c.rng.shuffle(&mut known);
    for n in known.into_iter().take(3_000) {
        w.feed(c, n)?;
    }
    quiet(false);
    c.nontrivial = true;
    Ok(())
}

fn c05(c: &mut Ctx) -> CaseR {
    if c.idx == 3 {
        return marathon(c, false);
    }
    if c.idx % 8 == 1 {
        return real_net(c, false);
    }
    let style = c.idx % 8;
    let fill = (style == 1 || style > 3) && (c.tier != Tier::Quick || c.idx % 3 == 0);
    let mut waiting = fill && c.rng.pct(40);
    let mut w = if waiting { Win::waiting(c)? } else { Win::new(c, !fill)? };
    let big = MAX_ORPHANS as u64;
    c.nontrivial = true;
    match style {
        0 => {
            // random permutation of a block, one or several times
            let n = if c.rng.pct(10) { 9_000 } else { c.rng.range(2, 600) } as u64;
            quiet(n > 500);
            let mut base = 0;
            for _ in 0..c.rng.range(1, 3) {
                let mut v: Vec<u64> = (base..base + n).collect();
                match c.rng.below(4) {
                    0 => v.reverse(),
                    1 => v.rotate_left(1),
                    _ => c.rng.shuffle(&mut v),
                }
                let copying = c.rng.pct(25);
                for x in v {
                    w.feed(c, x)?;
                    if copying && c.rng.pct(2) {
                        w.copies(c)?;
                    }
                }
                base += n;
            }
            ensure!(w.d.m.next >= base, "model", "harness: model not at the end");
        }
        2 => {
            // windowed reordering of a longer stream
            let win = *c.rng.pick(&[2usize, 3, 8, 64, 200]);
            let n = c.rng.range(200, 3000) as u64;
            quiet(true);
            let mut buf: Vec<u64> = Vec::new();
            let mut i = 0;
            while i < n || !buf.is_empty() {
                while buf.len() < win && i < n {
                    buf.push(i);
                    i += 1;
                }
                let k = c.rng.below(buf.len());
                let x = buf.swap_remove(k);
                w.feed(c, x)?;
            }
        }
        3 => {
            // far apart numbers
            for _ in 0..c.rng.range(5, 200) {
                let n = match c.rng.below(6) {
                    0 => u64::MAX - c.rng.below(50) as u64,
                    1 => 1u64 << c.rng.below(64),
                    2 => *c.rng.pick(&c.dict.nums),
                    3 => w.d.m.next,
                    4 => w.d.m.next + big + c.rng.below(5) as u64,
                    _ => c.rng.u64(),
                };
                w.feed(c, n)?;
            }
        }
        _ => {
            // fill up to the limit around one or several gaps, close some, go on to the limit
            if !fill {
                return small_gaps(c, w);
            }
            quiet(true);
            let ngaps = c.rng.range(1, 4) as u64;
            let start = c.rng.below(40) as u64;
            for n in 0..start {
                w.feed(c, n)?;
            }
            let mut gaps: Vec<u64> = vec![start];
            let mut n = start + 1;
            let mut in_ = 0u64;
            let down = c.rng.pct(20);
            if down {
                // highest first
                for k in (1..=big).rev() {
                    w.feed(c, start + k)?;
                }
                n = start + big + 1;
            } else {
                while in_ < big {
                    if (gaps.len() as u64) < ngaps && c.rng.below(2000) == 0 {
                        gaps.push(n);
                        n += 1;
                        continue;
                    }
                    w.feed(c, n)?;
                    n += 1;
                    in_ += 1;
                }
            }
            ensure!(w.d.m.orphans.len() == MAX_ORPHANS, "model", "harness: not at the limit");
            if waiting && c.rng.pct(50) {
                waiting = false;
                count("full-before-the-ack", 1);
                w.d.complete(c, 0, 0)?;
            }
            if !waiting && c.rng.pct(30) {
                w.copies(c)?;
            }
            // replays at the limit do no harm
            for _ in 0..5 {
                let k = start + 1 + c.rng.below(3) as u64;
                if w.seen.contains(&k) {
                    w.feed(c, k)?;
                }
            }
            match c.rng.below(3) {
                0 => {
                    // late ones arrive: everything fits again
                    for g in gaps {
                        w.feed(c, g)?;
                    }
                    for k in 0..50 {
                        w.feed(c, n + 1 + k)?;
                    }
                    w.feed(c, n)?;
                    ensure!(w.d.m.next == n + 51, "model", "harness: model has a gap left");
                }
                1 => {
                    // one more ahead of the gap
                    let x = n + u64::from(c.rng.pct(50));
                    let e = w.feed(c, x)?;
                    ensure!(e == Exp::Fatal, "model", "harness: model did not fail");
                    quiet(false);
                    let g = gaps[0];
                    w.feed(c, g)?;
                    w.d.step(c, &Op::Write(vec![1]))?;
                }
                _ => {
                    // close the first gap only, then refill to the limit and exceed it
                    w.feed(c, gaps[0])?;
                    if w.d.m.orphans.is_empty() {
                        n += 1;
                    }
                    while w.d.m.orphans.len() < MAX_ORPHANS {
                        w.feed(c, n)?;
                        n += 1;
                    }
                    quiet(false);
                    w.feed(c, n)?;
                    let nx = w.d.m.next;
                    w.feed(c, nx)?;
                }
            }
        }
    }
    quiet(false);
    if waiting {
        count("full-before-the-ack", 1);
        w.d.complete(c, 0, 2)?;
    }
    Ok(())
}

fn small_gaps(c: &mut Ctx, mut w: Win) -> CaseR {
    let n = c.rng.range(5, 300) as u64;
    let every = c.rng.range(2, 9) as u64;
    let mut late = vec![];
    for x in 0..n {
        if x % every == 0 {
            late.push(x);
        } else {
            w.feed(c, x)?;
        }
    }
    if c.rng.pct(50) {
        c.rng.shuffle(&mut late);
    }
    for x in late {
        w.feed(c, x)?;
        if c.rng.pct(20) {
            w.feed(c, x)?;
        }
    }
    let nx = w.d.m.next;
    w.feed(c, nx + 1)?;
    w.feed(c, nx)?;
    c.nontrivial = true;
    Ok(())
}

/// two real layers; the network reorders, and duplicates if `dup`
fn real_net(c: &mut Ctx, dup: bool) -> CaseR {
    let l = lvl(&mut c.rng);
    let (ca, cb) = (cfg(c), cfg(c));
    let (mut a, mut b) = real_pair(c, l, l, ca, cb)?;
    let n = c.rng.range(5, 120);
    let mx = if c.rng.pct(10) { 20_000 } else { 200 };
    let mut frames = vec![];
    let mut data = vec![];
    for k in 0..n {
        let d = tagged(c, k as u64, mx);
        frames.push(fl("write", b.write(&d))?);
        data.push(d);
    }
    let mut q: Vec<usize> = (0..n).collect();
    if dup {
        for _ in 0..c.rng.range(5, 200) {
            q.push(c.rng.below(n));
        }
    }
    match c.rng.below(3) {
        0 => (),
        1 => {
            for i in 0..q.len() {
                let j = (i + c.rng.below(8)).min(q.len() - 1);
                q.swap(i, j);
            }
        }
        _ => c.rng.shuffle(&mut q),
    }
    let mut got = vec![0u32; n];
    for i in q {
        fp(i as u64);
        match a.recv(&frames[i]) {
            Ok(e) => {
                ensure!(e.len() == 1 && matches!(&e[0], Ev::Msg { data: x } if same_data(l, x, &data[i])), "not-intact", "message {} came out as {}", i, shorts(&e));
                got[i] += 1;
                ensure!(got[i] == 1, "delivered-twice", "message {} delivered again", i);
                count("delivered", 1);
            }
            Err(f) => {
                ensure!(!f.is_panic(), "panic", "{}", f.show());
                ensure!(got[i] == 1, "refused-first-time", "message {} refused on first arrival: {}", i, f.show());
                count("replays", 1);
            }
        }
    }
    ensure!(got.iter().all(|g| *g == 1), "not-delivered", "some message never delivered");
    c.nontrivial = true;
    Ok(())
}
