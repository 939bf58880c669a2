//! C13: compression is invisible.
use crate::ensure;
use crate::node::*;
use crate::run::*;
use crate::util::*;

pub static P: Prop = Prop {
    id: "C13",
    f: c13,
    quick: 36_000,
    thorough: 1_000_000,
    rule: "two real layers at the complete level; first every compression level x threshold (0, 1, n-1, n, n+1, default, maximum) x 16 payload classes, then random configurations at both ends that change between messages, all sizes and contents, in CONNECT, ACK (also early) and user messages (also set aside and after cloning); non-trivial: all; distinct: by level, threshold relation, size and content class",
    assumptions: &[],
    setup_is_bad: true,
    floors: &[("payloads-compared", 40_000), ("shrunk", 5_000), ("stored", 5_000), ("absent-custom", 1_000), ("empty-custom", 1_000), ("siblings", 10_000)],
    level: "exploration",
};

fn class(c: &mut Ctx, k: u64) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0],
        2 => c.rng.bytes(5),
        3 => vec![b'a'; 64],
        4 => c.rng.bytes(100),
        5 => vec![0; 1_000],
        6 => c.rng.bytes(1_000),
        7 => b"abcdefgh".iter().cycle().take(8_191).cloned().collect(),
        8 => c.rng.bytes(8_192),
        9 => b"abcdefgh".iter().cycle().take(8_193).cloned().collect(),
        10 => vec![0xff; 33_000],
        11 => c.rng.bytes(33_000),
        12 => {
            let mut v = vec![0; 40_000];
            v.extend(c.rng.bytes(40_000));
            v
        }
        13 => c.rng.bytes(65_536),
        14 => b"0123456789".iter().cycle().take(70_000).cloned().collect(),
        _ => {
            let n = c.rng.range(1, 66_000);
            content(c, n)
        }
    }
}

/// one of the payloads before, with a small difference anywhere
fn sibling(c: &mut Ctx, ds: &[Vec<u8>]) -> Vec<u8> {
    let mut d = c.rng.pick(ds).clone();
    if d.is_empty() {
        return d;
    }
    count("siblings", 1);
    let at = if c.rng.pct(50) { d.len() / 2 } else { c.rng.below(d.len()) };
    match c.rng.below(5) {
        0 => d.truncate(at),
        1 => d.insert(at, 0),
        2 => {
            let to = c.rng.below(d.len());
            d.swap(at, to);
        }
        _ => d[at] ^= 1 << c.rng.below(8),
    }
    d
}

fn c13(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    let k = c.idx;
    if k < 10 * 7 * 16 {
        let (lv, th, cl) = (k % 10, k / 10 % 7, k / 70);
        let d = class(c, cl);
        let n = d.len();
        let t = [0, 1, n.saturating_sub(1), n, n + 1, 8_192, usize::MAX][th as usize];
        let f = fmt(&mut c.rng);
        fp(k);
        return conn(c, vec![d], vec![cfg_with(lv as u32, t, f)]);
    }
    let big = k % 300 == 299;
    let m = c.rng.range(1, 6);
    let mut ds = vec![];
    for _ in 0..m {
        let cl = c.rng.below(16) as u64;
        let d = if big && ds.is_empty() {
            let max = if c.tier == Tier::Quick { 3_000_000 } else { 30_000_000 };
            let n = c.rng.range(200_000, max);
            count("megabytes", n as u64 >> 20);
            if c.rng.pct(60) { vec![c.idx as u8; n] } else { c.rng.bytes(n) }
        } else if !ds.is_empty() && c.rng.pct(40) {
            // much like one before it: nothing of that one may show
            sibling(c, &ds)
        } else if c.rng.pct(50) {
            class(c, cl)
        } else {
            payload(c, 70_000)
        };
        fp(d.len() as u64);
        ds.push(d);
    }
    let mut cs = vec![];
    for _ in 0..c.rng.range(1, 4) {
        let mut f = cfg(c);
        if c.rng.pct(30) {
            let n = c.rng.pick(&ds).len();
            f.compression_min_size = *c.rng.pick(&[n.saturating_sub(1), n, n + 1]);
        }
        fp(u64::from(f.compression.level()));
        cs.push(f);
    }
    conn(c, ds, cs)
}

fn cust(c: &mut Ctx, ds: &[Vec<u8>]) -> Option<Vec<u8>> {
    match c.rng.below(4) {
        0 => {
            count("absent-custom", 1);
            None
        }
        1 => {
            count("empty-custom", 1);
            Some(vec![])
        }
        _ => Some(c.rng.pick(ds).clone()),
    }
}

fn conn(c: &mut Ctx, ds: Vec<Vec<u8>>, cs: Vec<pkstl::SecureLayerConfig>) -> CaseR {
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let cb = cfg(c);
    let mut a = fl("create", Node::create("A", Lvl::Cpl, cs[0], &ka, None))?;
    let mut b = fl("create", Node::create("B", Lvl::Cpl, cb, &kb, None))?;
    quiet(ds.iter().any(|d| d.len() > 200_000));
    let next = |c: &mut Ctx, a: &mut Node| -> CaseR {
        if cs.len() > 1 && c.rng.pct(50) {
            let f = *c.rng.pick(&cs);
            fl("config", a.config(f))?;
        }
        Ok(())
    };
    let got = |what: &str, r: R<Vec<Ev>>, want: &[Ev]| -> CaseR {
        count("payloads-compared", want.len() as u64);
        match r {
            Ok(v) if v == want => Ok(()),
            Ok(v) => bad("payload-differs", format!("{}: expected {} got {}", what, shorts(want), shorts(&v))),
            Err(f) => bad("payload-refused", format!("{}: expected {} got {}", what, shorts(want), f.show())),
        }
    };
    let (x1, x2, y1, y2) = (cust(c, &ds), cust(c, &ds), cust(c, &ds), cust(c, &ds));
    let fb = fl("connect", b.connect(y1.as_deref()))?;
    next(c, &mut a)?;
    let fa = fl("connect", a.connect(x1.as_deref()))?;
    got("CONNECT", a.recv(&fb), &[Ev::Connect { pk: kb.pk.clone(), data: y1.clone() }])?;
    next(c, &mut a)?;
    let fk = fl("ack", a.ack(x2.as_deref()))?;
    let c_ev = Ev::Connect { pk: ka.pk.clone(), data: x1.clone() };
    let a_ev = Ev::Ack { data: x2.clone() };
    if c.rng.pct(40) {
        got("early ACK", b.recv(&fk), &[])?;
        got("CONNECT and early ACK", b.recv(&fa), &[c_ev, a_ev])?;
    } else {
        got("CONNECT", b.recv(&fa), &[c_ev])?;
        got("ACK", b.recv(&fk), &[a_ev])?;
    }
    let fk = fl("ack", b.ack(y2.as_deref()))?;
    // B may already write: its first messages overtake its ACK
    let mut early = vec![];
    let m = if c.rng.pct(40) { 2.min(ds.len()) } else { 0 };
    for d in ds.iter().take(m) {
        let f = fl("write", b.write(d))?;
        got("early user message", a.recv(&f), &[])?;
        early.push(Ev::Msg { data: Some(d.clone()) });
    }
    let mut want = vec![Ev::Ack { data: y2.clone() }];
    want.extend(early);
    got("ACK and early user messages", a.recv(&fk), &want)?;
    for d in &ds {
        next(c, &mut a)?;
        let f = fl("write", a.write(d))?;
        count(if f.len() < d.len() { "shrunk" } else { "stored" }, 1);
        got("user message", b.recv(&f), &[Ev::Msg { data: Some(d.clone()) }])?;
        if c.rng.pct(30) {
            let f = fl("write", b.write(d))?;
            got("user message back", a.recv(&f), &[Ev::Msg { data: Some(d.clone()) }])?;
        }
    }
    if c.rng.pct(30) {
        let mut s = fl("clone", a.try_clone())?;
        let mut r = fl("clone", b.try_clone())?;
        for d in ds.iter().take(2) {
            let f = fl("write", s.write(d))?;
            got("user message between clones", r.recv(&f), &[Ev::Msg { data: Some(d.clone()) }])?;
        }
    }
    ensure!(!a.dead && !b.dead, "panic", "a layer panicked");
    Ok(())
}
