//! C09: no input can crash a layer.
use crate::model::low_order;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;
use pkstl::{MessageFormat, SecureLayer, SecureLayerConfig, Seed32};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;

pub static P: Prop = Prop {
    id: "C09",
    f: case,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "layers at every stage (new, CONNECT seen, waiting for ACK, finished, cloned, failed), both levels, are fed random bytes, damaged authentic messages, and messages signed or encrypted by a malicious peer with arbitrary lengths, headers, deflate streams and serialized contents of every format (typed reads into several types), mixed with local calls with odd arguments; every call must return; non-trivial: at least one hostile input; distinct: by stage, input kind, length and outcome",
    assumptions: &[
        "the application's types are not recursive under Bincode (see DESIGN: known finding)",
        "inputs are at most a few hundred kilobytes",
    ],
    setup_is_bad: false,
    floors: &[("hostile-inputs", 100_000), ("inputs-past-decryption", 10_000), ("typed-reads", 5_000)],
    level: "exploration",
};

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Thing {
    a: u64,
    b: String,
    c: Option<Vec<u8>>,
    d: Vec<(i32, f64)>,
    e: Kind,
    f: BTreeMap<String, Vec<String>>,
}
#[derive(Debug, Serialize, Deserialize, Clone)]
pub enum Kind {
    A,
    B(u8, String),
    C { x: i64, y: Option<bool> },
}
#[derive(Debug, Serialize, Deserialize)]
pub enum Rec {
    Nil,
    Cons(Box<Rec>),
}

fn np<T>(what: &str, r: R<T>) -> Result<Option<T>, Fail> {
    match r {
        Ok(v) => Ok(Some(v)),
        Err(f) if f.is_panic() => bad("panic", format!("{}: {}", what, f.show())),
        Err(_) => Ok(None),
    }
}

/// text whose characters take one to four bytes and begin anywhere
fn wide(c: &mut Ctx) -> String {
    let n = if c.rng.pct(70) { c.rng.below(12) } else { c.rng.below(400) };
    let chars: Vec<char> = match c.rng.below(5) {
        0 => vec!['\u{e9}'],
        1 => vec!['\u{20ac}'],
        2 => vec!['\u{1F600}'],
        _ => vec!['a', '\u{e9}', '\u{20ac}', '\u{1F600}', '"', '\\', '\0'],
    };
    let lead = c.rng.below(4);
    (0..lead).map(|_| 'x').chain((0..n).map(|_| *c.rng.pick(&chars)).collect::<Vec<_>>()).collect()
}

fn thing(c: &mut Ctx) -> Thing {
    Thing {
        a: c.rng.u64(),
        b: wide(c),
        c: if c.rng.pct(50) { Some(c.rng.bytes(5)) } else { None },
        d: vec![(1, 0.5); c.rng.below(4)],
        e: match c.rng.below(3) {
            0 => Kind::A,
            1 => Kind::B(3, "x".into()),
            _ => Kind::C { x: -1, y: None },
        },
        f: (0..c.rng.below(3)).map(|i| (format!("k{}", i), vec!["v".to_string(); i])).collect(),
    }
}

/// hostile application data: serialized garbage of every format
fn hostile_data(c: &mut Ctx) -> Vec<u8> {
    let t = thing(c);
    let f = c.rng.below(7) as u8;
    let mut v: Vec<u8> = match c.rng.below(5) {
        0 => serde_json::to_vec(&t).unwrap_or_default(),
        // text alone, with or without quotes, of a type nobody asked for
        4 => {
            let w = wide(c);
            match c.rng.below(4) {
                0 => w.into_bytes(),
                1 => serde_cbor::to_vec(&w).unwrap_or_default(),
                2 => bincode::serialize(&w).unwrap_or_default(),
                _ => serde_json::to_vec(&w).unwrap_or_default(),
            }
        }
        1 => serde_cbor::to_vec(&t).unwrap_or_default(),
        2 => bincode::serialize(&t).unwrap_or_default(),
        _ => {
            let n = size(c, 3000);
            content(c, n)
        }
    };
    match c.rng.below(8) {
        0 => {
            let k = c.rng.below(v.len() + 1);
            v.truncate(k);
        }
        1 | 2 => {
            for _ in 0..c.rng.range(1, 4) {
                if !v.is_empty() {
                    let i = c.rng.below(v.len());
                    v[i] = *c.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x9f, 0xbf, 0x5b, 0x7b, 0x1b, b'[', b'{', b'"']);
                }
            }
        }
        3 => {
            // huge declared lengths (bincode u64 length, cbor 8-byte length)
            let big = *c.rng.pick(&[u64::MAX, u64::MAX / 2, 1 << 40, 1 << 31, 1 << 20]);
            let at = c.rng.below(v.len() + 1);
            let x = if c.rng.pct(50) { big.to_le_bytes() } else { big.to_be_bytes() };
            for (i, b) in x.iter().enumerate() {
                if at + i < v.len() {
                    v[at + i] = *b;
                } else {
                    v.push(*b);
                }
            }
        }
        4 => {
            // deep nesting
            let n = *c.rng.pick(&[100usize, 127, 128, 129, 1000, 20_000]);
            v = match c.rng.below(4) {
                0 => vec![b'['; n],
                1 => b"{\"a\":".iter().cycle().take(5 * n).cloned().collect(),
                2 => vec![0x81; n],
                _ => vec![0x9f; n],
            };
        }
        _ => (),
    }
    let head = match c.rng.below(10) {
        0 => c.rng.bytes(4),
        1 => vec![0, 0, 0, 0xff],
        2 => return v,
        3 => {
            let k = c.rng.below(4);
            return vec![0; k];
        }
        _ => vec![0, 0, 0, f],
    };
    [head, v].concat()
}

/// content as a malicious peer would put it: right, wrongly compressed, not compressed
fn hostile_content(c: &mut Ctx, l: Lvl) -> Vec<u8> {
    let d = hostile_data(c);
    if l == Lvl::Min {
        return d;
    }
    let z = c.rng.below(10) as u32;
    let mut w = refp::deflate(&d, z);
    match c.rng.below(8) {
        0 => {
            let n = c.rng.below(200);
            c.rng.bytes(n)
        }
        1 => {
            let k = c.rng.below(w.len() + 1);
            w.truncate(k);
            w
        }
        2 => {
            for _ in 0..c.rng.range(1, 5) {
                let i = c.rng.below(w.len() * 8);
                w[i / 8] ^= 1 << (i % 8);
            }
            w
        }
        3 => {
            let n = c.rng.below(30);
            let x = c.rng.bytes(n);
            [w, x].concat()
        }
        4 => refp::deflate(&vec![0; *c.rng.pick(&[100_000usize, 1_000_000, 3_000_000])], 9),
        5 => c.rng.pick(&[&[0x00u8][..], &[0x01], &[0x03], &[0x05], &[0x07], &[0x06, 0xff], &[0x00, 0, 0, 0xff, 0xff], &[0x01, 0xff, 0xff, 0, 0]]).to_vec(),
        _ => w,
    }
}

/// a frame with any header, of any length, signed / hashed / neither
fn hostile_body(c: &mut Ctx, l: Lvl, p: &Peer, own: &[u8]) -> Vec<u8> {
    let content = hostile_content(c, l);
    let mut b = match c.rng.below(4) {
        0 => refp::connect_body(&p.ek.pk, &p.key.pk, &content),
        1 => refp::ack_body(own, &content),
        2 => {
            let n = match c.rng.below(8) {
                0 => u64::MAX - c.rng.below(3) as u64,
                1 => (1u64 << c.rng.below(64)).wrapping_sub(c.rng.below(2) as u64),
                2 => *c.rng.pick(&c.dict.nums),
                3 => c.rng.u64(),
                _ => c.rng.below(4) as u64,
            };
            refp::user_body(n, &content)
        }
        _ => refp::body(c.rng.below(5) as u16, &content),
    };
    match c.rng.below(9) {
        0 => {
            // the length field
            let n = b.len() as u64 - 16;
            let x = *c.rng.pick(&[
                0, 1, 2, 3, 9, 10, 33, 34, 35, 69, 70, 71, n - 1, n + 1, n + 31, n + 32, n + 33, n + 63, n + 64, n + 65,
                u64::MAX, u64::MAX - 15, u64::MAX - 16, u64::MAX - 17, 1 << 63, 1 << 32, (1 << 32) + n, i64::MAX as u64,
            ]);
            b[8..16].copy_from_slice(&x.to_be_bytes());
        }
        1 => {
            // cut anywhere, header included, length field adapted or not
            let k = c.rng.below(b.len().min(120) + 1);
            b.truncate(k);
            if b.len() >= 16 && c.rng.pct(60) {
                let n = (b.len() - 16) as u64;
                b[8..16].copy_from_slice(&n.to_be_bytes());
            }
        }
        2 => {
            let n = b.len().min(100);
            for _ in 0..c.rng.range(1, 3) {
                let i = c.rng.below(n * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
        }
        3 => {
            if b.len() >= 50 {
                let k = c.rng.below(7);
                b[18..50].copy_from_slice(&low_order(k));
            }
        }
        _ => (),
    }
    b
}

fn hostile_frame(c: &mut Ctx, l: Lvl, p: &Peer, n: &Node, recent: &[Vec<u8>]) -> (Vec<u8>, u64) {
    let own = n.epk.clone().unwrap_or_else(|| vec![5; 32]);
    let k = c.rng.below(14);
    let f = match k {
        0 => {
            // short random
            let n = c.rng.below(70);
            c.rng.bytes(n)
        }
        1 => {
            let n = size(c, 3000);
            content(c, n)
        }
        2 => {
            // magic and then anything
            let n = c.rng.below(40);
            let x = c.rng.bytes(n);
            [&refp::MAGIC[..], &x].concat()
        }
        3 => {
            let n = c.rng.below(30);
            let x = c.rng.bytes(n);
            [&refp::MAGIC[..], &refp::VERSION, &x].concat()
        }
        4 => {
            // short prefix of a correct message
            let b = hostile_body(c, l, p, &own);
            let k = c.rng.below(b.len() + 1);
            b[..k].to_vec()
        }
        5..=7 => {
            let b = hostile_body(c, l, p, &own);
            refp::signed(&b, &p.key)
        }
        8..=11 => {
            let b = hostile_body(c, l, p, &own);
            let pt = match c.rng.below(4) {
                0 => b,
                1 => {
                    let h = refp::hashed(&b);
                    let k = h.len().saturating_sub(c.rng.below(40));
                    h[..k].to_vec()
                }
                _ => refp::hashed(&b),
            };
            match &p.sess {
                Some(s) => {
                    count("inputs-past-decryption", 1);
                    s.seal(&pt)
                }
                None => pt,
            }
        }
        12 => match &p.sess {
            Some(s) => {
                let n = c.rng.below(60);
                let x = c.rng.bytes(n);
                count("inputs-past-decryption", 1);
                s.seal(&x)
            }
            None => vec![],
        },
        _ => {
            if recent.is_empty() {
                return (vec![], 99);
            }
            let mut f = c.rng.pick(recent).clone();
            match c.rng.below(3) {
                0 => {
                    let k = c.rng.below(f.len() + 1);
                    f.truncate(k)
                }
                1 => {
                    if !f.is_empty() {
                        let i = c.rng.below(f.len() * 8);
                        f[i / 8] ^= 1 << (i % 8)
                    }
                }
                _ => (),
            }
            f
        }
    };
    (f, k as u64)
}

fn case(c: &mut Ctx) -> CaseR {
    if c.idx % 10 == 9 {
        return local(c);
    }
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = match c.rng.below(5) {
        0 => Some(p.key.pk.clone()),
        1 => {
            let n = c.rng.below(70);
            Some(c.rng.bytes(n))
        }
        _ => None,
    };
    let conf = cfg(c);
    let mut n = match np("create", Node::create("L", l, conf, &nk, pin))? {
        Some(n) => n,
        None => return Ok(()),
    };
    n.auto = c.rng.pct(70);
    let stage = c.rng.below(7);
    let mut recent = vec![];
    macro_rules! keep {
        ($w:expr, $e:expr) => {
            if let Some(f) = np($w, $e)? {
                recent.push(f);
            }
        };
    }
    if stage >= 1 {
        keep!("connect", n.connect(None));
        if let Some(f) = recent.last() {
            p.learn(f);
        }
    }
    if stage >= 2 {
        let f = p.connect(None);
        np("recv", n.recv(&f))?;
        recent.push(f);
    }
    if stage >= 3 {
        keep!("ack", n.ack(None));
    }
    if stage >= 4 {
        let f = p.ack(None);
        np("recv", n.recv(&f))?;
        recent.push(f);
        for k in 0..2 {
            let f = p.user(k, b"hello");
            np("recv", n.recv(&f))?;
            recent.push(f);
        }
        keep!("write", n.write(b"x"));
    }
    if stage == 5 {
        if let Some(k) = np("clone", n.try_clone())? {
            n = k;
        }
    }
    if stage == 6 {
        np("recv", n.recv(&[1, 2, 3, 4, 5]))?;
    }
    fp(stage as u64 ^ (l as u64) << 8);
    c.nontrivial = true;
    // each hostile input meets the layer in this very stage if it can be cloned; otherwise one
    // after the other
    let rounds = c.rng.range(2, 12);
    for _ in 0..rounds {
        let (f, k) = hostile_frame(c, l, &p, &n, &recent);
        count("hostile-inputs", 1);
        let mut other = if stage >= 4 && stage != 6 { np("clone", n.try_clone())? } else { None };
        let t = other.as_mut().unwrap_or(&mut n);
        let out = if l == Lvl::Cpl && c.rng.pct(60) {
            count("typed-reads", 1);
            match c.rng.below(6) {
                0 => np("typed read", t.recv_t::<String>(&f))?.map(|v| v.len()),
                1 => np("typed read", t.recv_t::<Vec<u64>>(&f))?.map(|v| v.len()),
                2 => np("typed read", t.recv_t::<serde_json::Value>(&f))?.map(|v| v.len()),
                3 => np("typed read", t.recv_t::<BTreeMap<String, Vec<Option<i64>>>>(&f))?.map(|v| v.len()),
                _ => np("typed read", t.recv_t::<Thing>(&f))?.map(|v| v.len()),
            }
        } else {
            np("read", t.recv(&f))?.map(|v| v.len())
        };
        fp(k ^ (f.len() as u64) << 8 ^ out.map_or(0, |o| 1 + o as u64) << 40);
        if out.is_some() {
            count("hostile-inputs-answered-ok", 1);
        }
        match c.rng.below(12) {
            0 => drop(np("take ack", t.take_ack())?),
            1 => drop(np("drain", t.drain())?),
            2 => drop(np("connect", t.connect(Some(b"again")))?),
            3 => drop(np("ack", t.ack(Some(b"again")))?),
            4 => drop(np("write", t.write(b"again"))?),
            5 => drop(np("clone", t.try_clone())?),
            6 => {
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.debug())) {
                    let _ = e;
                    return bad("panic", "debug representation panics");
                }
            }
            _ => (),
        }
    }
    // the calls that would follow in an application that does not notice
    np("ack", n.ack(None))?;
    if p.remote_epk.is_some() {
        np("recv", n.recv(&p.ack(None)))?;
    }
    np("take ack", n.take_ack())?;
    np("drain", n.drain())?;
    np("write", n.write(b"after all"))?;
    np("connect", n.connect(None))?;
    Ok(())
}

struct Nasty(u8);
impl Serialize for Nasty {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap, SerializeSeq};
        match self.0 {
            0 => Err(S::Error::custom("cannot")),
            1 => {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&1)?;
                q.end()
            }
            2 => {
                let mut q = s.serialize_map(None)?;
                q.serialize_entry(&vec![1, 2], &3)?;
                q.end()
            }
            3 => s.serialize_f64(f64::NAN),
            4 => s.serialize_char('\u{10ffff}'),
            5 => s.serialize_i128(i128::MIN),
            6 => s.serialize_bytes(&[0xff; 40]),
            _ => {
                let mut q = s.serialize_seq(Some(5))?;
                q.serialize_element(&1)?;
                q.end()
            }
        }
    }
}

/// local calls with odd arguments in any order
fn local(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let nk = sigkey(&mut c.rng);
    let n = c.rng.below(100);
    let pin = match c.rng.below(3) {
        0 => Some(c.rng.bytes(n)),
        _ => None,
    };
    let lv = c.rng.below(10) as u32;
    let th = *c.rng.pick(&[0usize, 1, 100, usize::MAX]);
    let fm = fmt(&mut c.rng);
    let mut n = match np("create", Node::create("L", l, cfg_with(lv, th, fm), &nk, pin))? {
        Some(n) => n,
        None => return Ok(()),
    };
    let mut p = Peer::new(&mut c.rng, l);
    if c.rng.pct(10) {
        // creation without a seed
        let r = guard(|| SecureLayer::create(SecureLayerConfig::default(), None, None).map(|_| ()));
        np("create without seed", r)?;
        let r = guard(|| SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::default()), None).map(|_| ()));
        np("create with zero seed", r)?;
    }
    for _ in 0..c.rng.range(4, 25) {
        let k = c.rng.below(17);
        fp(k as u64);
        match k {
            0 => {
                let d = custom(c, 50_000);
                if let Some(f) = np("connect", n.connect(d.as_deref()))? {
                    p.learn(&f);
                }
            }
            1 => {
                let d = custom(c, 50_000);
                np("ack", n.ack(d.as_deref()))?;
            }
            2 => {
                let d = payload(c, 150_000);
                np("write", n.write(&d))?;
            }
            3 => {
                np("clone", n.try_clone())?;
            }
            4 => {
                let f = cfg(c);
                np("config", n.config(f))?;
            }
            5 => {
                np("take", n.take_ack())?;
            }
            6 => {
                np("drain", n.drain())?;
            }
            7 => {
                np("recv", n.recv(&[]))?;
            }
            8 if l == Lvl::Cpl => {
                let x = Nasty(c.rng.below(8) as u8);
                np("write<M>", n.write_t(&x))?;
            }
            9 if l == Lvl::Cpl => {
                let x = Nasty(c.rng.below(8) as u8);
                np("connect<M>", n.connect_t(Some(&x)))?;
            }
            10 if l == Lvl::Cpl => {
                let x = Nasty(c.rng.below(8) as u8);
                np("ack<M>", n.ack_t(Some(&x)))?;
            }
            11 if l == Lvl::Cpl => {
                let x = thing(c);
                np("write<M>", n.write_t(&x))?;
            }
            12 | 13 => {
                np("recv", n.recv(&p.connect(None)))?;
            }
            14 if p.remote_epk.is_some() => {
                np("recv", n.recv(&p.ack(None)))?;
            }
            15 => {
                // odd public key at the minimal level
                if let Lay::Min(m) = &mut n.lay {
                    let len = c.rng.below(100);
                    let pk = c.rng.bytes(len);
                    np("connect", guard(|| m.create_connect_message(&pk, None)))?;
                }
            }
            16 => {
                if let Some(s) = &p.sess {
                    let f = refp::user(s, c.rng.below(5) as u64, &wire(l, Some(b"x"), 1));
                    np("recv", n.recv(&f))?;
                }
            }
            _ => (),
        }
        count("local-calls", 1);
    }
    let _ = MessageFormat::default();
    c.nontrivial = true;
    Ok(())
}

/// Run in a process of its own (`--probe NAME`): what it does may end the process.
pub fn probe(name: &str) -> i32 {
    match name {
        "bincode-recursive" | "bincode-zero-sized" => {
            std::panic::set_hook(Box::new(|_| {}));
            let l = Lvl::Cpl;
            let mut r = crate::rng::Rng::new(7);
            let mut p = Peer::new(&mut r, l);
            let nk = sigkey(&mut r);
            let mut n = match Node::create("L", l, SecureLayerConfig::default(), &nk, None) {
                Ok(n) => n,
                Err(_) => return 2,
            };
            let ok = (|| -> R<()> {
                let f = n.connect(None)?;
                p.learn(&f);
                n.recv(&p.connect(None))?;
                n.ack(None)?;
                n.recv(&p.ack(None))?;
                Ok(())
            })();
            if ok.is_err() {
                return 2;
            }
            if name == "bincode-zero-sized" {
                // the length of a sequence of units: no byte follows
                let d = [&[0, 0, 0, 4][..], &(1u64 << 62).to_le_bytes()].concat();
                return match n.recv_t::<Vec<()>>(&p.user(0, &d)) {
                    Ok(v) => {
                        println!("decoded {} messages", v.len());
                        0
                    }
                    Err(_) => 0,
                };
            }
            // Cons(Cons(Cons(...))): 4 bytes of variant index per level
            let mut d = vec![0, 0, 0, 4];
            for _ in 0..2_000_000 {
                d.extend_from_slice(&[1, 0, 0, 0]);
            }
            d.extend_from_slice(&[0, 0, 0, 0]);
            match n.recv_t::<Rec>(&p.user(0, &d)) {
                Ok(v) => {
                    println!("decoded {} messages", v.len());
                    // dropping the nested value recurses too, which is the application's business
                    std::mem::forget(v);
                    0
                }
                Err(_) => 0,
            }
        }
        "epk" => draw(64, true),
        // what was drawn before a fork must not serve on both sides of it
        "fork" => {
            std::panic::set_hook(Box::new(|_| {}));
            // the child inherits whatever the library keeps ready
            let r = draw(5, true);
            let _ = std::io::stdout().flush();
            let pid = unsafe { libc::fork() };
            if pid < 0 || r != 0 {
                return 2;
            }
            let r = draw(24, true);
            let _ = std::io::stdout().flush();
            if pid == 0 {
                unsafe { libc::_exit(r) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == 0 && st == 0 {
                0
            } else {
                2
            }
        }
        // the system stops giving random numbers: whatever is still handed out must be fresh
        "starved" => {
            std::panic::set_hook(Box::new(|_| {}));
            let r = draw(3, true);
            if r != 0 {
                return 2;
            }
            if !starve() {
                println!("cannot");
                return 0;
            }
            println!("starved");
            draw(48, false)
        }
        _ => 3,
    }
}

/// draws and prints ephemeral keys and (marked by a byte in front) seeds and signature keys
fn draw(n: usize, must: bool) -> i32 {
    for i in 0..n {
        let k = crate::refp::SigKey::new([(i % 2) as u8; 32]);
        let l = if i % 4 < 2 { Lvl::Min } else { Lvl::Cpl };
        let f = Node::create("L", l, SecureLayerConfig::default(), &k, None)
            .and_then(|mut n| n.connect(None).map(|_| n.epk.unwrap_or_default()));
        match f {
            Ok(e) => println!("{}", hexall(&e)),
            Err(_) if !must => println!("refused"),
            Err(_) => return 2,
        }
    }
    // and what is left to the library: seeds, signature keys
    for i in 0..n / 2 {
        if i % 2 == 0 {
            match std::panic::catch_unwind(Seed32::random) {
                Ok(s) => println!("ff{}", hexall(s.as_ref())),
                Err(_) if !must => println!("refused"),
                Err(_) => return 2,
            }
            continue;
        }
        let r = std::panic::catch_unwind(|| {
            let mut w = std::io::BufWriter::new(vec![]);
            SecureLayer::create(SecureLayerConfig::default(), None, None)
                .and_then(|mut l| l.write_connect_msg_bin(None, &mut w))
                .map(|_| w.into_inner().unwrap_or_default())
        });
        match r {
            Ok(Ok(f)) if f.len() >= 86 => println!("ff{}", hexall(&f[54..86])),
            _ if !must => println!("refused"),
            _ => return 2,
        }
    }
    0
}

/// from now on the kernel refuses random numbers to this process
fn starve() -> bool {
    #[repr(C)]
    struct Prog {
        len: libc::c_ushort,
        filter: *const [u32; 2],
    }
    // load the number of the system call; getrandom: EIO; everything else: allowed
    let filter: [[u32; 2]; 4] = [
        [0x20, 0],
        [0x15 | 1 << 24, libc::SYS_getrandom as u32],
        [0x06, 0x0005_0000 | libc::EIO as u32],
        [0x06, 0x7fff_0000],
    ];
    let p = Prog { len: 4, filter: filter.as_ptr() };
    unsafe { libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const Prog) == 0 }
}
