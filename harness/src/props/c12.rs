//! C12: keys are fresh and user data never leaves a layer in clear.
use crate::ensure;
use crate::node::*;
use crate::refp;
use crate::rng::mix;
use crate::run::*;
use crate::util::*;
use std::collections::HashSet;
use std::io::{self, BufWriter, Write};
use std::sync::Mutex;

pub static P: Prop = Prop {
    id: "C12",
    f: c12,
    quick: 20_000,
    thorough: 300_000,
    rule: "ephemeral keys of all layers of the run (same seeds again and again, several threads, other processes) are all different and their bits balanced; random seeds and the signature keys of layers created without a seed as well, and so are 4 million seeds drawn by 8 threads at once, in every quarter; the key streams of all sessions (known plaintext xor ciphertext), also with the same identities and a peer that repeats its ephemeral key, are all different; no window of the plaintext of a user message appears in what a layer emits, also into failing outputs and while writing is refused; non-trivial: all; distinct: by kind and sizes",
    assumptions: &["unpredictability is only observed as absence of repetition and bias"],
    setup_is_bad: false,
    floors: &[("ephemeral-keys", 100_000), ("sessions", 3_000), ("emitted-searched", 4_000), ("processes", 5), ("forks", 2), ("identities", 50_000), ("crowd-of-seeds", 4_000_000), ("crowd-of-keys", 200_000)],
    level: "exploration",
};

static EPKS: Mutex<Option<HashSet<u128>>> = Mutex::new(None);
static IDS: Mutex<Option<HashSet<u128>>> = Mutex::new(None);
static STREAMS: Mutex<Option<HashSet<u128>>> = Mutex::new(None);

fn half(b: &[u8]) -> u128 {
    let mut a = [0u8; 16];
    a.copy_from_slice(&b[..16]);
    u128::from_be_bytes(a)
}
fn fresh(e: &[u8]) -> CaseR {
    ensure!(e.len() == 32, "ephemeral-key", "no ephemeral key in CONNECT");
    count("ephemeral-keys", 1);
    let new = EPKS.lock().unwrap().get_or_insert_with(HashSet::new).insert(half(e));
    ensure!(new, "ephemeral-key-repeated", "ephemeral key {} was drawn by two layers", hexs(e));
    Ok(())
}
fn fresh_stream(s: &[u8]) -> CaseR {
    count("sessions", 1);
    let new = STREAMS.lock().unwrap().get_or_insert_with(HashSet::new).insert(half(s));
    ensure!(new, "session-key-repeated", "two connections use the same key stream {}", hexs(s));
    Ok(())
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
/// some window of `w` bytes of `pt` appears in `ct`
pub fn leaks(pt: &[u8], ct: &[u8], w: usize) -> Option<usize> {
    if pt.len() < w || ct.len() < w {
        return None;
    }
    // of a long text a sample: what leaks of it is more than one window
    let set: HashSet<&[u8]> = pt.windows(w).step_by(1 + pt.len() / 60_000).collect();
    ct.windows(w).position(|x| set.contains(x))
}

fn c12(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    if c.idx == 0 {
        return processes();
    }
    if c.idx == 1 || c.idx % 25_000 == 24_001 {
        return crowd();
    }
    fp(c.idx % 4);
    match c.idx % 4 {
        1 if c.idx % 12 == 5 => identities(c),
        1 => keys(c),
        2 => sessions(c),
        _ => emitted(c),
    }
}

/// the same program started again must not draw the same keys
fn processes() -> CaseR {
    let exe = std::env::current_exe().map_err(|e| Fail::Setup(e.to_string()))?;
    for probe in ["epk", "fork", "starved", "epk", "fork", "starved"] {
        let o = std::process::Command::new(&exe)
            .args(["--probe", probe])
            .output()
            .map_err(|e| Fail::Setup(e.to_string()))?;
        if !o.status.success() {
            return setup("probe failed");
        }
        let mut k = 0;
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let b: Vec<u8> = (0..l.len() / 2).filter_map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).ok()).collect();
            if b.len() == 32 {
                fresh(&b)?;
                k += 1;
            } else if b.len() == 33 {
                // marked: a random seed, or the signature key of a layer
                once(&b[1..], "random-seed-repeated", "seed or signature key")?;
            }
        }
        if probe == "starved" {
            // how much it still hands out is its business
            if o.stdout.windows(7).any(|w| w == b"starved") {
                count("starved-processes", 1);
            }
        } else if k < 50 {
            return setup("probe printed too little");
        }
        if probe == "fork" {
            count("forks", 1);
        }
        count("processes", 1);
    }
    Ok(())
}

/// so many draws that a generator of 40 bits of state, or less, repeats itself
fn crowd() -> CaseR {
    let seeds = draw(500_000, &|| guard(|| Ok(pkstl::Seed32::random())).map(|s| s.as_ref().to_vec()))?;
    judge(&seeds, 256, "random-seed-repeated", "random-seed-bias", "random seed")?;
    count("crowd-of-seeds", seeds.len() as u64);
    let k = refp::SigKey::new([3; 32]);
    let keys = draw(25_000, &|| {
        let mut n = Node::create("L", Lvl::Min, Default::default(), &k, None)?;
        let f = n.connect(None)?;
        Ok(f.get(18..50).unwrap_or(&[]).to_vec())
    })?;
    judge(&keys, 255, "ephemeral-key-repeated", "ephemeral-key-bias", "ephemeral key")?;
    count("crowd-of-keys", keys.len() as u64);
    Ok(())
}
/// 8 threads draw n each
fn draw(n: usize, f: &(dyn Fn() -> R<Vec<u8>> + Sync)) -> Result<Vec<[u8; 32]>, Fail> {
    let one = || -> Result<Vec<[u8; 32]>, Fail> {
        quiet(true);
        (0..n)
            .map(|_| {
                let mut a = [0u8; 32];
                let v = fl("draw", f())?;
                ensure!(v.len() == 32, "length", "{} bytes instead of 32", v.len());
                a.copy_from_slice(&v);
                Ok(a)
            })
            .collect()
    };
    let parts: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|_| s.spawn(one)).collect();
        h.into_iter().map(|h| h.join()).collect()
    });
    let mut all = vec![];
    for p in parts {
        all.extend(p.map_err(|_| Fail::Setup("a drawing thread panicked".into()))??);
    }
    Ok(all)
}
/// all different, in each quarter too; no bit, and no value of a byte, more frequent than others
fn judge(v: &[[u8; 32]], bits: usize, rep: &'static str, bias: &'static str, what: &str) -> CaseR {
    let n = v.len() as f64;
    for q in 0..4 {
        let mut x: Vec<u64> = v.iter().map(|s| u64::from_be_bytes([s[8 * q], s[8 * q + 1], s[8 * q + 2], s[8 * q + 3], s[8 * q + 4], s[8 * q + 5], s[8 * q + 6], s[8 * q + 7]])).collect();
        x.sort_unstable();
        // 4 million of 2^63: the chance of a single pair is one in a million
        let k = x.windows(2).filter(|w| w[0] == w[1]).count();
        ensure!(k == 0, rep, "bytes {}..{} of {} {}s: {} of them were drawn more than once", 8 * q, 8 * q + 8, v.len(), what, k);
    }
    let mut hist = vec![[0u32; 256]; 32];
    for s in v {
        for (i, b) in s.iter().enumerate() {
            hist[i][*b as usize] += 1;
        }
    }
    for (i, h) in hist.iter().enumerate() {
        for b in 0..8 {
            if 8 * i + b >= bits {
                continue;
            }
            let o: u32 = (0..256).filter(|x| x >> b & 1 == 1).map(|x| h[x]).sum();
            ensure!((f64::from(o) - n / 2.0).abs() < 8.0 * n.sqrt() / 2.0, bias, "bit {} of {}s is set {} times out of {}", 8 * i + b, what, o, v.len());
        }
        let k = if 8 * i + 8 <= bits { 256 } else { 128 };
        let e = n / k as f64;
        for (x, o) in h.iter().take(k).enumerate() {
            ensure!((f64::from(*o) - e).abs() < 9.0 * e.sqrt(), bias, "byte {} of {}s is {} {} times out of {}", i, what, x, o, v.len());
        }
    }
    Ok(())
}

fn keys(c: &mut Ctx) -> CaseR {
    // few different seeds: a key derived from the identity would repeat
    let kind = c.idx % 3;
    let n = if c.idx % 400 == 1 { 2_500 } else { 110 };
    fp(n as u64 + kind);
    quiet(true);
    let mut ones = [0u32; 256];
    for i in 0..n {
        let k = refp::SigKey::new([(i % 3) as u8; 32]);
        let l = if i % 2 == 0 { Lvl::Min } else { Lvl::Cpl };
        let mut node = fl("create", Node::create("L", l, Default::default(), &k, None))?;
        let f = fl("connect", node.connect(None))?;
        ensure!(f.len() >= 50, "ephemeral-key", "no ephemeral key in CONNECT");
        let e = &f[18..50];
        fresh(e)?;
        ensure!(*e != k.pk[..] && *e != k.seed[..], "ephemeral-key", "the ephemeral key is the signature key");
        for (b, o) in ones.iter_mut().enumerate() {
            *o += u32::from(e[b / 8] >> (b % 8) & 1);
        }
    }
    quiet(false);
    if n >= 2_000 {
        // 7 standard deviations around one half; the top bit of an X25519 key is always 0
        let sd = (n as f64).sqrt() / 2.0;
        for (b, o) in ones.iter().enumerate() {
            if b == 255 {
                continue;
            }
            let d = (f64::from(*o) - n as f64 / 2.0).abs();
            ensure!(d < 7.0 * sd, "ephemeral-key-bias", "bit {} of the ephemeral key is set {} times out of {}", b, o, n);
        }
        count("bias-tests", 1);
    }
    Ok(())
}

/// what the library draws when the application leaves it the choice: seeds, and signature keys of layers
fn identities(c: &mut Ctx) -> CaseR {
    let n = if c.idx % 1_200 == 5 { 2_500 } else { c.rng.range(30, 120) };
    fp(n as u64);
    quiet(true);
    let mut ones = [0u32; 256];
    let mut bits = 0;
    for i in 0..n {
        if i % 2 == 0 || c.rng.pct(30) {
            let s = fl("random seed", guard(|| Ok(pkstl::Seed32::random())))?;
            let s = s.as_ref();
            ensure!(s.len() == 32, "random-seed", "a seed of {} bytes", s.len());
            once(s, "random-seed-repeated", "random seed")?;
            // the key it stands for must not be one that a layer drew
            let mut b = [0u8; 32];
            b.copy_from_slice(s);
            once(&refp::SigKey::new(b).pk, "random-seed-repeated", "signature key")?;
            for (b, o) in ones.iter_mut().enumerate() {
                *o += u32::from(s[b / 8] >> (b % 8) & 1);
            }
            bits += 1;
        } else {
            let mut l = fl("create", guard(|| pkstl::SecureLayer::create(Default::default(), None, None)))?;
            let mut w = BufWriter::new(vec![]);
            fl("connect", guard(|| l.write_connect_msg_bin(None, &mut w)))?;
            fl("flush", guard(|| Ok(w.flush().unwrap_or_default())))?;
            let f = w.get_ref();
            ensure!(f.len() >= 86, "short-message", "a CONNECT of {} bytes", f.len());
            fresh(&f[18..50])?;
            once(&f[54..86], "signature-key-repeated", "signature key")?;
        }
    }
    quiet(false);
    if bits >= 1_000 {
        let sd = f64::from(bits).sqrt() / 2.0;
        for (b, o) in ones.iter().enumerate() {
            let d = (f64::from(*o) - f64::from(bits) / 2.0).abs();
            ensure!(d < 7.0 * sd, "random-seed-bias", "bit {} of random seeds is set {} times out of {}", b, o, bits);
        }
        count("bias-tests", 1);
    }
    Ok(())
}
fn once(s: &[u8], sig: &'static str, what: &str) -> CaseR {
    count("identities", 1);
    let new = IDS.lock().unwrap().get_or_insert_with(HashSet::new).insert(half(s));
    ensure!(new, sig, "{} {}.. was drawn twice", what, hexs(&s[..4]));
    Ok(())
}

/// same identities, repeating peer key: still another session every time; and no connection in which
/// key material of another one works
fn sessions(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let real = c.rng.pct(40);
    // minimal encoding: everything before the content is known plaintext
    let known = refp::user_body(0, b"");
    let mut first: Option<(Peer, Vec<u8>)> = None;
    let mut seen: Vec<Vec<u8>> = vec![];
    let rounds = c.rng.range(2, 6);
    fp(rounds as u64 * 4 + u64::from(real) * 2 + l as u64);
    let (ka, kb) = (refp::SigKey::new([1; 32]), refp::SigKey::new([2; 32]));
    let data = content(c, 24);
    if real {
        for _ in 0..rounds {
            let mut a = fl("create", Node::create("A", l, Default::default(), &ka, None))?;
            let mut b = fl("create", Node::create("B", l, Default::default(), &kb, None))?;
            shake(&mut a, &mut b)?;
            fresh(a.epk.as_deref().unwrap_or(&[]))?;
            fresh(b.epk.as_deref().unwrap_or(&[]))?;
            let f = fl("write", a.write(&data))?;
            ensure!(f.len() >= 26, "short-message", "a user message of {} bytes", f.len());
            // number of content bytes is in the header: deflate of equal data is equal
            let body = refp::user_body(0, &wire(l, Some(&data), 0));
            fresh_stream(&xor(&f[..8], &body[..8]).iter().chain(xor(&f[16..26], &known[16..26]).iter()).cloned().collect::<Vec<u8>>())?;
            for g in &seen {
                ensure!(leaks(g, &f, 8).is_none(), "ciphertext-repeated", "two connections produce the same ciphertext");
            }
            seen.push(f);
        }
        return Ok(());
    }
    let mut peer0 = Peer::new(&mut c.rng, l);
    peer0.z = 0;
    for k in 0..rounds {
        let mut p = peer0.clone();
        let mut n = fl("create", Node::create("L", l, Default::default(), &ka, None))?;
        finish_ref(c, &mut n, &mut p)?;
        fresh(n.epk.as_deref().unwrap_or(&[]))?;
        let f = fl("write", n.write(&data))?;
        ensure!(f.len() >= 26, "short-message", "a user message of {} bytes", f.len());
        let body = refp::user_body(0, &wire(l, Some(&data), 0));
        fresh_stream(&xor(&f[..8], &body[..8]).iter().chain(xor(&f[16..26], &known[16..26]).iter()).cloned().collect::<Vec<u8>>())?;
        if let Some((q, g)) = &first {
            ensure!(q.open(&f).is_none(), "session-key-shared", "a user message of connection {} is readable with the session key of connection 0", k);
            ensure!(n.recv(&q.user(0, b"old session")).is_err(), "session-key-shared", "a message under the session key of connection 0 is accepted on connection {}", k);
            ensure!(leaks(g, &f, 8).is_none(), "ciphertext-repeated", "two connections produce the same ciphertext");
        } else {
            // within one connection: two different messages must not use the same key stream
            let d2 = content(c, 24);
            let f2 = fl("write", n.write(&d2))?;
            if f2.len() >= 26 && xor(&f[16..18], &known[16..18]) == xor(&f2[16..18], &known[16..18]) && xor(&f[..8], &f2[..8]) == vec![0; 8] {
                c.also.push(Fail::Bad {
                    sig: "same-session-keystream-reuse".into(),
                    msg: "two user messages of one connection are encrypted with the same key and nonce".into(),
                });
            }
            first = Some((p, f));
        }
        let _ = k;
    }
    Ok(())
}

/// records everything given to it, fails when told to
struct Tap {
    got: Vec<u8>,
    room: usize,
    step: usize,
}
impl Write for Tap {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.room == 0 {
            // even what could not be written was handed out
            self.got.extend_from_slice(b);
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.room).min(self.step);
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn emitted(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let (mut n, p) = with_ref(c, l, conf)?;
    let s = match p.sess.clone() {
        Some(s) => s,
        None => return setup("no session"),
    };
    for i in 0..c.rng.range(1, 6) {
        // rarely very long: encryption must not stop, or start again, somewhere
        let len = match c.idx % 2_000 {
            _ if i > 0 => size(c, 5_000).max(24),
            3 => c.rng.range(2_000_000, 9_000_000),
            k if k % 200 == 102 || k % 200 == 3 => c.rng.range(60_000, 1_600_000),
            _ => size(c, 5_000).max(24),
        };
        let mut d = if c.rng.pct(50) || len > 50_000 { c.rng.bytes(len) } else { content(c, len) };
        // at least one stretch that cannot be guessed
        let t = mix(c.rng.u64() ^ i as u64);
        d[8..16].copy_from_slice(&t.to_be_bytes());
        let t = mix(t);
        d[16..24].copy_from_slice(&t.to_be_bytes());
        fp(d.len() as u64);
        let last = c.rng.pct(25);
        let emitted: Vec<u8> = if last {
            let room = c.rng.below(d.len() + 80);
            let step = c.rng.range(1, 400);
            let cap = *c.rng.pick(&[0usize, 1, 32, 200, 8192]);
            let mut w = BufWriter::with_capacity(cap, Tap { got: vec![], room, step });
            let _ = n.write_to(&d, &mut w);
            let _ = w.flush();
            let buf = w.buffer().to_vec();
            let mut g = w.get_ref().got.clone();
            g.extend(buf);
            std::mem::forget(w);
            g
        } else {
            fl("write", n.write(&d))?
        };
        count("emitted-searched", 1);
        ensure!(leaks(&d[8..24], &emitted, 8).is_none(), "user-data-in-clear", "{} of {} bytes of a user message are in the output in clear", "8 or more", d.len());
        if let Some(k) = leaks(&d, &emitted, 12) {
            // constant content may coincide only if the output has a constant stretch itself
            return bad("user-data-in-clear", format!("12 bytes of the user message are in the output in clear, at {}", k));
        }
        if !last {
            match s.open(&emitted) {
                Some(pt) => {
                    ensure!(leaks(&pt, &emitted, 8).is_none(), "plaintext-in-clear", "8 bytes of the message before encryption are in the output");
                }
                // not readable by the independent implementation: at least it must look random
                None => ensure!(leaks(&refp::hashed(&refp::user_body(i as u64, &d)), &emitted, 8).is_none(), "plaintext-in-clear", "8 bytes of the message before encryption are in the output"),
            }
            // constant payload: the ciphertext must not show it
            let z = vec![0x41u8; 300];
            if i == 0 {
                let f = fl("write", n.write(&z))?;
                let mut hist = [0u32; 256];
                for b in &f {
                    hist[*b as usize] += 1;
                }
                if l == Lvl::Min {
                    // 374 random bytes: some value 20 times has probability below 1e-12
                    ensure!(hist.iter().all(|h| *h < 20), "ciphertext-not-random", "encrypting 300 equal bytes gives a repeated byte value");
                    let w: HashSet<&[u8]> = f.windows(6).collect();
                    ensure!(w.len() == f.len() - 5, "ciphertext-not-random", "encrypting 300 equal bytes gives a repeating pattern");
                }
            }
        } else {
            break;
        }
    }
    // refused writes emit nothing of the data
    let k = sigkey(&mut c.rng);
    let mut m = fl("create", Node::create("M", l, conf, &k, None))?;
    let d = c.rng.bytes(64);
    let mut w = BufWriter::with_capacity(16, Tap { got: vec![], room: 10_000, step: 64 });
    if c.rng.pct(50) {
        fl("connect", m.connect(None))?;
    }
    let r = m.write_to(&d, &mut w);
    let _ = w.flush();
    ensure!(leaks(&d, &w.get_ref().got, 8).is_none(), "user-data-in-clear", "a write before the end of the negotiation ({}) emits user data", r.is_ok());
    Ok(())
}
