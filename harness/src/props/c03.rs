//! C03: a delivered user message is exactly one the other end sent here.
use crate::ensure;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;
use std::collections::HashSet;

pub static P: Prop = Prop {
    id: "C03",
    f: case,
    quick: 20_000,
    thorough: 600_000,
    rule: "authentic user messages of two real layers (or of the reference peer) are damaged: every bit of small ones, random bits, cuts, extensions, splices of two, foreign sessions, in clear, wrong types, hashes and length fields wrong under a valid encryption, negotiation messages encrypted, own messages reflected; each is given to a fresh clone and some to the layer itself; in between the authentic ones must arrive intact; non-trivial: at least one damaged message was refused; distinct: by kinds and positions of damage",
    assumptions: &["ChaCha20-Poly1305 and SHA-256 are not broken"],
    setup_is_bad: false,
    floors: &[("damaged-fed", 100_000), ("authentic-delivered", 2000), ("forged-before-the-end", 500)],
    level: "exploration",
};

/// feed to a clone (every damaged message may fail the connection it is given to)
fn must_refuse(n: &mut Node, what: &str, f: &[u8]) -> CaseR {
    let mut k = fl("clone", n.try_clone())?;
    must_refuse_on(&mut k, what, f)
}
fn must_refuse_on(k: &mut Node, what: &str, f: &[u8]) -> CaseR {
    count("damaged-fed", 1);
    match k.recv(f) {
        Err(f) if f.is_panic() => bad("panic", format!("{}: {}", what, f.show())),
        Err(_) => Ok(()),
        Ok(e) if e.is_empty() => bad("accepted-silently", format!("{}: not refused with an error", what)),
        Ok(e) => bad("delivered-not-sent", format!("{}: delivered {}", what, shorts(&e))),
    }
}

fn case(c: &mut Ctx) -> CaseR {
    match c.idx % 6 {
        0 => every_bit(c),
        1 | 2 => real_traffic(c),
        3 => hostile_plaintext(c),
        4 => before_negotiation(c),
        _ => reflection(c),
    }
}

fn every_bit(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let (mut a, mut b) = real_pair(c, l, l, conf, conf)?;
    let n = c.rng.below(12);
    let d = content(c, n);
    let f = fl("write", b.write(&d))?;
    quiet(true);
    for i in 0..f.len() * 8 {
        let mut g = f.clone();
        g[i / 8] ^= 1 << (i % 8);
        must_refuse(&mut a, &format!("bit {} of a {}-byte user message flipped", i, f.len()), &g)?;
    }
    for i in 0..f.len() {
        must_refuse(&mut a, &format!("cut to {} of {} bytes", i, f.len()), &f[..i])?;
        must_refuse(&mut a, &format!("first {} bytes missing", i + 1), &f[i + 1..])?;
    }
    quiet(false);
    log(|| format!("all {} single-bit damages, cuts and missing beginnings refused", f.len() * 10));
    fp(f.len() as u64 ^ (l as u64) << 30);
    let e = a.recv(&f).or_else(|x| bad("authentic-refused", x.show()))?;
    ensure!(e.len() == 1 && matches!(&e[0], Ev::Msg { data } if same_data(l, data, &d)), "not-intact", "got {}", shorts(&e));
    count("authentic-delivered", 1);
    c.nontrivial = true;
    Ok(())
}

fn damage(c: &mut Ctx, pool: &[Vec<u8>], foreign: &[Vec<u8>]) -> (Vec<u8>, String) {
    let f = c.rng.pick(pool).clone();
    let g = c.rng.pick(pool).clone();
    let n = f.len();
    match c.rng.below(13) {
        0 | 1 => {
            let mut f = f;
            let b = c.rng.below(n * 8);
            f[b / 8] ^= 1 << (b % 8);
            (f, format!("bit {} flipped", b))
        }
        2 => {
            // damage near the end (tag, hash) or the beginning
            let mut f = f;
            let w = n.min(70);
            let b = if c.rng.pct(50) { c.rng.below(w * 8) } else { (n - w) * 8 + c.rng.below(w * 8) };
            f[b / 8] ^= 1 << (b % 8);
            (f, format!("bit {} flipped", b))
        }
        3 => {
            let k = if c.rng.pct(50) { n.saturating_sub(c.rng.range(1, 60)) } else { c.rng.below(n) };
            (f[..k].to_vec(), format!("cut to {}", k))
        }
        4 => {
            let k = c.rng.range(1, 60);
            let x = if c.rng.pct(50) { vec![0; k] } else { c.rng.bytes(k) };
            ([f, x].concat(), format!("{} bytes appended", k))
        }
        5 => {
            let k = c.rng.below(n.min(g.len()) + 1);
            ([&f[..k], &g[k..]].concat(), format!("spliced at {}", k))
        }
        6 => {
            // body of one, tag of the other
            let t = g.len() - 16;
            ([&f[..n - 16], &g[t..]].concat(), "tag of another message".into())
        }
        7 => ([&f[..], &g[..]].concat(), "two messages glued".into()),
        8 => (c.rng.pick(foreign).clone(), "from another connection".into()),
        9 => {
            let mut f = f;
            let i = c.rng.below(n);
            let j = c.rng.below(n);
            f.swap(i, j);
            (f, format!("bytes {} and {} exchanged", i, j))
        }
        10 => {
            // xor of two ciphertexts' difference (key stream reuse makes this a meaningful plaintext)
            let k = n.min(g.len());
            let mut f2 = f.clone();
            for i in 16..k.saturating_sub(16) {
                f2[i] = g[i];
            }
            (f2, "inner part taken from another message".into())
        }
        11 => {
            let k = c.rng.range(1, n);
            let mut f = f;
            let x = c.rng.bytes(k);
            let at = n - k;
            f[at..].copy_from_slice(&x);
            (f, format!("last {} bytes random", k))
        }
        _ => {
            let k = c.rng.range(17, 200);
            (c.rng.bytes(k), "random".into())
        }
    }
}

fn real_traffic(c: &mut Ctx) -> CaseR {
    let (la, lb) = {
        let l = lvl(&mut c.rng);
        (l, l)
    };
    let (ca, cb) = (cfg(c), cfg(c));
    let (mut a, mut b) = real_pair(c, la, lb, ca, cb)?;
    let (_x, mut y) = real_pair(c, la, lb, ca, cb)?;
    let mx = if c.rng.pct(10) { 100_000 } else { 1500 };
    let mut pool = vec![];
    let mut sent = vec![];
    let mut foreign = vec![];
    for k in 0..c.rng.range(2, 6) as u64 {
        let d = tagged(c, k, mx);
        pool.push(fl("write", b.write(&d))?);
        sent.push(d.clone());
        foreign.push(fl("write", y.write(&d))?);
    }
    let all: HashSet<Vec<u8>> = pool.iter().cloned().collect();
    let mut order: Vec<usize> = (0..pool.len()).collect();
    c.rng.shuffle(&mut order);
    for i in order {
        for _ in 0..c.rng.range(1, 30) {
            let (g, what) = damage(c, &pool, &foreign);
            if all.contains(&g) {
                continue;
            }
            fp(g.len() as u64 ^ crate::rng::mix(what.len() as u64));
            must_refuse(&mut a, &what, &g)?;
        }
        let e = a.recv(&pool[i]).or_else(|x| bad("authentic-refused", x.show()))?;
        ensure!(e.len() == 1 && matches!(&e[0], Ev::Msg { data } if same_data(la, data, &sent[i])), "not-intact", "message {} of {}B: got {}", i, sent[i].len(), shorts(&e));
        count("authentic-delivered", 1);
    }
    // damage to the layer itself: refused, and nothing appears afterwards
    let (g, what) = damage(c, &pool, &foreign);
    if !all.contains(&g) {
        must_refuse_on(&mut a, &what, &g)?;
    }
    c.nontrivial = true;
    Ok(())
}

/// correctly encrypted under the session key, but not what a user message is
fn hostile_plaintext(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (mut n, p) = with_ref(c, l, Default::default())?;
    let s = p.sess.clone().unwrap();
    let epk = n.epk.clone().unwrap();
    for _ in 0..40 {
        let d = tagged(c, 0, 200);
        let w = wire(l, Some(&d), p.z);
        let nonce = if c.rng.pct(70) { 0 } else { c.rng.u64() % 9 };
        let body = refp::user_body(nonce, &w);
        let good = refp::hashed(&body);
        let h = good.len() - 32;
        let k = c.rng.below(14);
        fp(k as u64 ^ (w.len() as u64) << 8);
        let (pt, what): (Vec<u8>, &str) = match k {
            0 => {
                let mut g = good.clone();
                near_miss(&mut c.rng, &mut g[h..]);
                (g, "hash that is almost right")
            }
            1 => (good[..h].to_vec(), "no hash"),
            2 => {
                let k = c.rng.range(1, 31);
                (good[..h + k].to_vec(), "hash cut short")
            }
            3 => {
                let k = c.rng.range(1, 33);
                let x = c.rng.bytes(k);
                ([good.clone(), x].concat(), "bytes after the hash")
            }
            4 => ([body.clone(), vec![0u8; 32]].concat(), "zero hash"),
            5 => {
                let x = refp::sha256(&w);
                ([body.clone(), x].concat(), "hash of the data only")
            }
            6 => {
                let x = refp::sha256(&body[16..]);
                ([body.clone(), x].concat(), "hash without the header")
            }
            7 => {
                // length field wrong, hash recomputed over everything before it
                let mut b = body.clone();
                let len = (b.len() - 16) as u64;
                let l2 = *c.rng.pick(&[len - 1, len + 1, len + 31, len + 32, len + 33, 0, 1, 2, 9, 10, u64::MAX, 1 << 63]);
                b[8..16].copy_from_slice(&l2.to_be_bytes());
                (refp::hashed(&b), "length field wrong")
            }
            8 => {
                // data changed, hash kept
                let mut g = good.clone();
                if w.is_empty() {
                    continue;
                }
                let b = 26 * 8 + c.rng.below(w.len() * 8);
                g[b / 8] ^= 1 << (b % 8);
                (g, "data changed under the old hash")
            }
            9 => {
                // number changed, hash kept
                let mut g = good.clone();
                g[25] ^= 1 << c.rng.below(8);
                (g, "number changed under the old hash")
            }
            10 => (refp::connect(&p.ek.pk, &p.key, &w), "encrypted CONNECT"),
            11 => (refp::ack(&epk, &p.key, &w), "encrypted ACK"),
            12 => {
                let mut b = body.clone();
                b[17] = c.rng.range(3, 255) as u8;
                (refp::hashed(&b), "unknown type")
            }
            _ => {
                let mut b = body.clone();
                b[c.rng.range(0, 7)] ^= 1 << c.rng.below(8);
                (refp::hashed(&b), "magic or version changed")
            }
        };
        must_refuse(&mut n, what, &s.seal(&pt))?;
        if c.rng.pct(30) {
            // the same in clear, and the authentic one in clear
            must_refuse(&mut n, "in clear", &pt)?;
            must_refuse(&mut n, "authentic message in clear", &good)?;
        }
        if c.rng.pct(30) {
            // wrong key material: other key, nonce or additional data
            let mut s2 = s.clone();
            let b = c.rng.below(48 * 8);
            s2.seed[b / 8] ^= 1 << (b % 8);
            must_refuse(&mut n, "other session key", &s2.seal(&good))?;
        }
    }
    let d = tagged(c, 1, 100);
    let e = n.recv(&p.user(0, &d)).or_else(|x| bad("authentic-refused", x.show()))?;
    ensure!(e == vec![Ev::Msg { data: Some(d) }], "not-intact", "got {}", shorts(&e));
    count("authentic-delivered", 1);
    c.nontrivial = true;
    Ok(())
}

/// user messages while the negotiation is going on: damaged ones never surface later
fn before_negotiation(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, None))?;
    let f = fl("connect", n.connect(None))?;
    if !p.learn(&f) {
        return setup("reference cannot read CONNECT");
    }
    fl("recv connect", n.recv(&p.connect(None)))?;
    fl("ack", n.ack(None))?;
    let s = p.sess.clone().unwrap();
    let mut want = vec![];
    let k = c.rng.range(1, 6) as u64;
    for i in 0..k {
        let d = tagged(c, i, 60);
        let fr = p.user(i, &d);
        // damaged under valid encryption, so that the connection survives
        if c.rng.pct(60) {
            let mut g = refp::hashed(&refp::user_body(i, &wire(l, Some(b"forged"), 1)));
            let h = g.len() - 32;
            near_miss(&mut c.rng, &mut g[h..]);
            count("damaged-fed", 1);
            match n.recv(&s.seal(&g)) {
                Ok(e) => ensure!(e.is_empty(), "delivered-not-sent", "early, bad hash: {}", shorts(&e)),
                Err(f) if f.is_panic() => return bad("panic", f.show()),
                Err(_) => (),
            }
            fp(1);
        }
        fp(2);
        match n.recv(&fr) {
            Ok(e) => ensure!(e.is_empty(), "delivered-early", "{}", shorts(&e)),
            Err(f) => return bad("authentic-refused", f.show()),
        }
        want.push(d);
    }
    // forged ones that nothing vouches for: in clear, under another key, cut (which may well end
    // the connection, now or when the ACK comes)
    if c.rng.pct(40) {
        for _ in 0..c.rng.range(1, 3) {
            let w = wire(l, Some(b"forged"), c.rng.below(3) as u32);
            let i = if c.rng.pct(50) { k } else { c.rng.below(3) as u64 };
            let h = refp::hashed(&refp::user_body(i, &w));
            let g = match c.rng.below(6) {
                0 | 1 => h,
                2 => refp::user_body(i, &w),
                3 => refp::signed(&refp::user_body(i, &w), &sigkey(&mut c.rng)),
                4 => {
                    let mut s2 = s.clone();
                    let b = c.rng.below(48 * 8);
                    s2.seed[b / 8] ^= 1 << (b % 8);
                    s2.seal(&h)
                }
                _ => {
                    let mut g = s.seal(&h);
                    let b = c.rng.below(g.len() * 8);
                    g[b / 8] ^= 1 << (b % 8);
                    g
                }
            };
            count("damaged-fed", 1);
            count("forged-before-the-end", 1);
            fp(g.len() as u64);
            match n.recv(&g) {
                Ok(e) => ensure!(e.is_empty(), "delivered-not-sent", "early, forged: {}", shorts(&e)),
                Err(f) if f.is_panic() => return bad("panic", f.show()),
                Err(_) => (),
            }
        }
    }
    let e = match n.recv(&p.ack(None)) {
        Ok(e) => e,
        Err(f) if f.is_panic() => return bad("panic", f.show()),
        // losing the early messages is for C06 to judge; here only deliveries count
        Err(_) => vec![],
    };
    for d in delivered(&e) {
        ensure!(want.contains(&norm(&d)), "delivered-not-sent", "delivered {}", shorto(&d));
        count("authentic-delivered", 1);
    }
    c.nontrivial = true;
    Ok(())
}

/// a layer's own user messages come back to it
fn reflection(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (mut a, mut b) = real_pair(c, l, l, Default::default(), Default::default())?;
    let nb = c.rng.below(3) as u64;
    for k in 0..nb {
        let d = tagged(c, k, 30);
        let f = fl("write", b.write(&d))?;
        let e = a.recv(&f).or_else(|x| bad("authentic-refused", x.show()))?;
        ensure!(e == vec![Ev::Msg { data: Some(d) }], "not-intact", "got {}", shorts(&e));
        count("authentic-delivered", 1);
    }
    let d = tagged(c, 9, 30);
    let mut f = fl("write", a.write(&d))?;
    for _ in 0..nb {
        f = fl("write", a.write(&d))?;
    }
    fp(0x4ef ^ nb ^ (l as u64) << 8);
    c.nontrivial = true;
    count("damaged-fed", 1);
    match a.recv(&f) {
        Ok(e) if !e.is_empty() => bad(
            "reflected-own-user-message-delivered",
            format!("own user message number {} reflected: delivered {}", nb, shorts(&e)),
        ),
        Err(f) if f.is_panic() => bad("panic", f.show()),
        _ => Ok(()),
    }
}
