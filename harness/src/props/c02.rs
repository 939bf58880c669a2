//! C02: only the holder of the expected or reported key can complete a handshake.
use crate::ensure;
use crate::model::low_order;
use crate::node::*;
use crate::refp::{self, EKey, Parsed, SigKey};
use crate::run::*;
use crate::util::*;

pub static P: Prop = Prop {
    id: "C02",
    f: case,
    quick: 100_000,
    thorough: 3_000_000,
    rule: "single-bit and structural damage to authentic CONNECT/ACK messages, wrong expected keys (one bit, shorter, longer, empty), and random attacker programs that mix, splice, forge, replay from other connections and reflect; the attacker owns a key pair of its own and knows everything but the private keys of the honest parties; non-trivial: at least one hostile message reached the layer; distinct: by attack and outcome sequence",
    assumptions: &["Ed25519, X25519, SHA-256 and ChaCha20-Poly1305 are not broken"],
    setup_is_bad: false,
    floors: &[("hostile-messages", 5000), ("hostile-accepted-by-right", 20)],
    level: "exploration",
};

/// may a layer with this ephemeral key and pin accept this CONNECT? (decided without the library)
fn may_connect(frame: &[u8], pin: &Option<Vec<u8>>, own_epk: Option<&Vec<u8>>) -> Option<Vec<u8>> {
    match refp::parse(frame) {
        Some(Parsed::Connect { epk, pk, sig_ok: true, .. })
            if pin.as_ref().map_or(true, |p| *p == pk) && own_epk != Some(&epk) =>
        {
            Some(pk)
        }
        _ => None,
    }
}
fn may_ack(frame: &[u8], key: &[u8], own_epk: &[u8]) -> bool {
    match refp::parse(frame) {
        Some(Parsed::Ack { challenge, signed, sig, .. }) => {
            challenge == refp::sha256(own_epk) && refp::verify(key, &signed, &sig)
        }
        _ => false,
    }
}

fn no_session(n: &mut Node) -> CaseR {
    match n.try_clone() {
        Err(f) if !f.is_panic() => (),
        Err(f) => return bad("panic", f.show()),
        Ok(_) => return bad("completed", "the negotiation completed (the layer can be cloned)"),
    }
    match n.write(b"secret for the expected peer") {
        Err(f) if !f.is_panic() => Ok(()),
        Err(f) => bad("panic", f.show()),
        Ok(_) => bad("completed", "a user message could be written"),
    }
}

fn case(c: &mut Ctx) -> CaseR {
    match c.idx % 8 {
        0 => damage_connect(c),
        1 => damage_ack(c),
        2 => wrong_pin(c),
        3 => reflect(c),
        _ => attacker(c),
    }
}

fn mutate(c: &mut Ctx, f: &mut Vec<u8>) -> u64 {
    let n = f.len();
    if n < 82 {
        f.push(0);
        return 50_000;
    }
    match c.rng.below(10) {
        0..=5 => {
            let b = if n > 1_000 { c.rng.below(n * 8) } else { (c.idx as usize / 8 * 37 + c.rng.below(3)) % (n * 8) };
            f[b / 8] ^= 1 << (b % 8);
            b as u64
        }
        6 => {
            let k = c.rng.below(n);
            f.truncate(k);
            10_000 + k as u64
        }
        7 => {
            let k = c.rng.range(1, 70);
            let x = c.rng.bytes(k);
            f.extend_from_slice(&x);
            20_000 + k as u64
        }
        8 => {
            // another length field
            let l = *c.rng.pick(&[0u64, 1, 2, 34, 69, 70, 71, 74, (n - 16) as u64, (n - 15) as u64, 1 << 32, u64::MAX, u64::MAX - 15]);
            f[8..16].copy_from_slice(&l.to_be_bytes());
            30_000 + l % 1000
        }
        _ => {
            // move bytes between the signed part and the signature
            let l = (n - 64 - 16) as u64;
            let d = c.rng.range(1, 8) as u64;
            let l2 = if c.rng.pct(50) { l.wrapping_add(d) } else { l.wrapping_sub(d) };
            f[8..16].copy_from_slice(&l2.to_be_bytes());
            40_000 + d
        }
    }
}

/// mostly small custom data, some beyond every block size
fn some_len(c: &mut Ctx, usual: usize) -> usize {
    match c.rng.below(60) {
        0 => c.rng.range(60_000, 300_000),
        1 | 2 => c.rng.range(1_000, 20_000),
        _ => c.rng.below(usual),
    }
}

fn damage_connect(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, pin.clone()))?;
    if c.rng.pct(50) {
        fl("connect", n.connect(None))?;
    }
    let d = { let k = some_len(c, 60); c.rng.bytes(k) };
    let data = if d.is_empty() { None } else { Some(&d[..]) };
    let good = if c.rng.pct(40) {
        // as another layer emits it
        fl("connect", fl("create", Node::create("B", l, cfg(c), &p.key, None))?.connect(data))?
    } else {
        p.connect(data)
    };
    let mut f = good.clone();
    let m = mutate(c, &mut f);
    fp(m ^ (l as u64) << 50);
    if f == good {
        return Ok(());
    }
    count("hostile-messages", 1);
    let may = may_connect(&f, &pin, n.epk.as_ref());
    let r = n.recv(&f);
    c.nontrivial = true;
    match r {
        Ok(ev) if !ev.is_empty() => {
            ensure!(may.is_some(), "forged-connect-accepted", "damaged CONNECT accepted: {}", shorts(&ev));
        }
        Err(f) if f.is_panic() => return bad("panic", f.show()),
        _ => (),
    }
    if may.is_none() {
        no_session(&mut n)?;
    }
    Ok(())
}

fn damage_ack(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = if c.rng.pct(50) { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, pin.clone()))?;
    let my_connect = fl("connect", n.connect(None))?;
    if !p.learn(&my_connect) {
        return setup("reference cannot read CONNECT");
    }
    let early = c.rng.pct(30);
    let acked = c.rng.pct(50);
    if !early {
        fl("recv connect", n.recv(&p.connect(None)))?;
        if acked {
            fl("ack", n.ack(None))?;
        }
    }
    let mal = sigkey(&mut c.rng);
    let epk = n.epk.clone().unwrap_or_default();
    let d = { let k = some_len(c, 40); c.rng.bytes(k) };
    let w = wire(l, if d.is_empty() { None } else { Some(&d) }, 6);
    let kind = c.rng.below(8);
    let mut f = refp::signed(&refp::ack_body(&epk, &w), &p.key);
    if kind < 3 && c.rng.pct(50) {
        // as another layer emits it
        let mut b = fl("create", Node::create("B", l, cfg(c), &p.key, None))?;
        fl("recv connect", b.recv(&my_connect))?;
        f = fl("ack", b.ack(if d.is_empty() { None } else { Some(&d) }))?;
    }
    let mut m = kind as u64;
    match kind {
        0..=2 => {
            let good = f.clone();
            m ^= mutate(c, &mut f) << 4;
            if f == good {
                return Ok(());
            }
        }
        3 => f = refp::signed(&refp::ack_body(&epk, &w), &mal),
        4 => f = refp::signed(&refp::ack_body(&p.ek.pk, &w), &p.key),
        5 | 6 => {
            // the right signer, a challenge that is right in most places
            let mut b = refp::ack_body(&epk, &w);
            let k = (c.idx / 8) as usize * 41 % 256;
            match c.rng.below(4) {
                0 => {
                    let z = c.rng.range(1, 31);
                    let from = if c.rng.pct(50) { 18 } else { 50 - z };
                    for x in &mut b[from..from + z] {
                        *x = 0;
                    }
                    m ^= (z as u64) << 8 ^ (from as u64) << 16;
                }
                1 => near_miss(&mut c.rng, &mut b[18..50]),
                _ => {
                    b[18 + k / 8] ^= 1 << (k % 8);
                    m ^= (k as u64) << 8;
                }
            }
            f = refp::signed(&b, &p.key);
        }
        _ => {
            let other = ekey(&mut c.rng);
            f = refp::signed(&refp::ack_body(&other.pk, &w), &p.key)
        }
    }
    fp(m ^ u64::from(early) << 50 ^ u64::from(acked) << 51 ^ (l as u64) << 52);
    count("hostile-messages", 1);
    c.nontrivial = true;
    let may = may_ack(&f, &p.key.pk, &epk);
    let mut evs = match n.recv(&f) {
        Ok(e) => e,
        Err(f) if f.is_panic() => return bad("panic", f.show()),
        Err(_) => vec![],
    };
    if early {
        if let Ok(e) = n.recv(&p.connect(None)) {
            evs.extend(e);
        }
        if let Ok(e) = n.take_ack() {
            evs.extend(e);
        }
    }
    let acks = evs.iter().filter(|e| e.kind() == 2).count();
    ensure!(may || acks == 0, "forged-ack-accepted", "ACK (attack {}) accepted: {}", kind, shorts(&evs));
    if !may {
        no_session(&mut n)?;
    }
    Ok(())
}

fn wrong_pin(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let mut pin = p.key.pk.clone();
    let kind = (c.idx / 8) % 10;
    match kind {
        0..=4 => {
            if c.rng.pct(50) {
                let b = (c.idx / 8) as usize % 256;
                pin[b / 8] ^= 1 << (b % 8);
            } else {
                near_miss(&mut c.rng, &mut pin);
            }
        }
        5 => {
            let k = c.rng.below(32);
            pin.truncate(k)
        }
        6 => {
            let k = c.rng.range(1, 40);
            let x = c.rng.bytes(k);
            pin.extend_from_slice(&x)
        }
        7 => pin.clear(),
        8 => pin = sigkey(&mut c.rng).pk,
        _ => pin = p.key.pk.iter().rev().cloned().collect(),
    }
    if pin == p.key.pk {
        return Ok(());
    }
    fp(kind << 32 ^ pin.len() as u64 ^ (c.idx / 8 % 256) << 8 ^ (l as u64) << 60);
    let mut n = match Node::create("L", l, Default::default(), &nk, Some(pin.clone())) {
        Ok(n) => n,
        Err(f) if f.is_panic() => return bad("panic", f.show()),
        Err(_) => return Ok(()),
    };
    let early = c.rng.pct(50);
    let f = fl("connect", n.connect(None))?;
    if !p.learn(&f) {
        return setup("reference cannot read CONNECT");
    }
    let mut evs = vec![];
    let mut feed = |n: &mut Node, f: &[u8]| -> CaseR {
        match n.recv(f) {
            Ok(e) => {
                evs.extend(e);
                Ok(())
            }
            Err(f) if f.is_panic() => bad("panic", f.show()),
            Err(_) => Ok(()),
        }
    };
    if early {
        feed(&mut n, &p.ack(None))?;
    }
    for _ in 0..c.rng.range(1, 3) {
        feed(&mut n, &p.connect(None))?;
    }
    let _ = n.ack(None);
    feed(&mut n, &p.ack(None))?;
    feed(&mut n, &p.user(0, b"hello"))?;
    count("hostile-messages", 4);
    c.nontrivial = true;
    ensure!(evs.is_empty(), "wrong-key-accepted", "expected key {}, peer has {}: {}", hexall(&pin), hexall(&p.key.pk), shorts(&evs));
    no_session(&mut n)
}

/// everything the layer says is sent back to it
fn reflect(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let nk = sigkey(&mut c.rng);
    let p = Peer::new(&mut c.rng, l);
    let pin = match c.rng.below(3) {
        0 => None,
        1 => Some(nk.pk.clone()),
        _ => Some(p.key.pk.clone()),
    };
    fp(0x7ef ^ pin.as_ref().map_or(0, |p| u64::from(p[0])) ^ (l as u64) << 20);
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, pin.clone()))?;
    let d = custom(c, 30);
    let f = fl("connect", n.connect(d.as_deref()))?;
    let mut evs = vec![];
    let mut frames = vec![f];
    // also somebody else signing the layer's own ephemeral key, and a re-signed copy of its CONNECT
    let epk = n.epk.clone().unwrap_or_default();
    let mal = sigkey(&mut c.rng);
    let k = c.rng.below(3);
    if k == 1 {
        frames.push(refp::connect(&epk, &mal, b""));
    }
    let mut i = 0;
    let mut acked = false;
    for _ in 0..6 {
        let f = frames[i % frames.len()].clone();
        i += 1;
        match n.recv(&f) {
            Ok(e) => evs.extend(e),
            Err(f) if f.is_panic() => return bad("panic", f.show()),
            Err(_) => (),
        }
        count("hostile-messages", 1);
        if !acked {
            if let Ok(f) = n.ack(None) {
                acked = true;
                frames.push(f);
                i = frames.len() - 1;
            }
        }
    }
    fp(k as u64);
    c.nontrivial = true;
    let bad_evs: Vec<&Ev> = evs.iter().collect();
    ensure!(bad_evs.is_empty(), "reflection-accepted", "the layer accepted its own messages: {}", shorts(&evs));
    no_session(&mut n)
}

/// random attacker programs
fn attacker(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let p = Peer::new(&mut c.rng, l); // honest party P, never answers this layer
    let m_key = sigkey(&mut c.rng);
    let m_ek = ekey(&mut c.rng);
    let nk = sigkey(&mut c.rng);
    let pinned = c.rng.pct(60);
    let pin = if pinned { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, Default::default(), &nk, pin.clone()))?;
    // material from other connections of P: its CONNECT with another ephemeral key, its ACK to
    // another layer; and from another connection of this layer's owner
    let pe2 = ekey(&mut c.rng);
    let other_layer_e = ekey(&mut c.rng);
    let mut pool: Vec<Vec<u8>> = vec![
        p.connect(Some(b"to someone else")),
        refp::connect(&pe2.pk, &p.key, &wire(l, Some(b"old"), 6)),
        refp::ack(&other_layer_e.pk, &p.key, &[]),
        refp::ack(&p.ek.pk, &p.key, &[]),
        refp::connect(&other_layer_e.pk, &nk, &[]),
        refp::ack(&p.ek.pk, &nk, &[]),
    ];
    let mut evs: Vec<Ev> = vec![];
    let mut fed: Vec<Vec<u8>> = vec![];
    let mut told_key: Option<Vec<u8>> = None;
    let mut own: Vec<Vec<u8>> = vec![];
    let steps = c.rng.range(3, 12);
    for _ in 0..steps {
        match c.rng.below(10) {
            0 => {
                let d = custom(c, 20);
                if let Ok(f) = n.connect(d.as_deref()) {
                    own.push(f.clone());
                    pool.push(f);
                }
                continue;
            }
            1 => {
                if let Ok(f) = n.ack(None) {
                    own.push(f.clone());
                    pool.push(f);
                }
                continue;
            }
            2 if l == Lvl::Min => {
                let r = n.take_ack();
                log(|| format!("attacker round: {:?}", r.is_ok()));
                if let Ok(e) = r {
                    evs.extend(e);
                }
                let r = n.drain();
                if let Ok(e) = r {
                    evs.extend(e);
                }
            }
            _ => {
                let f = hostile(c, l, &p, &m_key, &m_ek, &n, &pool, &nk);
                count("hostile-messages", 1);
                c.nontrivial = true;
                fed.push(f.clone());
                if c.rng.pct(30) {
                    pool.push(f.clone());
                }
                match n.recv(&f) {
                    Ok(e) => {
                        fp(e.iter().map(|e| e.kind()).sum::<u64>());
                        evs.extend(e)
                    }
                    Err(f) if f.is_panic() => return bad("panic", f.show()),
                    Err(_) => fp(99),
                }
            }
        }
    }
    let own_epk = n.epk.clone();
    let mut acks = 0;
    for e in &evs {
        match e {
            Ev::Connect { pk, .. } => {
                let ok = fed.iter().any(|f| {
                    may_connect(f, &pin, own_epk.as_ref()).as_ref() == Some(pk)
                });
                ensure!(ok, "forged-connect-accepted", "CONNECT of {} reported, but no message fed was signed by it and acceptable", hexall(pk));
                ensure!(told_key.is_none(), "two-peers", "two CONNECT accepted");
                told_key = Some(pk.clone());
                count("hostile-accepted-by-right", 1);
            }
            Ev::Ack { .. } => acks += 1,
            Ev::Msg { .. } => {
                // only if the attacker negotiated under its own name
                ensure!(told_key.as_ref() == Some(&m_key.pk) && acks > 0, "message-without-peer", "a user message was delivered: {}", shorts(&evs));
            }
        }
    }
    if acks > 0 {
        let key = told_key.clone().or(pin.clone()).unwrap_or_default();
        let e = own_epk.clone().unwrap_or_default();
        ensure!(fed.iter().any(|f| may_ack(f, &key, &e)), "forged-ack-accepted", "ACK accepted, but none of the fed ones is signed by the reported key and answers this layer");
    }
    if told_key.as_ref() != Some(&m_key.pk) {
        no_session(&mut n)?;
    }
    Ok(())
}

fn hostile(c: &mut Ctx, l: Lvl, p: &Peer, mk: &SigKey, me: &EKey, n: &Node, pool: &[Vec<u8>], nk: &SigKey) -> Vec<u8> {
    let own = n.epk.clone().unwrap_or_else(|| vec![7; 32]);
    let k = c.rng.below(22);
    fp(1000 + k as u64);
    let custom = wire(l, Some(b"attack"), 1);
    match k {
        0..=3 => c.rng.pick(pool).clone(),
        4 => refp::connect(&me.pk, mk, &custom),
        5 => {
            // P's name, attacker's signature and ephemeral key
            let b = refp::connect_body(&me.pk, &p.key.pk, &custom);
            refp::signed(&b, mk)
        }
        6 => {
            // body of one message, signature of another
            let a = c.rng.pick(pool).clone();
            let b = c.rng.pick(pool).clone();
            let na = a.len().saturating_sub(64);
            let nb = b.len().saturating_sub(64);
            [&a[..na], &b[nb..]].concat()
        }
        7 => {
            // P's CONNECT with the ephemeral key exchanged
            let mut f = p.connect(None);
            f[18..50].copy_from_slice(&me.pk);
            f
        }
        8 => refp::ack(&own, mk, &[]),
        9 => refp::ack(&own, mk, &custom),
        10 => {
            let mut f = refp::ack(&p.ek.pk, &p.key, &[]);
            f[18..50].copy_from_slice(&refp::sha256(&own));
            f
        }
        11 => {
            let b = refp::ack_body(&own, &[]);
            let s = c.rng.bytes(64);
            [b, s].concat()
        }
        12 => {
            let b = refp::connect_body(&me.pk, &p.key.pk, &[]);
            [b, vec![0u8; 64]].concat()
        }
        13 => {
            // small-order signature public key with the signature that verifies under sloppy rules
            let pk = low_order(c.rng.below(7)).to_vec();
            let b = refp::connect_body(&me.pk, &pk, &[]);
            let mut s = vec![0u8; 64];
            s[0] = 1;
            [b, s].concat()
        }
        14 => refp::connect(&low_order(c.rng.below(7)), mk, &[]),
        15 => match me.agree(&own) {
            Some(s) => refp::user(&s, c.rng.below(3) as u64, &wire(l, Some(b"from attacker"), 1)),
            None => c.rng.bytes(80),
        },
        16 => {
            // keys an attacker can compute without any secret
            let mut sd = [0u8; 48];
            if c.rng.pct(50) {
                sd[..32].copy_from_slice(&own[..32]);
            }
            refp::user(&refp::Sess { seed: sd }, 0, b"zero key")
        }
        17 => refp::hashed(&refp::user_body(0, &wire(l, Some(b"clear"), 1))),
        18 => {
            let mut f = c.rng.pick(pool).clone();
            mutate(c, &mut f);
            f
        }
        19 => refp::connect(&own, mk, &custom),
        20 => {
            // the owner's own other CONNECT
            let e = ekey(&mut c.rng);
            let mut f = refp::connect(&e.pk, nk, &[]);
            let i = c.rng.below(f.len());
            f[i] ^= 0x80;
            f
        }
        _ => {
            // messages whose type was exchanged after signing
            let mut f = c.rng.pick(pool).clone();
            let t = c.rng.below(4) as u8;
            if f.len() > 17 {
                f[17] = t;
            }
            f
        }
    }
}
