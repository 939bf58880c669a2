//! C01: any honest handshake completes and both ends agree.
use crate::ensure;
use crate::node::*;
use crate::refp::{self, EKey};
use crate::rng::Rng;
use crate::run::*;
use crate::util::*;
use std::sync::OnceLock;

pub static P: Prop = Prop {
    id: "C01",
    f: case,
    quick: 100_000,
    thorough: 3_000_000,
    rule: "first every order in which two layers can write and receive the four negotiation messages (each order once per pair of API levels and per pinning), then random orders with random configurations, keys and custom data, plus layers against reference keys chosen for the longest common prefix; non-trivial: the negotiation ran to its end and messages went both ways; distinct: by order, levels, pinning, data sizes, prefix length",
    assumptions: &["the application signs at the minimal level with the key it announces"],
    setup_is_bad: true,
    floors: &[("handshakes", 1000), ("ack-overtakes-connect", 200)],
    level: "exploration",
};

/// The eight steps: 0/1 write CONNECT at A/B, 2 deliver A's CONNECT at B, 3 deliver B's at A,
/// 4/5 write ACK at A/B, 6 deliver A's ACK at B, 7 deliver B's ACK at A.
fn orders() -> &'static Vec<Vec<u8>> {
    static O: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    O.get_or_init(|| {
        let deps: [&[u8]; 8] = [&[], &[], &[0], &[1], &[3], &[2], &[4], &[5]];
        let mut out = Vec::new();
        fn go(cur: &mut Vec<u8>, deps: &[&[u8]; 8], out: &mut Vec<Vec<u8>>) {
            if cur.len() == 8 {
                out.push(cur.clone());
                return;
            }
            for s in 0..8u8 {
                if cur.contains(&s) || !deps[s as usize].iter().all(|d| cur.contains(d)) {
                    continue;
                }
                // a layer's ACK answers a CONNECT of the other, which it can only accept; its own
                // CONNECT may still be unwritten (that is allowed: steps 0 and 4 are independent)
                cur.push(s);
                go(cur, deps, out);
                cur.pop();
            }
        }
        go(&mut Vec::new(), &deps, &mut out);
        // an ACK can only be accepted by a layer that has written its CONNECT: implied, since the
        // ACK answers that CONNECT
        out
    })
}

/// data sent by an application at level `l` so that the other level `o` understands it
fn outgoing(l: Lvl, o: Lvl, d: &Option<Vec<u8>>, z: u32) -> Option<Vec<u8>> {
    match (l, o) {
        (Lvl::Min, Lvl::Cpl) => d.as_ref().map(|d| refp::deflate(d, z)),
        _ => d.clone(),
    }
}
fn agrees(l: Lvl, o: Lvl, sent: &Option<Vec<u8>>, got: &Option<Vec<u8>>) -> bool {
    match (l, o) {
        (Lvl::Min, Lvl::Min) => norm(sent) == norm(got),
        (Lvl::Cpl, Lvl::Min) => match (sent, got) {
            (None, None) => true,
            (Some(s), Some(g)) => refp::inflate(g).as_ref() == Some(s),
            _ => false,
        },
        _ => sent == got,
    }
}

fn case(c: &mut Ctx) -> CaseR {
    let no = orders().len() as u64;
    if c.idx >= no * 16 && c.idx % 3 == 0 {
        return vs_ref(c);
    }
    let (la, lb, pa, pb, ord);
    let plain = c.idx < no * 16;
    if plain {
        let k = c.idx / no;
        ord = orders()[(c.idx % no) as usize].clone();
        la = if k & 1 == 0 { Lvl::Min } else { Lvl::Cpl };
        lb = if k & 2 == 0 { Lvl::Min } else { Lvl::Cpl };
        pa = k & 4 != 0;
        pb = k & 8 != 0;
    } else {
        ord = c.rng.pick(orders()).clone();
        la = lvl(&mut c.rng);
        lb = lvl(&mut c.rng);
        pa = c.rng.pct(50);
        pb = c.rng.pct(50);
    }
    let (ka, kb) = (rare_sigkey(&mut c.rng), sigkey(&mut c.rng));
    // sometimes one identity at both ends
    let kb = if c.rng.pct(4) { ka.clone() } else { kb };
    let (ca, cb) = if plain && c.idx % 4 != 0 { Default::default() } else { (cfg(c), cfg(c)) };
    let mx = if c.rng.pct(5) { 140_000 } else { 9_000 };
    let dat: Vec<Option<Vec<u8>>> = (0..4).map(|_| custom(c, mx)).collect();
    let mut a = Node::create("A", la, ca, &ka, if pa { Some(kb.pk.clone()) } else { None }).or_else(|f| bad("create", f.show()))?;
    let mut b = Node::create("B", lb, cb, &kb, if pb { Some(ka.pk.clone()) } else { None }).or_else(|f| bad("create", f.show()))?;
    let lv = [la, lb];
    let mut frames: Vec<Vec<u8>> = vec![vec![]; 4];
    let mut evs: [Vec<Ev>; 2] = [vec![], vec![]];
    fp(ord.iter().fold(0, |h, s| h * 8 + u64::from(*s)) ^ (lv[0] as u64) << 40 ^ (lv[1] as u64) << 41 ^ u64::from(pa) << 42 ^ u64::from(pb) << 43);
    for d in &dat {
        fp(d.as_ref().map_or(0, |d| 1 + d.len() as u64));
    }
    if ord.iter().position(|s| *s == 6) < ord.iter().position(|s| *s == 2)
        || ord.iter().position(|s| *s == 7) < ord.iter().position(|s| *s == 3)
    {
        count("ack-overtakes-connect", 1);
    }
    for s in &ord {
        let side = match s {
            0 | 4 | 3 | 7 => 0,
            _ => 1,
        };
        let other = 1 - side;
        let n = if side == 0 { &mut a } else { &mut b };
        let r = match s {
            0 | 1 => {
                let d = outgoing(lv[side], lv[other], &dat[side], 6);
                n.connect(d.as_deref()).map(|f| frames[side] = f)
            }
            4 | 5 => {
                let d = outgoing(lv[side], lv[other], &dat[2 + side], 6);
                n.ack(d.as_deref()).map(|f| frames[2 + side] = f)
            }
            2 | 3 => n.recv(&frames[other].clone()).map(|e| evs[side].extend(e)),
            _ => n.recv(&frames[2 + other].clone()).map(|e| evs[side].extend(e)),
        };
        if let Err(f) = r {
            return bad("step-refused", format!("honest step {} of {:?} refused: {}", s, ord, f.show()));
        }
    }
    for side in 0..2 {
        let (me, ot) = (lv[side], lv[1 - side]);
        let pk = if side == 0 { &kb.pk } else { &ka.pk };
        let mut nc = 0;
        let mut na = 0;
        for e in &evs[side] {
            match e {
                Ev::Connect { pk: p, data } => {
                    nc += 1;
                    ensure!(p == pk, "wrong-key", "side {} told key {} instead of {}", side, hexall(p), hexall(pk));
                    ensure!(agrees(ot, me, &dat[1 - side], data), "wrong-custom-data", "CONNECT data: sent {} told {}", shorto(&dat[1 - side]), shorto(data));
                }
                Ev::Ack { data } => {
                    na += 1;
                    ensure!(agrees(ot, me, &dat[3 - side], data), "wrong-custom-data", "ACK data: sent {} told {}", shorto(&dat[3 - side]), shorto(data));
                }
                Ev::Msg { .. } => return bad("phantom-message", "a user message nobody wrote"),
            }
        }
        ensure!(nc == 1 && na == 1, "told-not-once", "side {} was told {} CONNECT and {} ACK", side, nc, na);
    }
    // user messages both ways
    for k in 0..c.rng.range(2, 4) {
        let side = if k < 2 { k } else { c.rng.below(2) };
        let d = payload(c, mx);
        let (l, o) = (lv[side], lv[1 - side]);
        let (x, y) = if side == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
        let od = outgoing(l, o, &Some(d.clone()), 6).unwrap();
        let f = x.write(&od).or_else(|f| bad("write-refused", f.show()))?;
        let e = y.recv(&f).or_else(|f| bad("message-refused", f.show()))?;
        match &e[..] {
            [Ev::Msg { data }] if agrees(l, o, &Some(d.clone()), data) => count("user-messages", 1),
            _ => return bad("message-not-delivered", format!("sent {}B, got {}", d.len(), shorts(&e))),
        }
    }
    count("handshakes", 1);
    c.nontrivial = true;
    Ok(())
}

fn pool() -> &'static Vec<EKey> {
    static O: OnceLock<Vec<EKey>> = OnceLock::new();
    O.get_or_init(|| {
        let mut r = Rng::new(0x5eed);
        let mut v: Vec<EKey> = (0..6000).map(|_| EKey::new(r.arr32())).collect();
        v.sort_by(|a, b| a.pk.cmp(&b.pk));
        v
    })
}

/// a layer against the reference implementation using the key closest to the layer's
fn vs_ref(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = rare_sigkey(&mut c.rng);
    let conf = cfg(c);
    let mut n = Node::create("L", l, conf, &nk, None).or_else(|f| bad("create", f.show()))?;
    let dn = custom(c, 300);
    let f = n.connect(dn.as_deref()).or_else(|f| bad("step-refused", f.show()))?;
    let e = n.epk.clone().unwrap_or_default();
    let common = |k: &EKey| k.pk.iter().zip(&e).take_while(|(a, b)| a == b).count();
    let pos = pool().partition_point(|k| k.pk[..] < e[..]);
    let mut best = &pool()[pos.min(pool().len() - 1)];
    if pos > 0 && (common(&pool()[pos - 1]), c.rng.below(2)) > (common(best), 0) {
        best = &pool()[pos - 1];
    }
    let cp = common(best);
    match cp {
        0 => count("common-prefix-0", 1),
        1 => count("common-prefix-1", 1),
        _ => count("common-prefix-2+", 1),
    }
    p.ek = best.clone();
    if c.rng.u64() % 8_000 == 0 {
        if let Some(k) = ground(c, &e) {
            p.ek = k;
        }
    }
    if p.ek.pk[..] > e[..] {
        count("peer-key-larger", 1);
    }
    fp(0xbeef ^ cp as u64 ^ u64::from(p.ek.pk[..] > e[..]) << 8);
    ensure!(p.learn(&f), "unreadable-connect", "the reference cannot read the layer's CONNECT");
    let dp = custom(c, 300);
    let ev = n.recv(&p.connect(dp.as_deref())).or_else(|f| bad("step-refused", f.show()))?;
    ensure!(ev == vec![Ev::Connect { pk: p.key.pk.clone(), data: told(l, dp.as_deref()) }], "wrong-report", "got {}", shorts(&ev));
    n.ack(None).or_else(|f| bad("step-refused", f.show()))?;
    let ev = n.recv(&p.ack(None)).or_else(|f| bad("step-refused", f.show()))?;
    ensure!(ev == vec![Ev::Ack { data: None }], "wrong-report", "got {}", shorts(&ev));
    let d = payload(c, 2000);
    let f = n.write(&d).or_else(|f| bad("write-refused", f.show()))?;
    ensure!(p.open(&f) == Some((0, d)), "peer-cannot-read", "the other end cannot read the first user message");
    let d = tagged(c, 1, 2000);
    let ev = n.recv(&p.user(0, &d)).or_else(|f| bad("message-refused", f.show()))?;
    ensure!(ev == vec![Ev::Msg { data: Some(d) }], "message-not-delivered", "got {}", shorts(&ev));
    count("handshakes", 1);
    c.nontrivial = true;
    Ok(())
}
