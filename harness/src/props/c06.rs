//! C06: messages arriving early are kept, then delivered once and in order.
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::refp;
use crate::run::*;
use crate::util::*;

pub static P: Prop = Prop {
    id: "C06",
    f: case,
    quick: 40_000,
    thorough: 1_200_000,
    rule: "honest histories in which the peer's ACK overtakes its CONNECT and/or its user messages overtake its ACK, with duplicates, gaps and reordering among the early messages, early and late collection at the minimal level, pinned and unpinned, few to thousands of early messages; every delivery is compared with the arrival-order log; plus pairs of real layers where one finishes first and writes at once; non-trivial: something was set aside; distinct: by history",
    assumptions: &["at the minimal level the application collects set-aside messages after the message that allows it"],
    setup_is_bad: true,
    floors: &[("early-acks", 500), ("early-user-messages", 5_000), ("early-duplicates", 1_000), ("delivered-late", 5_000), ("collected-after-other-calls", 500)],
    level: "exploration",
};

fn case(c: &mut Ctx) -> CaseR {
    if c.idx % 200 == 13 {
        return undecodable(c);
    }
    if c.idx % 200 == 113 {
        return undecompressable(c);
    }
    if c.idx % 5 == 4 {
        return real(c);
    }
    let l = lvl(&mut c.rng);
    let auto = l == Lvl::Cpl || c.rng.pct(50);
    let pin = if c.rng.pct(35) { Some(0) } else { None };
    let mut d = Driver::new(c, l, pin, auto)?;
    // the layer speaks first, so the peer knows its key
    let cd = custom(c, 40);
    if c.rng.pct(60) {
        d.step(c, &Op::Connect(cd))?;
    } else {
        let data = custom(c, 40);
        d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data })?;
        d.step(c, &Op::Connect(cd))?;
    }
    let poke = |c: &mut Ctx, d: &mut Driver| -> CaseR {
        // collection at moments when there is nothing to collect yet, refused calls, configuration
        match c.rng.below(8) {
            0 => d.step(c, &Op::TakeAck).map(|_| ()),
            1 => d.step(c, &Op::Drain).map(|_| ()),
            2 => d.step(c, &Op::Clone { keep: false }).map(|_| ()),
            3 => {
                let f = cfg(c);
                d.step(c, &Op::Config(f)).map(|_| ())
            }
            4 => d.step(c, &Op::Connect(None)).map(|_| ()),
            _ => Ok(()),
        }
    };
    poke(c, &mut d)?;
    if !d.m.connect_in {
        let data = custom(c, 60);
        if c.rng.pct(60) {
            let a = custom(c, 60);
            let dupl = c.rng.pct(20) && pin.is_some();
            d.step(c, &Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: a })?;
            if pin.is_none() {
                count("early-acks", 1);
            }
            let _ = dupl;
            poke(c, &mut d)?;
        }
        d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data })?;
        if !d.m.auto {
            d.step(c, &Op::TakeAck)?;
            if c.rng.pct(30) {
                d.step(c, &Op::TakeAck)?;
            }
        }
    }
    poke(c, &mut d)?;
    let ad = custom(c, 40);
    d.step(c, &Op::Ack(ad))?;
    poke(c, &mut d)?;
    if !d.m.ack_in {
        // user messages before the ACK
        let n = match c.idx % 150 {
            0 if c.idx % 60_000 == 300 => 92_000,
            0 => 10_500,
            75 => 2 * c.rng.range(1_500, 5_000),
            1..=4 => c.rng.range(100, 1500),
            5..=14 => 0,
            _ => c.rng.range(1, 14),
        };
        quiet(n > 100);
        // many of them ahead of a missing one
        let mut i = u64::from(n > 2_999 && n < 10_500);
        let mut last: Vec<u64> = vec![];
        let inorder = n > 100 || c.rng.pct(50);
        for _ in 0..n {
            let dup = c.rng.pct(25) && !last.is_empty();
            let nonce = if dup {
                *c.rng.pick(&last)
            } else if inorder {
                i
            } else {
                c.rng.u64() % (2 * n as u64 + 2)
            };
            let again = d.m.seen(nonce);
            count(if again { "early-duplicates" } else { "early-user-messages" }, 1);
            let data = if c.rng.pct(10) { vec![] } else { tagged(c, i, if n > 100 { 0 } else { 400 }) };
            let bad_hash = c.rng.pct(3);
            d.step(c, &Op::InUser { nonce, bad_hash, data })?;
            if !again {
                last.push(nonce);
                i = i.max(nonce + u64::from(!bad_hash));
            }
            if n <= 100 && c.rng.pct(10) {
                poke(c, &mut d)?;
            }
        }
        quiet(false);
        let held = d.m.stash.len() as u64;
        let data = custom(c, 60);
        d.step(c, &Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data })?;
        if !d.m.auto {
            if c.rng.pct(30) {
                d.step(c, &Op::TakeAck)?;
            }
            // the application may have other things to do first
            if c.rng.pct(50) {
                for _ in 0..c.rng.range(1, 5) {
                    let op = match c.rng.below(6) {
                        0 | 1 => Op::Write(custom(c, 60).unwrap_or_default()),
                        2 => Op::InUser { nonce: c.rng.u64() % 40, bad_hash: c.rng.pct(10), data: vec![9, 9] },
                        3 => Op::Config(cfg(c)),
                        4 => Op::Clone { keep: c.rng.pct(30) },
                        _ => Op::TakeAck,
                    };
                    d.step(c, &op)?;
                }
                if held > 0 {
                    count("collected-after-other-calls", 1);
                }
            }
            d.step(c, &Op::Drain)?;
            if c.rng.pct(30) {
                d.step(c, &Op::Drain)?;
            }
        }
        count("delivered-late", held);
        // network copies of what was early are refused now
        for _ in 0..c.rng.below(4) {
            if last.is_empty() {
                break;
            }
            let nonce = *c.rng.pick(&last);
            if d.m.seen(nonce) {
                d.step(c, &Op::InUser { nonce, bad_hash: false, data: vec![1, 2, 3] })?;
            }
        }
    }
    ensure!(d.m.done() && !d.m.failed, "model", "harness: not at the end");
    d.complete(c, 0, 3)?;
    c.nontrivial = true;
    Ok(())
}

/// two real layers; B finishes first and writes; everything reaches A out of order
fn real(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let (ca, cb) = (cfg(c), cfg(c));
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let pa = if c.rng.pct(30) { Some(kb.pk.clone()) } else { None };
    let mut a = fl("create", Node::create("A", l, ca, &ka, pa.clone()))?;
    let mut b = fl("create", Node::create("B", l, cb, &kb, None))?;
    let ca_ = fl("connect", a.connect(None))?;
    let cd = custom(c, 500);
    let ad = custom(c, 500);
    let cb_ = fl("connect", b.connect(cd.as_deref()))?;
    fl("recv connect", b.recv(&ca_))?;
    let ab_ = fl("ack", b.ack(ad.as_deref()))?;
    let mut evs = vec![];
    let early_ack = c.rng.pct(50);
    let mut feed = |a: &mut Node, f: &[u8], first: bool| -> CaseR {
        match a.recv(f) {
            Ok(e) => {
                evs.extend(e);
                Ok(())
            }
            Err(f) if f.is_panic() => bad("panic", f.show()),
            Err(f) if first => bad("refused-legal", f.show()),
            Err(_) => Ok(()),
        }
    };
    if early_ack {
        feed(&mut a, &ab_, true)?;
        count("early-acks", 1);
    }
    feed(&mut a, &cb_, true)?;
    let aa_ = fl("ack", a.ack(None))?;
    fl("recv ack", b.recv(&aa_))?;
    let n = c.rng.range(1, 20);
    let mut sent = vec![];
    let mut fr = vec![];
    for k in 0..n {
        let d = tagged(c, k as u64, 2000);
        fr.push(fl("write", b.write(&d))?);
        sent.push(d);
    }
    let mut q: Vec<usize> = (0..n).collect();
    for _ in 0..c.rng.below(10) {
        q.push(c.rng.below(n));
    }
    if c.rng.pct(60) {
        c.rng.shuffle(&mut q);
    }
    let at = if early_ack { q.len() } else { c.rng.below(q.len() + 1) };
    let mut arrival: Vec<usize> = vec![];
    for (i, k) in q.iter().enumerate() {
        if i == at {
            feed(&mut a, &ab_, true)?;
        }
        let first = !arrival.contains(k);
        if !early_ack && i < at {
            count(if first { "early-user-messages" } else { "early-duplicates" }, 1);
            count("delivered-late", u64::from(first));
        }
        if first {
            arrival.push(*k);
        }
        fp(*k as u64 ^ (i as u64) << 16);
        feed(&mut a, &fr[*k], first)?;
    }
    if !early_ack && at >= q.len() {
        feed(&mut a, &ab_, true)?;
    }
    fp(at as u64 ^ u64::from(early_ack) << 32);
    let msgs = delivered(&evs);
    let want: Vec<Option<Vec<u8>>> = arrival.iter().map(|k| Some(sent[*k].clone())).collect();
    ensure!(msgs == want, "early-messages-wrong", "{} messages sent, {} delivered (or changed, or in another order)", want.len(), msgs.len());
    let acks: Vec<&Ev> = evs.iter().filter(|e| e.kind() == 2).collect();
    ensure!(acks == vec![&Ev::Ack { data: told(l, ad.as_deref()) }], "ack-wrong", "ACK reported {} times or with other data", acks.len());
    let cons = evs.iter().filter(|e| e.kind() == 1).count();
    ensure!(cons == 1, "connect-wrong", "CONNECT reported {} times", cons);
    c.nontrivial = true;
    Ok(())
}

/// Typed reading; one of the messages set aside is not of the type the application reads. The application must still
/// get the others. (Known finding: the whole batch is lost with it.)
fn undecodable(c: &mut Ctx) -> CaseR {
    let l = Lvl::Cpl;
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let num = |n: u32| [&[0u8, 0, 0, 2][..], n.to_string().as_bytes()].concat();
    let junk = |c: &mut Ctx| match c.rng.below(3) {
        0 => vec![0, 0, 0, 2, b'"', b'x', b'"'],
        1 => vec![0, 0, 0, 9, 1, 2],
        _ => vec![7, 7],
    };
    let (ca, cb) = (cfg(c), cfg(c));
    let mut a = fl("create", Node::create("A", l, ca, &ka, None))?;
    let mut b = fl("create", Node::create("B", l, cb, &kb, None))?;
    let ca_ = fl("connect", a.connect(None))?;
    let early_ack = c.rng.pct(40);
    // which of the things that come out together does not decode: 0 CONNECT, 1 ACK, 2.. user messages
    let n = if early_ack { 0 } else { c.rng.range(1, 6) };
    let badn = if early_ack { c.rng.below(2) } else { 1 + c.rng.below(n + 1) };
    let data = |c: &mut Ctx, k: usize| if k == badn { junk(c) } else { num(k as u32) };
    let dc = data(c, 0);
    let da = data(c, 1);
    let cb_ = fl("connect", b.connect(Some(&dc)))?;
    fl("recv connect", b.recv(&ca_))?;
    let ab_ = fl("ack", b.ack(Some(&da)))?;
    fp(badn as u64 + 16 * n as u64);
    let mut got: Vec<u32> = vec![];
    let mut last = true;
    let mut feed = |a: &mut Node, f: &[u8]| -> CaseR {
        match a.recv_t::<u32>(f) {
            Ok(e) => {
                last = true;
                for x in e {
                    match x {
                        EvT::Connect { data: Some(d), .. } | EvT::Ack { data: Some(d) } | EvT::Msg { data: Some(d) } => got.push(d),
                        o => return bad("early-messages-wrong", format!("{:?}", o)),
                    }
                }
            }
            Err(f) => {
                ensure!(!f.is_panic(), "panic", "{}", f.show());
                last = false;
            }
        }
        Ok(())
    };
    let mut want: Vec<u32> = (0..2 + n as u32).collect();
    if early_ack {
        feed(&mut a, &ab_)?;
        feed(&mut a, &cb_)?;
    } else {
        feed(&mut a, &cb_)?;
    }
    let aa_ = match a.ack(None) {
        Ok(f) => f,
        Err(f) => return bad("unusable-after-undecodable", f.show()),
    };
    fl("recv ack", b.recv(&aa_))?;
    for k in 2..2 + n {
        let d = data(c, k);
        let f = fl("write", b.write(&d))?;
        feed(&mut a, &f)?;
        count("early-user-messages", 1);
    }
    if !early_ack {
        feed(&mut a, &ab_)?;
    }
    // life goes on
    let f = fl("write", b.write(&num(100)))?;
    feed(&mut a, &f)?;
    want.push(100);
    want.retain(|x| *x as usize != badn);
    ensure!(last && got.last() == Some(&100), "unusable-after-undecodable", "a message after the undecodable one: {:?}", got);
    c.nontrivial = true;
    if got != want {
        // what did come out must still be right
        let sub: Vec<u32> = want.iter().filter(|x| got.contains(x)).cloned().collect();
        ensure!(sub == got, "early-messages-wrong", "delivered {:?} of {:?}", got, want);
        // everything that was waiting is gone together with the undecodable one
        let lost: Vec<u32> = want.iter().filter(|x| !got.contains(x)).cloned().collect();
        let batch: Vec<u32> = if early_ack { vec![0, 1] } else { (1..2 + n as u32).collect() };
        ensure!(lost.iter().all(|x| batch.contains(x)), "early-messages-wrong", "{:?} lost", lost);
        return bad("batch-lost-with-undecodable", format!("{:?} never delivered: element {} of the batch does not decode", lost, badn));
    }
    Ok(())
}

/// the same at the binary interface: an element of the batch is no compressed content
fn undecompressable(c: &mut Ctx) -> CaseR {
    let l = Lvl::Cpl;
    let mut p = Peer::new(&mut c.rng, l);
    let f = cfg(c);
    let nk = sigkey(&mut c.rng);
    let mut a = fl("create", Node::create("A", l, f, &nk, None))?;
    let f = fl("connect", a.connect(None))?;
    if !p.learn(&f) {
        return setup("the layer's CONNECT cannot be read");
    }
    let early_ack = c.rng.pct(40);
    // 0 CONNECT, 1 ACK, 2.. user messages
    let n = if early_ack { 0 } else { c.rng.range(1, 6) };
    let badn = if early_ack { c.rng.below(2) } else { 1 + c.rng.below(n + 1) };
    let content = |k: usize| if k == badn { vec![7, 7, 7] } else { refp::deflate(&[k as u8], 6) };
    fp(badn as u64 + 16 * n as u64 + 1_000);
    let connect = refp::connect(&p.ek.pk, &p.key, &content(0));
    let ack = refp::ack(p.remote_epk.as_ref().expect("epk"), &p.key, &content(1));
    let sess = p.sess.clone().expect("session");
    let mut got: Vec<u8> = vec![];
    let mut last = true;
    let mut feed = |a: &mut Node, f: &[u8]| -> CaseR {
        match a.recv(f) {
            Ok(e) => {
                last = true;
                for x in e {
                    match x {
                        Ev::Connect { data: Some(d), .. } | Ev::Ack { data: Some(d) } | Ev::Msg { data: Some(d) } if d.len() == 1 => got.push(d[0]),
                        o => return bad("early-messages-wrong", o.short()),
                    }
                }
            }
            Err(f) => {
                ensure!(!f.is_panic(), "panic", "{}", f.show());
                last = false;
            }
        }
        Ok(())
    };
    if early_ack {
        feed(&mut a, &ack)?;
    }
    feed(&mut a, &connect)?;
    if let Err(f) = a.ack(None) {
        return bad("unusable-after-undecodable", f.show());
    }
    for k in 2..2 + n {
        feed(&mut a, &refp::user(&sess, k as u64 - 2, &content(k)))?;
        count("early-user-messages", 1);
    }
    if !early_ack {
        feed(&mut a, &ack)?;
    }
    feed(&mut a, &refp::user(&sess, n as u64, &refp::deflate(&[100], 6)))?;
    c.nontrivial = true;
    let want: Vec<u8> = (0..2 + n as u8).filter(|x| *x as usize != badn).chain(Some(100)).collect();
    let sub: Vec<u8> = want.iter().filter(|x| got.contains(x)).cloned().collect();
    ensure!(sub == got, "early-messages-wrong", "delivered {:?} of {:?}", got, want);
    let lost: Vec<u8> = want.iter().filter(|x| !got.contains(x)).cloned().collect();
    // the ACK behind a CONNECT whose custom data is wrong: lost, and with it the negotiation
    let dead = early_ack && badn == 0 && lost.contains(&1);
    ensure!(dead || (last && got.last() == Some(&100)), "unusable-after-undecodable", "a message after the undecodable one: {:?}", got);
    let batch: Vec<u8> = if early_ack { vec![0, 1] } else { (1..2 + n as u8).collect() };
    ensure!(lost.iter().all(|x| batch.contains(x) || (dead && *x == 100)), "early-messages-wrong", "{:?} lost", lost);
    if !lost.is_empty() {
        return bad("batch-lost-with-undecompressable", format!("{:?} never delivered: element {} of the batch is no compressed content", lost, badn));
    }
    Ok(())
}
