//! C11: what goes over the wire is exactly protocol version 1, in both directions.
use crate::ensure;
use crate::node::*;
use crate::refp::{self, Parsed};
use crate::run::*;
use crate::util::*;
use pkstl::MessageFormat;
use serde::{Deserialize, Serialize};

pub static P: Prop = Prop {
    id: "C11",
    f: c11,
    quick: 80_000,
    thorough: 2_500_000,
    rule: "a layer (both levels, random configuration and keys) runs a whole connection with the independent implementation: every message it emits is parsed strictly, checked against what was asked for, re-encoded by the independent implementation and compared byte for byte; every message the independent implementation builds (all deflate encodings of the same data) must be accepted and delivered; non-trivial: all; distinct: by payload sizes, levels and key order",
    assumptions: &["Ed25519 is designated by [0,0,0,0] as exported (the README says 1)", "deflate output is judged by decoding it (raw deflate, complete stream)"],
    setup_is_bad: true,
    floors: &[("frames-compared", 50_000), ("frames-accepted", 50_000), ("own-key-larger", 1_000), ("own-key-smaller", 1_000)],
    level: "exploration",
};

/// content on the wire -> does it stand for `d`?
fn stands_for(l: Lvl, content: &[u8], d: Option<&[u8]>) -> bool {
    match (l, d) {
        (_, None) => content.is_empty(),
        (Lvl::Min, Some(d)) => content == d,
        (Lvl::Cpl, Some(d)) => !content.is_empty() && whole_stream(content, d),
    }
}
/// exactly one complete raw deflate stream, nothing behind it
fn whole_stream(z: &[u8], d: &[u8]) -> bool {
    let mut dec = flate2::Decompress::new(false);
    let mut out = Vec::with_capacity(d.len() + 64);
    loop {
        let before = (dec.total_in(), dec.total_out());
        match dec.decompress_vec(&z[dec.total_in() as usize..], &mut out, flate2::FlushDecompress::Finish) {
            Ok(flate2::Status::StreamEnd) => break,
            Ok(_) => {
                if out.len() > d.len() {
                    return false;
                }
                if (dec.total_in(), dec.total_out()) == before && out.capacity() > out.len() {
                    return false;
                }
                out.reserve(4096);
            }
            Err(_) => return false,
        }
    }
    dec.total_in() as usize == z.len() && out == d
}
/// another valid deflate encoding of the same data
fn encode(c: &mut Ctx, l: Lvl, d: Option<&[u8]>) -> Vec<u8> {
    match (l, d) {
        (Lvl::Cpl, Some(d)) => match c.rng.below(4) {
            0 => {
                // stored blocks of odd sizes
                let mut v = vec![];
                let step = c.rng.range(1, 65_535);
                let mut ch: Vec<&[u8]> = d.chunks(step).collect();
                if ch.is_empty() || c.rng.pct(30) {
                    ch.push(&[]);
                }
                let n = ch.len();
                for (i, x) in ch.into_iter().enumerate() {
                    v.push(u8::from(i + 1 == n));
                    let k = x.len() as u16;
                    v.extend_from_slice(&k.to_le_bytes());
                    v.extend_from_slice(&(!k).to_le_bytes());
                    v.extend_from_slice(x);
                }
                v
            }
            1 => {
                // flushed in the middle
                use std::io::Write;
                let lv = c.rng.below(10) as u32;
                let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(lv));
                let k = c.rng.below(d.len() + 1);
                e.write_all(&d[..k]).expect("deflate");
                e.flush().expect("deflate");
                e.write_all(&d[k..]).expect("deflate");
                e.finish().expect("deflate")
            }
            _ => {
                let lv = c.rng.below(10) as u32;
                refp::deflate(d, lv)
            }
        },
        _ => wire(l, d, 0),
    }
}

fn c11(c: &mut Ctx) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = rare_sigkey(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, conf, &nk, pin))?;
    let mx = if c.rng.pct(4) { 150_000 } else { 3_000 };
    let (d1, d2) = (custom(c, mx), custom(c, mx));
    let (e1, e2) = (custom(c, mx), custom(c, mx));
    let order = c.rng.below(4);
    let my_connect = |n: &mut Node, p: &mut Peer| -> CaseR {
        let f = fl("connect", n.connect(d1.as_deref()))?;
        match refp::parse(&f) {
            Some(Parsed::Connect { epk, pk, custom, sig_ok }) => {
                ensure!(pk == nk.pk, "connect-key", "CONNECT carries key {}", hexs(&pk));
                ensure!(sig_ok, "connect-signature", "signature of CONNECT is wrong");
                ensure!(stands_for(l, &custom, d1.as_deref()), "connect-data", "CONNECT with data {} carries {}B {}", shorto(&d1), custom.len(), hexs(&custom));
                ensure!(refp::connect(&epk, &nk, &custom) == f, "connect-bytes", "CONNECT differs from the re-encoding");
            }
            _ => return bad("connect-bytes", format!("CONNECT is not readable: {}", hexs(&f))),
        }
        count("frames-compared", 1);
        if !p.learn(&f) {
            return bad("connect-bytes", "CONNECT is not readable");
        }
        Ok(())
    };
    let their_connect = |c: &mut Ctx, n: &mut Node, p: &Peer| -> CaseR {
        let w = encode(c, l, e1.as_deref());
        let r = n.recv(&refp::connect(&p.ek.pk, &p.key, &w));
        let want = vec![Ev::Connect { pk: p.key.pk.clone(), data: told(l, e1.as_deref()) }];
        ensure!(r.as_ref().ok() == Some(&want), "connect-refused", "CONNECT of the independent implementation: expected {}, got {}", shorts(&want), show(&r));
        count("frames-accepted", 1);
        Ok(())
    };
    let my_ack = |n: &mut Node, p: &Peer| -> CaseR {
        let f = fl("ack", n.ack(d2.as_deref()))?;
        match refp::parse(&f) {
            Some(Parsed::Ack { custom, .. }) => {
                ensure!(stands_for(l, &custom, d2.as_deref()), "ack-data", "ACK with data {} carries {}B {}", shorto(&d2), custom.len(), hexs(&custom));
                ensure!(refp::ack(&p.ek.pk, &nk, &custom) == f, "ack-bytes", "ACK differs from the re-encoding");
            }
            _ => return bad("ack-bytes", format!("ACK is not readable: {}", hexs(&f))),
        }
        count("frames-compared", 1);
        Ok(())
    };
    let their_ack = |c: &mut Ctx, n: &mut Node, p: &Peer| -> CaseR {
        let w = encode(c, l, e2.as_deref());
        let e = p.remote_epk.clone().expect("learned");
        let r = n.recv(&refp::ack(&e, &p.key, &w));
        let want = vec![Ev::Ack { data: told(l, e2.as_deref()) }];
        ensure!(r.as_ref().ok() == Some(&want), "ack-refused", "ACK of the independent implementation: expected {}, got {}", shorts(&want), show(&r));
        count("frames-accepted", 1);
        Ok(())
    };
    if order & 1 == 0 {
        my_connect(&mut n, &mut p)?;
        their_connect(c, &mut n, &p)?;
    } else {
        their_connect(c, &mut n, &p)?;
        my_connect(&mut n, &mut p)?;
    }
    if order & 2 == 0 {
        my_ack(&mut n, &p)?;
        their_ack(c, &mut n, &p)?;
    } else {
        their_ack(c, &mut n, &p)?;
        my_ack(&mut n, &p)?;
    }
    let larger = n.epk.as_deref() > Some(&p.ek.pk[..]);
    count(if larger { "own-key-larger" } else { "own-key-smaller" }, 1);
    fp(l as u64 * 64 + order as u64 * 4 + u64::from(larger));
    for d in [&d1, &d2, &e1, &e2] {
        fp(d.as_ref().map_or(u64::MAX, |d| d.len() as u64));
    }
    let s = p.sess.clone().expect("session");
    let many = c.idx % 400 == 3;
    let k = if many { 1_500 } else { c.rng.range(1, 8) as u64 };
    quiet(many);
    for i in 0..k {
        let d = if many { i.to_le_bytes().to_vec() } else { payload(c, mx) };
        fp(d.len() as u64);
        let f = fl("write", n.write(&d))?;
        let pt = match s.open(&f) {
            Some(pt) => pt,
            None => return bad("user-key", format!("user message {} is not encrypted with the session key of version 1", i)),
        };
        match refp::parse(&pt) {
            Some(Parsed::User { nonce, data }) => {
                ensure!(nonce == i, "user-number", "user message {} carries number {}", i, nonce);
                ensure!(stands_for(l, &data, Some(&d)), "user-data", "user message with {}B carries {}B {}", d.len(), data.len(), hexs(&data));
                ensure!(refp::user(&s, i, &data) == f, "user-bytes", "user message {} differs from the re-encoding", i);
            }
            _ => return bad("user-bytes", format!("user message {} is not readable: {}", i, hexs(&pt))),
        }
        count("frames-compared", 1);
        // the other direction, sometimes without any content
        let (w, want) = if c.rng.pct(10) {
            (vec![], None)
        } else {
            let d = if many { vec![7; 5] } else { payload(c, mx) };
            fp(d.len() as u64);
            let w = encode(c, l, Some(&d));
            (w, told(l, Some(&d)))
        };
        let r = n.recv(&refp::user(&s, i, &w));
        let want = vec![Ev::Msg { data: want }];
        ensure!(r.as_ref().ok() == Some(&want), "user-refused", "user message {} of the independent implementation: expected {}, got {}", i, shorts(&want), show(&r));
        count("frames-accepted", 1);
    }
    quiet(false);
    c.nontrivial = true;
    if l == Lvl::Cpl && c.idx % 3 == 0 {
        typed(c)?;
    }
    Ok(())
}
pub fn show(r: &R<Vec<Ev>>) -> String {
    match r {
        Ok(v) => shorts(v),
        Err(f) => f.show(),
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Doc {
    id: u32,
    name: String,
    list: Vec<i16>,
    opt: Option<bool>,
}

pub fn encoded<M: Serialize>(f: MessageFormat, m: &M) -> Option<Vec<u8>> {
    Some(match f {
        MessageFormat::Utf8Json => [&[0, 0, 0, 2][..], &serde_json::to_vec(m).ok()?].concat(),
        MessageFormat::Cbor => [&[0, 0, 0, 3][..], &serde_cbor::to_vec(m).ok()?].concat(),
        MessageFormat::Bincode => [&[0, 0, 0, 4][..], &bincode::serialize(m).ok()?].concat(),
        _ => return None,
    })
}

/// serialized values: 4 bytes of format, then the encoding
fn typed(c: &mut Ctx) -> CaseR {
    let f = *c.rng.pick(&[MessageFormat::Utf8Json, MessageFormat::Cbor, MessageFormat::Bincode]);
    let other = fmt(&mut c.rng);
    let lv = c.rng.below(10) as u32;
    let (mut n, p) = with_ref(c, Lvl::Cpl, cfg_with(lv, c.idx as usize % 50, f))?;
    let len = c.rng.below(200);
    let doc = Doc {
        id: c.rng.u64() as u32,
        name: (0..len).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
        list: (0..c.rng.below(10)).map(|i| i as i16 - 5).collect(),
        opt: if c.rng.pct(50) { Some(true) } else { None },
    };
    let want = encoded(f, &doc).expect("encode");
    let w = fl("write<M>", n.write_t(&doc))?;
    ensure!(p.open(&w) == Some((0, want.clone())), "typed-bytes", "a value written in format {:?} is not format tag and encoding: {}", f, p.open(&w).map_or("unreadable".into(), |x| hexs(&x.1)));
    fl("config", n.config(cfg_with(lv, 0, other)))?;
    let r = n.recv_t::<Doc>(&p.user(0, &want));
    match r {
        Ok(v) if v.len() == 1 && v[0] == EvT::Msg { data: Some(doc.clone()) } => (),
        r => return bad("typed-refused", format!("a {:?} value of the independent implementation: got {:?}", f, r)),
    }
    count("typed", 1);
    Ok(())
}
