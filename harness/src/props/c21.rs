//! C21: the guarantees do not depend on which optional features are compiled in.
use super::*;
use crate::ensure;
use crate::node::*;
use crate::remote::{self, Act, Actor, Plan};
use crate::util::*;
use crate::run::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[path = "../../actor/src/val.rs"]
mod val;

pub static P: Prop = Prop {
    id: "C21",
    f: c21,
    quick: 15_000,
    thorough: 400_000,
    rule: "layers live in processes built with each of the ten selections of features (none, zip-sign, ser, every subset of bin/cbor/json) and are driven by the workloads and oracles of C01 to C08, C10, C11, C13, C16, C17 and C22, alone against the independent implementation or paired with a layer of another selection; then typed values in every format between every two selections, the receiver with and without that format; and outputs that fail; non-trivial: all that the selection supports; distinct: by selections and history",
    assumptions: &["no selection adds to or removes from the minimal level; zip-sign adds the complete level; ser and the formats add typed values"],
    setup_is_bad: true,
    floors: &[("layers-elsewhere", 10_000), ("values-equal", 3_000), ("format-missing", 1_000), ("accepted", 2_000), ("broken-outputs", 300)],
    level: "exploration",
};

pub const BUILDS: [&str; 10] = ["none", "zip", "ser", "bin", "cbor", "json", "bin-cbor", "bin-json", "cbor-json", "all"];

thread_local! { static ACTORS: RefCell<HashMap<String, Act>> = RefCell::new(HashMap::new()); }

fn actor(build: &str) -> Result<Act, Fail> {
    ACTORS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(a) = m.get(build) {
            if a.lock().map(|mut a| a.reset()).unwrap_or(false) {
                return Ok(a.clone());
            }
            m.remove(build);
        }
        let dir = std::env::var("PKSTL_FEAT_DIR").unwrap_or_default();
        let a = Actor::start(&dir, build).map_err(|e| Fail::Setup(format!("harness: {}", e)))?;
        let a = Arc::new(Mutex::new(a));
        m.insert(build.to_string(), a.clone());
        Ok(a)
    })
}

fn formats(build: &str) -> Vec<&'static str> {
    if build == "all" {
        return vec!["bin", "cbor", "json"];
    }
    ["bin", "cbor", "json"].iter().cloned().filter(|f| build.split('-').any(|x| x == *f)).collect()
}

fn c21(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    if c.idx % 24 == 5 {
        return faulty(c);
    }
    if c.idx % 3 == 2 {
        return typed(c);
    }
    let bx = BUILDS[(c.idx / 3) as usize % 10];
    let x = actor(bx)?;
    let pair = c.rng.pct(60);
    let by = if pair { *c.rng.pick(&BUILDS) } else { bx };
    let y = if pair && c.rng.pct(20) { None } else { Some(actor(by)?) };
    let inner: [(&Prop, u64); 14] = [
        (&c01::P, 1), (&c04::P4, 1), (&c04::P5, 1), (&c06::P, 1), (&c07::P7, 1), (&c07::P10, 1), (&c11::P, 3),
        (&c02::P, 1), (&c03::P, 1), (&c07::P8, 1), (&c16::P16, 1), (&c16::P17, 1), (&c22::P, 1), (&c13::P, 1),
    ];
    let k = c.rng.below(if bx == "none" || by == "none" { 13 } else { 14 });
    let (p, skip) = inner[k];
    // any case of that property but its typed ones
    let mut idx = c.rng.u64() % p.quick;
    if skip == 3 && idx % 3 == 0 {
        idx += 1;
    }
    if p.id == "C06" && idx % 100 == 13 {
        idx += 1;
    }
    if p.id == "C13" && idx % 300 == 299 {
        idx -= 1;
    }
    fp(idx ^ (k as u64) << 40);
    log(|| format!("layers in [{}, {}], case of {}", bx, y.as_ref().map_or("this process", |_| by), p.id));
    let save = c.idx;
    c.idx = idx;
    let before = remote::made();
    remote::plan(Some(Plan { actors: vec![Some(x), y], k: 0, unsupported: false }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(c)));
    let pl = remote::plan(None);
    c.idx = save;
    count("layers-elsewhere", (remote::made() - before).min(50));
    if pl.map_or(false, |p| p.unsupported) {
        // the case wanted the complete level of a build that does not have it, or a call that is not passed on
        count("cut-short", 1);
        c.nontrivial = false;
        return Ok(());
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    count(
        match p.id {
            "C01" => "cases-of-C01",
            "C04" => "cases-of-C04",
            "C05" => "cases-of-C05",
            "C06" => "cases-of-C06",
            "C07" => "cases-of-C07",
            "C10" => "cases-of-C10",
            "C11" => "cases-of-C11",
            "C02" => "cases-of-C02",
            "C03" => "cases-of-C03",
            "C08" => "cases-of-C08",
            "C16" => "cases-of-C16",
            "C17" => "cases-of-C17",
            "C22" => "cases-of-C22",
            _ => "cases-of-C13",
        },
        1,
    );
    // what is recorded of everything is so of each selection
    c.also.clear();
    if matches!(&r, Err(Fail::Bad { sig, .. }) if known_there(p.id, sig)) {
        return Ok(());
    }
    r.map_err(|f| match f {
        Fail::Bad { sig, msg } if sig != "model" => {
            Fail::Bad { sig: format!("{}-{}", p.id, sig), msg: format!("with features [{}] and [{}]: {}", bx, by, msg) }
        }
        Fail::Setup(m) if !m.starts_with("harness") => Fail::Setup(format!("with features [{}] and [{}]: {}", bx, by, m)),
        f => f,
    })
}

/// an output that fails, in every build: an error, the same one everywhere, and the connection is over
fn faulty(c: &mut Ctx) -> CaseR {
    let bx = BUILDS[(c.idx / 24) as usize % 10];
    let l = if bx == "none" || c.rng.pct(40) { Lvl::Min } else { Lvl::Cpl };
    let size = *c.rng.pick(&[200usize, 3_000, 20_000]);
    let data = c.rng.bytes(size);
    let cap = *c.rng.pick(&[0usize, 1, 64, 150]);
    let left = c.rng.below(size - cap);
    let early = c.rng.below(3);
    fp(c.rng.u64());
    let mut said = vec![];
    for b in &[bx, "all"] {
        let x = actor(b)?;
        remote::plan(Some(Plan { actors: vec![Some(x)], k: 0, unsupported: false }));
        let r = with_ref(c, l, Default::default());
        remote::plan(None);
        let (mut n, p) = r?;
        count("layers-elsewhere", 1);
        for i in 0..early as u64 {
            fl("write", n.write(b"before"))?;
            fl("read", n.recv(&p.user(i, b"before")))?;
        }
        let r = match &n.lay {
            Lay::Rem(r) => r.faulty(&data, left, cap),
            _ => Err(Fault::Panic("harness: not elsewhere".into())),
        };
        log(|| format!("{}: write {}B into an output that breaks after {} -> {:?}", b, size, left, r.as_ref().map_err(|f| f.show())));
        match r {
            Ok(_) => return bad("C15-cut-and-ok", format!("with features [{}]: {}B written with success into an output that broke after {}", b, size, left)),
            Err(f) => {
                ensure!(!f.is_panic(), "C15-panic", "with features [{}]: {}", b, f.show());
                said.push(f.show());
            }
        }
        ensure!(n.write(b"after").is_err(), "C15-goes-on", "with features [{}]: after a failed write the next one succeeds", b);
        ensure!(n.try_clone().is_err(), "C15-goes-on", "with features [{}]: after a failed write a clone can be made", b);
        ensure!(n.recv(&p.user(early as u64, b"late")).map_or(true, |v| v.is_empty()), "C08-delivers", "with features [{}]: after a failed write a message is delivered", b);
    }
    ensure!(said[0] == said[1], "other-error", "with features [{}] a broken output gives {}, with all of them {}", bx, said[0], said[1]);
    count("broken-outputs", 1);
    Ok(())
}

fn shown(n: u64) -> Vec<u8> {
    format!("{:?}", val::V::make(n)).into_bytes()
}

/// typed values between two builds that both have the complete level
fn typed(c: &mut Ctx) -> CaseR {
    let k = (c.idx / 3) as usize;
    let bx = BUILDS[2 + k % 8];
    let by = BUILDS[1 + k / 8 % 9];
    let (ax, ay) = (actor(bx)?, actor(by)?);
    let fx = formats(bx);
    let fy = formats(by);
    let form = |f: &str| match f {
        "bin" => pkstl::MessageFormat::Bincode,
        "cbor" => pkstl::MessageFormat::Cbor,
        "json" => pkstl::MessageFormat::Utf8Json,
        "text" => pkstl::MessageFormat::Utf8PlainText,
        _ => pkstl::MessageFormat::RawBinary,
    };
    // what the sender writes in; what the receiver happens to be configured with
    let f: &str = if fx.is_empty() || c.rng.pct(15) { *c.rng.pick(&["raw", "text"]) } else { *c.rng.pick(&fx[..]) };
    let g: &str = if fy.is_empty() || c.rng.pct(30) { "raw" } else { *c.rng.pick(&fy[..]) };
    let (lv, t) = (c.rng.below(10) as u32, *c.rng.pick(&[0usize, 100, 8_192]));
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    fp(c.rng.u64());
    remote::plan(Some(Plan { actors: vec![Some(ax), Some(ay)], k: 0, unsupported: false }));
    let a = Node::create("A", Lvl::Cpl, cfg_with(lv, t, form(f)), &ka, None);
    let b = Node::create("B", Lvl::Cpl, cfg_with(lv, t, form(g)), &kb, None);
    remote::plan(None);
    let (mut a, mut b) = (fl("create", a)?, fl("create", b)?);
    count("layers-elsewhere", 2);
    let writes = !["raw", "text"].contains(&f);
    let reads = writes && fy.contains(&f);
    let here = format!("[{}] to [{}], format {}", bx, by, f);
    let num = |n: &mut Node, what: &str, x: u64| -> R<Vec<u8>> {
        let r = match &n.lay {
            Lay::Rem(r) => r.num(what, x),
            _ => Err(Fault::Err("?".into())),
        };
        log(|| format!("{}: {} value {:x} -> {}", n.name, what, x, r.as_ref().map_or_else(|f| f.show(), |v| format!("{}B", v.len()))));
        r
    };
    let tread = |n: &mut Node, fr: &[u8]| -> R<Vec<Ev>> {
        let r = match &n.lay {
            Lay::Rem(r) if formats_ser(&r.build()) => r.evs("tread", fr),
            Lay::Rem(r) => r.evs("read", fr).and_then(|_| Err(Fault::Err("no typed values in this build".into()))),
            _ => Err(Fault::Err("?".into())),
        };
        log(|| format!("{}: read {}B typed -> {}", n.name, fr.len(), r.as_ref().map_or_else(|f| f.show(), |v| shorts(v))));
        r
    };
    // one message of each kind; a refused value must leave the connection as it was
    let check = |c: &mut Ctx, a: &mut Node, b: &mut Node, kind: &str| -> CaseR {
        let x = c.rng.u64() >> 8;
        let typed_first = kind == "twrite" || c.rng.pct(60);
        let plain = |a: &mut Node| match kind {
            "tconnect" => a.connect(Some(b"bytes")),
            "tack" => a.ack(Some(b"bytes")),
            _ => a.write(b"bytes"),
        };
        let data = |v: &[Ev]| match v {
            [Ev::Connect { data, .. }] | [Ev::Ack { data }] | [Ev::Msg { data }] => data.clone(),
            _ => None,
        };
        if typed_first {
            match num(a, kind, x) {
                Ok(fr) => {
                    ensure!(writes, "raw-typed", "{}: a value was written in a format for bytes only", here);
                    match tread(b, &fr) {
                        Ok(v) => {
                            ensure!(reads, "missing-format-read", "{}: the receiver cannot know the format and read {}", here, shorts(&v));
                            ensure!(data(&v) == Some(shown(x)), "value", "{}: {} value {:x} came out as {}", here, kind, x, shorts(&v));
                            count("values-equal", 1);
                        }
                        Err(e) => {
                            ensure!(!e.is_panic(), "panic", "{}: {}", here, e.show());
                            ensure!(!reads, "value-refused", "{}: {} value {:x} refused: {}", here, kind, x, e.show());
                            count("format-missing", 1);
                        }
                    }
                    return Ok(());
                }
                Err(e) => {
                    ensure!(!e.is_panic(), "panic", "{}: {}", here, e.show());
                    ensure!(!writes, "value-unwritten", "{}: {} value {:x} not written: {}", here, kind, x, e.show());
                    count("format-for-bytes", 1);
                }
            }
        }
        let fr = fl(kind, plain(a))?;
        let v = fl("read", b.recv(&fr))?;
        ensure!(data(&v) == Some(b"bytes".to_vec()), "bytes", "{}: bytes came out as {}", here, shorts(&v));
        Ok(())
    };
    check(c, &mut a, &mut b, "tconnect")?;
    let f = fl("connect", b.connect(None))?;
    fl("read", a.recv(&f))?;
    check(c, &mut a, &mut b, "tack")?;
    let f = fl("ack", b.ack(None))?;
    fl("read", a.recv(&f))?;
    let n = c.rng.range(1, 6);
    for _ in 0..n {
        check(c, &mut a, &mut b, "twrite")?;
        let fr = fl("write", a.write(b"after"))?;
        let v = fl("read after", b.recv(&fr))?;
        ensure!(v == vec![Ev::Msg { data: Some(b"after".to_vec()) }], "after", "{}: the next message came out as {}", here, shorts(&v));
        let fr = fl("write", b.write(b"back"))?;
        let v = fl("read back", a.recv(&fr))?;
        ensure!(v == vec![Ev::Msg { data: Some(b"back".to_vec()) }], "after", "{}: the answer came out as {}", here, shorts(&v));
    }
    Ok(())
}
fn formats_ser(build: &str) -> bool {
    build != "none" && build != "zip"
}
