//! C14: serialized values round-trip in every format, detected from the message.
use super::c11::encoded;
use crate::ensure;
use crate::node::*;
use crate::run::*;
use crate::util::*;
use pkstl::MessageFormat;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub static P: Prop = Prop {
    id: "C14",
    f: c14,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "generated values of 21 top-level types (scalars at their limits, strings of all planes, byte strings, options, sequences, maps with string and integer keys, tuples, structs, enums of all shapes, nested up to 6 deep; 128-bit integers, any float, untagged, tagged and flattened types, types of the standard library, bytes as such and chains 50 deep, values that use another connection of the same thread while they are serialized and read, where the format itself, used directly, gives them back) sent in CONNECT, ACK (also early) and user messages (also set aside) in every format, formats switched between messages, receiver configured differently; in between, values that cannot be serialized, formats without serializer, and messages that do not decode, after which the connection must go on; non-trivial: all; distinct: by type, formats and size",
    assumptions: &["values that the format, used directly, does not give back (NaN, infinities and nested options in JSON, some floats with the pinned serde_json) are not generated"],
    setup_is_bad: true,
    floors: &[("values", 50_000), ("unserializable", 3_000), ("undecodable", 3_000), ("format-switches", 3_000), ("sifted-values", 30_000), ("values-aside", 10_000)],
    level: "exploration",
};

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum V {
    Unit,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<V>>),
    Seq(Vec<V>),
    Map(BTreeMap<String, V>),
    Tup(i8, u16, String),
    St { a: i32, b: Option<String>, c: Vec<bool> },
    New(Box<V>),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Wrap(u64);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Rec {
    name: String,
    n: i64,
    v: Vec<V>,
    m: BTreeMap<i32, String>,
    o: Option<(u8, char)>,
    u: (),
}

fn string(c: &mut Ctx) -> String {
    let n = match c.rng.below(6) {
        0 => 0,
        1..=3 => c.rng.below(20),
        4 => c.rng.below(300),
        _ => size(c, 9_000),
    };
    let pool = ['a', 'Z', '0', '"', '\\', '/', '\n', '\r', '\t', '\u{0}', '\u{1f}', '\u{7f}', 'é', 'ß', '€', '漢', '\u{2028}', '\u{fffd}', '\u{10ffff}', '😀', '{', ']', ' '];
    (0..n)
        .map(|_| if c.rng.pct(50) { *c.rng.pick(&pool) } else { char::from(c.rng.range(0x20, 0x7e) as u8) })
        .collect()
}
fn int(c: &mut Ctx) -> i64 {
    match c.rng.below(5) {
        0 => *c.rng.pick(&[0, 1, -1, i64::MIN, i64::MAX, 127, 128, -128, -129, 255, 256, 65_535, 65_536, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, 23, 24, -24, -25]),
        1 => c.rng.below(100) as i64 - 50,
        _ => (c.rng.u64() >> c.rng.below(64)) as i64,
    }
}
fn float(c: &mut Ctx) -> f64 {
    match c.rng.below(4) {
        0 => *c.rng.pick(&[0.0, 1.0, -1.0, 0.5, -0.25, 1024.0, 3.75, 65504.0, 65536.0]),
        _ => (c.rng.below(1 << 20) as f64 - 524_288.0) / 64.0,
    }
}
fn value(c: &mut Ctx, depth: u32) -> V {
    let k = if depth == 0 { c.rng.below(8) } else { c.rng.below(14) };
    match k {
        0 => V::Unit,
        1 => V::Bool(c.rng.pct(50)),
        2 => V::I(int(c)),
        3 => V::U(int(c) as u64),
        4 => V::F(float(c)),
        5 => V::Char(*c.rng.pick(&['a', '\u{0}', '"', 'é', '\u{10ffff}', '😀'])),
        6 => V::Str(string(c)),
        7 => {
            let n = c.rng.below(60);
            V::Bytes(content(c, n))
        }
        8 => V::Opt(if c.rng.pct(40) { None } else { Some(Box::new(value(c, depth - 1))) }),
        9 => V::Seq((0..c.rng.below(6)).map(|_| value(c, depth - 1)).collect()),
        10 => V::Map((0..c.rng.below(5)).map(|_| (string(c), value(c, depth - 1))).collect()),
        11 => V::Tup(int(c) as i8, int(c) as u16, string(c)),
        12 => V::St {
            a: int(c) as i32,
            b: if c.rng.pct(50) { None } else { Some(string(c)) },
            c: (0..c.rng.below(9)).map(|_| c.rng.pct(50)).collect(),
        },
        _ => V::New(Box::new(value(c, depth - 1))),
    }
}
fn rec(c: &mut Ctx) -> Rec {
    Rec {
        name: string(c),
        n: int(c),
        v: (0..c.rng.below(4)).map(|_| value(c, 3)).collect(),
        m: (0..c.rng.below(5)).map(|_| (int(c) as i32, string(c))).collect(),
        o: if c.rng.pct(50) { None } else { Some((c.rng.u64() as u8, '漢')) },
        u: (),
    }
}

/// a value that refuses to be serialized, at once or after some output
struct Bad(u8);
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        match self.0 {
            0 => Err(S::Error::custom("no")),
            1 => {
                let mut q = s.serialize_seq(Some(3))?;
                q.serialize_element("some output first")?;
                q.serialize_element(&Bad(0))?;
                q.end()
            }
            _ => {
                let mut q = s.serialize_seq(Some(2_000))?;
                for i in 0..1_999u64 {
                    q.serialize_element(&i)?;
                }
                q.serialize_element(&Bad(0))?;
                q.end()
            }
        }
    }
}

thread_local! {
    /// another connection of the same thread, used by values while they are serialized
    static ASIDE: RefCell<Option<(Node, Node)>> = RefCell::new(None);
}
/// what goes over the other connection meanwhile
fn aside(n: u64) -> Result<(), String> {
    let (mut a, mut b) = match ASIDE.with(|x| x.borrow_mut().take()) {
        Some(x) => x,
        None => return Ok(()),
    };
    let m = (n, "aside".to_string());
    let r = match a.write_t(&m).map(|f| b.recv_t::<(u64, String)>(&f)) {
        Ok(Ok(v)) if v == [EvT::Msg { data: Some(m) }] => Ok(()),
        r => Err(format!("a value on another connection, while this one is serialized: {:?}", r)),
    };
    count("values-aside", 1);
    ASIDE.with(|x| *x.borrow_mut() = Some((a, b)));
    r
}
/// a value that uses another connection while it is serialized and while it is read
#[derive(Debug, PartialEq, Clone)]
struct Busy(u64);
impl Serialize for Busy {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        aside(self.0).map_err(serde::ser::Error::custom)?;
        s.serialize_u64(self.0)
    }
}
impl<'de> Deserialize<'de> for Busy {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u64::deserialize(d)?;
        aside(n).map_err(serde::de::Error::custom)?;
        Ok(Busy(n))
    }
}
fn busy(c: &mut Ctx) -> CaseR {
    let f = *c.rng.pick(&FMTS);
    let conf = cfg_with(1, 100, f);
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let mut a = fl("create", Node::create("A2", Lvl::Cpl, conf, &ka, None))?;
    let mut b = fl("create", Node::create("B2", Lvl::Cpl, conf, &kb, None))?;
    shake(&mut a, &mut b)?;
    ASIDE.with(|x| *x.borrow_mut() = Some((a, b)));
    let r = trip(c, &FMTS, &|c: &mut Ctx| (string(c), Busy(int(c) as u64), (0..c.rng.below(4)).map(|i| Busy(i as u64)).collect::<Vec<_>>(), int(c)));
    ASIDE.with(|x| x.borrow_mut().take());
    r
}

const FMTS: [MessageFormat; 3] = [MessageFormat::Utf8Json, MessageFormat::Cbor, MessageFormat::Bincode];

const WIDE: [MessageFormat; 2] = [MessageFormat::Utf8Json, MessageFormat::Bincode];

/// only values that each of the formats gives back as they were, used directly
fn faithful<'a, M>(fmts: &'a [MessageFormat], gen: &'a dyn Fn(&mut Ctx) -> M) -> impl Fn(&mut Ctx) -> M + 'a
where
    M: Serialize + DeserializeOwned + PartialEq,
{
    move |c| loop {
        let m = gen(c);
        if fmts.iter().all(|f| encoded(*f, &m).and_then(|d| decoded::<M>(&d)).as_ref() == Some(&m)) {
            count("sifted-values", 1);
            return m;
        }
        count("sifted-out", 1);
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Wide {
    a: u128,
    b: Vec<i128>,
    m: BTreeMap<u64, Option<u128>>,
}
fn wide(c: &mut Ctx) -> Wide {
    Wide {
        a: u128::MAX >> c.rng.below(128),
        b: (0..c.rng.below(5)).map(|_| (c.rng.u64() as i128) << c.rng.below(64)).collect(),
        m: (0..c.rng.below(4)).map(|_| (c.rng.u64(), if c.rng.pct(30) { None } else { Some(u128::from(c.rng.u64()) << 70) })).collect(),
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Loose {
    Flag(bool),
    Int(i64),
    Float(f64),
    Text(String),
    List(Vec<Loose>),
    Tagged(Tagged),
    Map(BTreeMap<String, Loose>),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "type", rename_all = "kebab-case", deny_unknown_fields)]
enum Tagged {
    OneThing { at: u32, text: String },
    OtherThing {},
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Open {
    #[serde(rename = "é \"n\"")]
    n: u16,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    absent: Option<u8>,
    any: Loose,
    #[serde(flatten)]
    rest: BTreeMap<String, Loose>,
}
fn some_loose(c: &mut Ctx, d: u32) -> Loose {
    match c.rng.below(if d == 0 { 4 } else { 7 }) {
        0 => Loose::Flag(c.rng.pct(50)),
        1 => Loose::Int(int(c)),
        2 => Loose::Float(float(c) + 0.5),
        3 => Loose::Text(string(c)),
        4 => Loose::List((0..c.rng.below(4)).map(|_| some_loose(c, d - 1)).collect()),
        5 => Loose::Tagged(if c.rng.pct(50) { Tagged::OtherThing {} } else { Tagged::OneThing { at: 7, text: string(c) } }),
        _ => Loose::Map((0..c.rng.below(4)).map(|_| (string(c), some_loose(c, d - 1))).collect()),
    }
}
fn loose(c: &mut Ctx) -> Open {
    Open {
        n: c.rng.u64() as u16,
        absent: if c.rng.pct(50) { None } else { Some(3) },
        any: some_loose(c, 3),
        rest: (0..c.rng.below(4)).map(|i| (format!("k{}", i), some_loose(c, 2))).collect(),
    }
}
type StdTypes = (std::time::Duration, std::net::IpAddr, std::num::NonZeroU32, Box<[u16]>, std::collections::VecDeque<[u8; 4]>, Result<char, String>, BTreeMap<char, Option<()>>, ByteBuf);
fn std_types(c: &mut Ctx) -> StdTypes {
    let ip: std::net::IpAddr = if c.rng.pct(50) { std::net::Ipv6Addr::from(u128::from(c.rng.u64())).into() } else { std::net::Ipv4Addr::from(c.rng.u64() as u32).into() };
    let n = c.rng.below(300);
    (
        std::time::Duration::new(c.rng.u64(), c.rng.below(1_000_000_000) as u32),
        ip,
        std::num::NonZeroU32::new(c.rng.u64() as u32 | 1).expect("not 0"),
        (0..c.rng.below(5)).map(|_| c.rng.u64() as u16).collect(),
        (0..c.rng.below(3)).map(|_| (c.rng.u64() as u32).to_be_bytes()).collect(),
        if c.rng.pct(50) { Ok('\u{2028}') } else { Err(string(c)) },
        (0..c.rng.below(3)).map(|i| (['x', '"', '😀'][i], None)).collect(),
        ByteBuf(content(c, n)),
    )
}
/// bytes written as such
#[derive(Debug, PartialEq, Clone)]
struct ByteBuf(Vec<u8>);
impl Serialize for ByteBuf {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for ByteBuf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = ByteBuf;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<ByteBuf, E> {
                Ok(ByteBuf(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<ByteBuf, E> {
                Ok(ByteBuf(v))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<ByteBuf, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(ByteBuf(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

fn c14(c: &mut Ctx) -> CaseR {
    c.nontrivial = true;
    let t = c.idx % 23;
    fp(t);
    match t {
        0 | 1 | 2 => trip(c, &FMTS, &|c: &mut Ctx| value(c, 6)),
        3 => trip(c, &FMTS, &|_: &mut Ctx| ()),
        4 => trip(c, &FMTS, &|c: &mut Ctx| c.rng.u64() as u8),
        5 => trip(c, &FMTS, &|c: &mut Ctx| int(c)),
        6 => trip(c, &FMTS, &|c: &mut Ctx| float(c)),
        7 => trip(c, &FMTS, &|c: &mut Ctx| c.rng.pct(50)),
        8 => trip(c, &FMTS, &|c: &mut Ctx| string(c)),
        9 => trip(c, &FMTS, &|c: &mut Ctx| payload(c, 30_000)),
        10 => trip(c, &FMTS, &|c: &mut Ctx| if c.rng.pct(30) { None } else { Some(c.rng.u64() as u32) }),
        11 => trip(c, &FMTS, &|c: &mut Ctx| (0..c.rng.below(8)).map(|_| (int(c), string(c))).collect::<BTreeMap<i64, String>>()),
        12 => trip(c, &FMTS, &|c: &mut Ctx| (c.rng.u64() as u8, string(c), Unit, Wrap(c.rng.u64()))),
        15 => undecodable_nego(c),
        13 => trip(c, &FMTS, &|c: &mut Ctx| (0..c.rng.below(30)).map(|_| string(c)).collect::<Vec<String>>()),
        14 => trip(c, &FMTS, &rec),
        // what only some of the formats can hold, and what is told apart by the form alone
        16 => trip(c, &WIDE, &faithful(&WIDE, &wide)),
        17 => trip(c, &WIDE, &faithful(&WIDE, &|c: &mut Ctx| if c.rng.pct(50) { c.rng.u64() as i128 * c.rng.u64() as i64 as i128 } else { i128::MIN + c.rng.below(3) as i128 })),
        18 => trip(c, &FMTS[..2], &faithful(&FMTS[..2], &loose)),
        19 => trip(c, &FMTS, &faithful(&FMTS, &|c: &mut Ctx| (f64::from_bits(c.rng.u64()), f32::from_bits(c.rng.u64() as u32)))),
        20 => trip(c, &FMTS, &faithful(&FMTS, &std_types)),
        21 => busy(c),
        _ => trip(c, &FMTS, &faithful(&FMTS, &|c: &mut Ctx| {
            let n = c.rng.range(1, 50);
            (0..n).fold(value(c, 1), |v, i| if i % 3 == 0 { V::Seq(vec![V::Unit, v]) } else { V::New(Box::new(v)) })
        })),
    }
}

fn brief<M: Debug>(m: &M) -> String {
    let s = format!("{:?}", m);
    s.chars().take(80).collect()
}

/// One connection over which values of type M travel in both directions.
fn trip<M>(c: &mut Ctx, fmts: &[MessageFormat], gen: &dyn Fn(&mut Ctx) -> M) -> CaseR
where
    M: Serialize + DeserializeOwned + Debug + PartialEq + Clone,
{
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let base = cfg(c);
    let mut fa = *c.rng.pick(fmts);
    let conf = |f: MessageFormat| pkstl::SecureLayerConfig { message_format: f, ..base };
    let mut a = fl("create", Node::create("A", Lvl::Cpl, conf(fa), &ka, None))?;
    // B: any format of its own, mostly different; writes in it when it can
    let fb0 = fmt(&mut c.rng);
    let mut b = fl("create", Node::create("B", Lvl::Cpl, cfg_with(1, 100, fb0), &kb, None))?;
    let opt = |c: &mut Ctx| if c.rng.pct(25) { None } else { Some(gen(c)) };
    fn is<M: PartialEq + Debug>(what: &str, r: R<Vec<EvT<M>>>, want: &[EvT<M>]) -> CaseR {
        count("values", want.len() as u64);
        match r {
            Ok(v) if v == want => Ok(()),
            Ok(v) => bad("value-differs", format!("{}: expected {} got {}", what, brief(&want), brief(&v))),
            Err(f) => bad("value-refused", format!("{}: expected {} got {}", what, brief(&want), f.show())),
        }
    }
    let switch = |c: &mut Ctx, a: &mut Node, fa: &mut MessageFormat| -> CaseR {
        if c.rng.pct(40) {
            *fa = *c.rng.pick(fmts);
            fl("config", a.config(conf(*fa)))?;
            count("format-switches", 1);
        }
        fp(*fa as u64);
        Ok(())
    };
    // ---- CONNECT, after attempts that cannot be serialized
    if c.rng.pct(30) {
        no_value(c, &mut a, conf(fa), 0)?;
    }
    switch(c, &mut a, &mut fa)?;
    let x1 = opt(c);
    let w1 = fl("connect<M>", a.connect_t(x1.as_ref()))?;
    let wb = fl("connect", b.connect_t::<M>(None))?;
    is("CONNECT", a.recv_t::<M>(&wb), &[EvT::Connect { pk: kb.pk.clone(), data: None }])?;
    if c.rng.pct(30) {
        no_value(c, &mut a, conf(fa), 1)?;
    }
    switch(c, &mut a, &mut fa)?;
    let x2 = opt(c);
    let w2 = fl("ack<M>", a.ack_t(x2.as_ref()))?;
    let e1 = EvT::Connect { pk: ka.pk.clone(), data: x1 };
    let e2 = EvT::Ack { data: x2 };
    if c.rng.pct(35) {
        // A's ACK is late: what A writes meanwhile, in one format after the other, comes with it
        is("CONNECT", b.recv_t::<M>(&w1), &[e1])?;
        let wb = fl("ack", b.ack_t::<M>(None))?;
        is("ACK", a.recv_t::<M>(&wb), &[EvT::Ack { data: None }])?;
        let mut want = vec![e2];
        for _ in 0..c.rng.range(1, 5) {
            switch(c, &mut a, &mut fa)?;
            let m = gen(c);
            let f = fl("write<M>", a.write_t(&m))?;
            is("early value", b.recv_t::<M>(&f), &[])?;
            want.push(EvT::Msg { data: Some(m) });
            count("early-values", 1);
        }
        is("late ACK and early values", b.recv_t::<M>(&w2), &want)?;
    } else {
        if c.rng.pct(40) {
            is("early ACK", b.recv_t::<M>(&w2), &[])?;
            is("CONNECT and early ACK", b.recv_t::<M>(&w1), &[e1, e2])?;
        } else {
            is("CONNECT", b.recv_t::<M>(&w1), &[e1])?;
            is("ACK", b.recv_t::<M>(&w2), &[e2])?;
        }
        let wb = fl("ack", b.ack_t::<M>(None))?;
        // B's first messages overtake its ACK
        let mut early = vec![];
        if fmts.contains(&fb0) {
            for _ in 0..c.rng.below(3) {
                let m = gen(c);
                let f = fl("write<M>", b.write_t(&m))?;
                is("early value", a.recv_t::<M>(&f), &[])?;
                early.push(EvT::Msg { data: Some(m) });
            }
        }
        let mut want = vec![EvT::Ack { data: None }];
        want.extend(early);
        is("ACK and early values", a.recv_t::<M>(&wb), &want)?;
    }
    // ---- user messages
    let mut number = 0;
    for _ in 0..c.rng.range(2, 6) {
        switch(c, &mut a, &mut fa)?;
        if c.rng.pct(35) {
            no_value(c, &mut a, conf(fa), 2)?;
        }
        if c.rng.pct(35) {
            // something that does not decode to M
            let (what, f, sure) = strange(c, &mut a)?;
            let r = b.recv_t::<u32>(&f);
            number += 1;
            count("undecodable", 1);
            match r {
                Ok(v) if sure => return bad("decoded-nonsense", format!("{}: decoded as {:?}", what, v)),
                Err(f) if f.is_panic() => return bad("panic", format!("{}: {}", what, f.show())),
                _ => (),
            }
            fl("config", a.config(conf(fa)))?;
        }
        if c.rng.pct(35) {
            let x = gen(c);
            spoiled(c, &mut a, &mut b, &x)?;
            number += 1;
        }
        let m = gen(c);
        let f = match a.write_t(&m) {
            Ok(f) => f,
            Err(f) => return bad("value-refused", format!("writing {} in {:?}: {}", brief(&m), fa, f.show())),
        };
        fp(f.len() as u64);
        if c.rng.pct(15) {
            // the binary API shows the same message
            let r = b.recv(&f);
            let want = encoded(fa, &m);
            ensure!(r.as_ref().ok() == Some(&vec![Ev::Msg { data: want }]), "binary-view", "value of format {:?} seen by read_bin: {}", fa, super::c11::show(&r));
            count("values", 1);
        } else {
            is("value", b.recv_t::<M>(&f), &[EvT::Msg { data: Some(m) }])?;
        }
        number += 1;
        if fmts.contains(&fb0) && c.rng.pct(50) {
            let m = gen(c);
            let f = fl("write<M>", b.write_t(&m))?;
            is("value back", a.recv_t::<M>(&f), &[EvT::Msg { data: Some(m) }])?;
        }
    }
    fp(number);
    Ok(())
}

/// calls that must be refused and must not disturb anything; `k`: 0 CONNECT, 1 ACK, 2 user message
fn no_value(c: &mut Ctx, a: &mut Node, back: pkstl::SecureLayerConfig, k: u32) -> CaseR {
    let kind = c.rng.below(5);
    let call = |a: &mut Node, bad: &dyn ErasedBad| -> R<Vec<u8>> { bad.send(a, k) };
    let (what, r) = match kind {
        0 | 1 => {
            let f = if kind == 0 { MessageFormat::RawBinary } else { MessageFormat::Utf8PlainText };
            fl("config", a.config(pkstl::SecureLayerConfig { message_format: f, ..back }))?;
            (format!("a value in format {:?}", f), call(a, &"text".to_string()))
        }
        2 => {
            // maps need string or number keys in JSON
            fl("config", a.config(pkstl::SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..back }))?;
            let m: BTreeMap<Vec<u8>, u8> = vec![(vec![1, 2], 3)].into_iter().collect();
            ("a JSON map with array keys".to_string(), call(a, &m))
        }
        _ => {
            let x = Bad(c.rng.below(3) as u8);
            (format!("an unserializable value in format {:?}", back.message_format), call(a, &x))
        }
    };
    count("unserializable", 1);
    match r {
        Ok(f) => return bad("wrote-unserializable", format!("{}: written as {} bytes", what, f.len())),
        Err(f) if f.is_panic() => return bad("panic", format!("{}: {}", what, f.show())),
        Err(_) => (),
    }
    fl("config", a.config(back))
}
trait ErasedBad {
    fn send(&self, a: &mut Node, k: u32) -> R<Vec<u8>>;
}
impl<T: Serialize> ErasedBad for T {
    fn send(&self, a: &mut Node, k: u32) -> R<Vec<u8>> {
        match k {
            0 => a.connect_t(Some(self)),
            1 => a.ack_t(Some(self)),
            _ => a.write_t(self),
        }
    }
}

/// a genuine user message that is not a u32 in any format; the flag says whether decoding must fail
fn strange(c: &mut Ctx, a: &mut Node) -> Result<(&'static str, Vec<u8>, bool), Fail> {
    Ok(match c.rng.below(9) {
        0 => ("less than 4 bytes", fl("write", a.write(&[0, 0, 0][..c.rng.below(4)]))?, true),
        1 => ("raw binary tag", fl("write", a.write(&[0, 0, 0, 0, 1, 2, 3]))?, true),
        2 => ("plain text tag", fl("write", a.write(&[0, 0, 0, 1, b'1', b'2']))?, true),
        3 => {
            let t = c.rng.range(5, 255) as u8;
            ("unknown tag", fl("write", a.write(&[0, 0, 0, t, b'1', b'2']))?, true)
        }
        4 => {
            let i = c.rng.below(3);
            let mut d = vec![0, 0, 0, 2, b'1'];
            d[i] = 1 + c.rng.below(255) as u8;
            ("unknown tag", fl("write", a.write(&d))?, true)
        }
        5 => ("JSON text for a number", fl("write", a.write(b"\0\0\0\x02\"12\""))?, true),
        6 => ("cut JSON", fl("write", a.write(b"\0\0\0\x02[1,"))?, true),
        7 => ("CBOR text for a number", fl("write", a.write(&[0, 0, 0, 3, 0x62, b'1', b'2']))?, true),
        _ => ("cut bincode", fl("write", a.write(&[0, 0, 0, 4, 1, 2]))?, true),
    })
}

/// what the library of the format makes of the bytes
fn decoded<M: DeserializeOwned>(d: &[u8]) -> Option<M> {
    match d.get(..4)? {
        [0, 0, 0, 2] => serde_json::from_slice(&d[4..]).ok(),
        [0, 0, 0, 3] => serde_cbor::from_slice(&d[4..]).ok(),
        [0, 0, 0, 4] => bincode::deserialize(&d[4..]).ok(),
        _ => None,
    }
}

/// an encoded value cut, extended, under another tag or with a byte changed: decoded exactly when the format says so
fn spoiled<M>(c: &mut Ctx, a: &mut Node, b: &mut Node, m: &M) -> CaseR
where
    M: Serialize + DeserializeOwned + Debug + PartialEq,
{
    let f = *c.rng.pick(&FMTS);
    let mut d = match encoded(f, m) {
        Some(d) => d,
        None => return Ok(()),
    };
    let n = d.len();
    let what = match c.rng.below(4) {
        0 => {
            d.truncate(c.rng.below(n));
            "cut"
        }
        1 => {
            let k = c.rng.range(1, 4);
            let x = if c.rng.pct(50) { c.rng.bytes(k) } else { d[4..].to_vec() };
            d.extend_from_slice(&x);
            "extended"
        }
        2 => {
            d[3] = c.rng.below(7) as u8;
            "another tag"
        }
        _ => {
            // lengths stay small: the formats trust them
            let i = 4 + c.rng.below(n - 3).min(n.saturating_sub(5));
            if i < n && f != MessageFormat::Bincode {
                d[i] ^= 1 << c.rng.below(7);
            }
            "a changed byte"
        }
    };
    if f == MessageFormat::Bincode && d.get(3) != Some(&4) || f != MessageFormat::Bincode && d.get(3) == Some(&4) {
        // bytes of one format read as bincode hold any length: only that no value comes out of the others
        if d.get(3) == Some(&4) {
            return Ok(());
        }
    }
    let want = decoded::<M>(&d);
    let w = fl("write", a.write(&d))?;
    count("undecodable", u64::from(want.is_none()));
    match (b.recv_t::<M>(&w), want) {
        (Ok(v), Some(x)) => {
            // (a changed byte may make a float that is no number)
            let same = v == [EvT::Msg { data: Some(x) }];
            ensure!(same || format!("{:?}", v).contains("NaN"), "value-differs", "{} ({:?}): got {}", what, f, brief(&v));
            Ok(())
        }
        (Ok(v), None) => bad("decoded-nonsense", format!("{} ({:?}): decoded as {}", what, f, brief(&v))),
        (Err(e), Some(_)) => bad("value-refused", format!("{} ({:?}): {}", what, f, e.show())),
        (Err(e), None) => {
            ensure!(!e.is_panic(), "panic", "{}: {}", what, e.show());
            Ok(())
        }
    }
}

/// custom data of CONNECT and ACK that does not decode: an error, and the negotiation goes on
fn undecodable_nego(c: &mut Ctx) -> CaseR {
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let f = *c.rng.pick(&FMTS);
    let lv = c.rng.below(10) as u32;
    fp(f as u64);
    let mut a = fl("create", Node::create("A", Lvl::Cpl, cfg_with(lv, 0, f), &ka, None))?;
    let mut b = fl("create", Node::create("B", Lvl::Cpl, cfg(c), &kb, None))?;
    // text that is not a number; raw bytes; a bincode that is too short
    let junk = |c: &mut Ctx| match c.rng.below(4) {
        0 => vec![0, 0, 0, 2, b'"', b'x', b'"'],
        1 => c.rng.bytes(3),
        2 => vec![0, 0, 0, 4, 1],
        _ => vec![9; 30],
    };
    let (bad1, bad2) = (c.rng.pct(70), c.rng.pct(70));
    let n1 = c.rng.u64() as u32;
    let w1 = if bad1 { let j = junk(c); fl("connect", a.connect(Some(&j)))? } else { fl("connect", a.connect_t(Some(&n1)))? };
    let wb = fl("connect", b.connect(None))?;
    fl("recv", a.recv_t::<u32>(&wb))?;
    let w2 = if bad2 { let j = junk(c); fl("ack", a.ack(Some(&j)))? } else { fl("ack", a.ack_t(Some(&n1)))? };
    fp(u64::from(bad1) * 2 + u64::from(bad2));
    for (w, bad_, what) in [(w1, bad1, "CONNECT"), (w2, bad2, "ACK")] {
        count(if bad_ { "undecodable" } else { "values" }, 1);
        match b.recv_t::<u32>(&w) {
            Ok(v) => {
                let good = match &v[..] {
                    [EvT::Connect { pk, data }] => *pk == ka.pk && *data == Some(n1) && what == "CONNECT",
                    [EvT::Ack { data }] => *data == Some(n1) && what == "ACK",
                    _ => false,
                };
                ensure!(!bad_ && good, if bad_ { "decoded-nonsense" } else { "value-differs" }, "{}: got {:?}", what, v);
            }
            Err(f) => {
                ensure!(!f.is_panic(), "panic", "{}: {}", what, f.show());
                ensure!(bad_, "value-refused", "{}: {}", what, f.show());
            }
        }
    }
    // the connection is usable in both directions
    let wb = match b.ack(None) {
        Ok(w) => w,
        Err(f) => return bad("unusable-after-undecodable", format!("ACK after undecodable custom data: {}", f.show())),
    };
    fl("recv", a.recv_t::<u32>(&wb))?;
    for i in 0..3u32 {
        let w = fl("write<M>", a.write_t(&i))?;
        let r = b.recv_t::<u32>(&w);
        ensure!(matches!(&r, Ok(v) if v[..] == [EvT::Msg { data: Some(i) }]), "unusable-after-undecodable", "a value after undecodable custom data: {:?}", r);
        let w = match b.write(&[0, 0, 0, 2, b'5']) {
            Ok(w) => w,
            Err(f) => return bad("unusable-after-undecodable", format!("writing after undecodable custom data: {}", f.show())),
        };
        let r = a.recv_t::<u32>(&w);
        ensure!(matches!(&r, Ok(v) if v[..] == [EvT::Msg { data: Some(5) }]), "unusable-after-undecodable", "a value back: {:?}", r);
        count("values", 2);
    }
    Ok(())
}
