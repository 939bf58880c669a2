//! Workload building blocks: payloads, configurations, the reference peer, honest handshakes.
use crate::node::*;
use crate::refp::{self, EKey, Sess, SigKey};
use crate::rng::Rng;
use crate::run::*;
use pkstl::{MessageFormat, SecureLayerConfig};

pub fn sigkey(r: &mut Rng) -> SigKey {
    SigKey::new(r.arr32())
}
pub fn ekey(r: &mut Rng) -> EKey {
    EKey::new(r.arr32())
}

fn numbered(n: u64) -> [u8; 32] {
    let mut s = [0; 32];
    s[..8].copy_from_slice(&n.to_le_bytes());
    s
}
/// now and then a key whose public part begins or ends with two or three bytes 00 or ff, or has 00 00 00 in it
pub fn rare_sigkey(r: &mut Rng) -> SigKey {
    if r.u64() % 40 == 0 {
        return SigKey::new(numbered(*r.pick(&[74_884u64, 248_095, 9_030, 699_738, 43_152, 379_627])));
    }
    sigkey(r)
}
pub fn rare_ekey(r: &mut Rng) -> EKey {
    if r.u64() % 40 == 0 {
        return EKey::new(numbered(*r.pick(&[923_552u64, 72_536, 280_331, 203_956, 214_416, 1_294_923])));
    }
    ekey(r)
}

/// one more than the largest constant of the library up to `limit` (at least 2^20)
/// damage a value in ways a sloppy comparison may not see: changes that cancel each other out in a sum or an
/// exclusive or, that leave one half or all but one byte alone, that only reorder
pub fn near_miss(r: &mut Rng, b: &mut [u8]) {
    let n = b.len();
    let old = b.to_vec();
    let (i, j) = (r.below(n), r.below(n));
    match r.below(16) {
        0 | 1 => b[i] ^= 1 << r.below(8),
        2 => {
            let m = r.range(1, 255) as u8;
            b[i] ^= m;
            b[j] ^= m;
        }
        3 => {
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
        }
        4 => b.swap(i, j),
        5 => b.reverse(),
        6 => {
            let k = r.range(1, n - 1);
            b.rotate_left(k);
        }
        7 => {
            for x in b[..n / 2].iter_mut() {
                *x = r.below(256) as u8;
            }
        }
        8 => {
            for x in b[n / 2..].iter_mut() {
                *x = r.below(256) as u8;
            }
        }
        9 => b[n - 1] ^= r.range(1, 255) as u8,
        10 => b[0] ^= r.range(1, 255) as u8,
        11 => {
            // all but one byte
            let keep = b[i];
            for x in b.iter_mut() {
                *x = r.below(256) as u8;
            }
            b[i] = keep;
        }
        12 => {
            let w = *r.pick(&[2usize, 4, 8, 16]);
            for k in b.chunks_mut(w) {
                k.reverse();
            }
        }
        13 => {
            for x in b.iter_mut() {
                *x = !*x;
            }
        }
        14 => {
            // two words change places
            let w = *r.pick(&[2usize, 4, 8, 16]);
            let (p, q) = (i / w * w, j / w * w);
            if p + w <= n && q + w <= n {
                for k in 0..w {
                    b.swap(p + k, q + k);
                }
            }
        }
        _ => {
            // the same difference in two words
            let (p, q) = (i / 8 * 8, j / 8 * 8);
            if p + 8 <= n && q + 8 <= n {
                for k in 0..8 {
                    let m = r.below(256) as u8;
                    b[p + k] ^= m;
                    b[q + k] ^= m;
                }
            }
        }
    }
    if b == &old[..] {
        b[i] ^= 1 << r.below(8);
    }
}
pub fn deep(c: &Ctx, limit: u64) -> u64 {
    5 + c.dict.nums.iter().rev().find(|x| **x <= limit).cloned().unwrap_or(70_000)
}
pub fn size(c: &mut Ctx, max: usize) -> usize {
    if c.giant && max >= 40 {
        c.giant = false;
        count("giant-payloads", 1);
        return *c.rng.pick(&[8_500_000usize, 17_000_000, 34_000_000]) + c.rng.below(1_000);
    }
    if c.lift && max >= 40 && c.rng.u64() % 1_000 < 3 {
        // far more than is usual there
        count("oversize-payloads", 1);
        return match c.rng.below(10) {
            0 if !c.dict.big.is_empty() => *c.rng.pick(&c.dict.big),
            1 => c.rng.below(3_000_000),
            _ => c.rng.below(200_000),
        };
    }
    let edges = [
        0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 47, 48, 63, 64, 65, 96, 100, 127,
        128, 129, 136, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8000, 8091,
        8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536,
        65_537, 100_000, 131_072,
    ];
    let n = match c.rng.below(10) {
        0..=3 => *c.rng.pick(&edges),
        4 => {
            // dictionary value, possibly minus what the layer adds around the payload
            if c.dict.sizes.is_empty() {
                0
            } else {
                let d = *c.rng.pick(&c.dict.sizes);
                let sub = *c.rng.pick(&[0usize, 0, 4, 5, 8, 10, 16, 18, 26, 32, 34, 48, 58, 70, 74, 86, 150]);
                d.saturating_sub(sub)
            }
        }
        5..=7 => c.rng.below(80),
        8 => c.rng.below(3000),
        _ => c.rng.below(max.max(1)),
    };
    n.min(max)
}

pub fn content(c: &mut Ctx, n: usize) -> Vec<u8> {
    let mut v = match c.rng.below(8) {
        0 => vec![0u8; n],
        1 => vec![0xffu8; n],
        2 => (0..n).map(|i| (i % 251) as u8).collect(),
        3 => b"The quick brown fox jumps over the lazy dog. ".iter().cycle().take(n).cloned().collect(),
        4 => {
            // runs
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let b = c.rng.u64() as u8;
                let k = 1 + c.rng.below(300);
                v.extend(std::iter::repeat(b).take(k));
            }
            v.truncate(n);
            v
        }
        _ => c.rng.bytes(n),
    };
    if c.rng.pct(15) && n > 0 {
        // look like the beginning of something the library knows
        let pre: Vec<u8> = match c.rng.below(15) {
            0 => refp::MAGIC.to_vec(),
            1 => refp::user_body(0, b""),
            2 => vec![0, 0, 0, c.rng.below(6) as u8],
            3 => refp::hashed(&refp::user_body(1, b"inner")),
            4 => vec![1, 0, 0, 0xff, 0xff],
            5 => vec![3, 0],
            6 => refp::connect_body(&[9; 32], &[7; 32], b"x"),
            7 => vec![0x78, *c.rng.pick(&[0x01u8, 0x5e, 0x9c, 0xda])],
            8 => vec![0x1f, 0x8b, 8],
            9 => vec![0xef, 0xbb, 0xbf],
            10 => b"null".to_vec(),
            11 => b"{\"v\":1}".to_vec(),
            12 => refp::deflate(b"a stream inside the stream", 6),
            13 => b" \t\r\n".to_vec(),
            _ => vec![0],
        };
        for (i, b) in pre.iter().enumerate() {
            if i < n {
                v[i] = *b;
            }
        }
    }
    if c.rng.pct(8) && n > 0 {
        v[n - 1] = *c.rng.pick(&[0u8, 0, 0, b'\n', b' ', 0x80, 0xff]);
    }
    v
}
pub fn payload(c: &mut Ctx, max: usize) -> Vec<u8> {
    let n = size(c, max);
    content(c, n)
}
/// a payload that is unique in its case (tagged) unless empty
pub fn tagged(c: &mut Ctx, tag: u64, max: usize) -> Vec<u8> {
    let mut v = payload(c, max);
    let t = crate::rng::mix(tag ^ c.rng.u64()).to_be_bytes();
    v.extend_from_slice(&t);
    v
}
pub fn custom(c: &mut Ctx, max: usize) -> Option<Vec<u8>> {
    match c.rng.below(5) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(payload(c, max)),
    }
}
pub fn fmt(r: &mut Rng) -> MessageFormat {
    *r.pick(&[
        MessageFormat::RawBinary,
        MessageFormat::Utf8PlainText,
        MessageFormat::Utf8Json,
        MessageFormat::Cbor,
        MessageFormat::Bincode,
    ])
}
pub fn cfg(c: &mut Ctx) -> SecureLayerConfig {
    if c.rng.pct(20) {
        return SecureLayerConfig::default();
    }
    let lv = c.rng.below(10) as u32;
    let min = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => c.rng.below(100),
        3 => size(c, 100_000),
        4 => usize::MAX,
        _ => 8_192,
    };
    let f = fmt(&mut c.rng);
    cfg_with(lv, min, f)
}
pub fn lvl(r: &mut Rng) -> Lvl {
    if r.pct(50) || !crate::remote::has_complete() {
        Lvl::Min
    } else {
        Lvl::Cpl
    }
}

/// The independent implementation playing the other end.
#[derive(Clone)]
pub struct Peer {
    pub key: SigKey,
    pub ek: EKey,
    pub lvl: Lvl,
    pub z: u32,
    /// ephemeral key of the layer under test, once its CONNECT was seen
    pub remote_epk: Option<Vec<u8>>,
    pub sess: Option<Sess>,
}
impl Peer {
    pub fn new(r: &mut Rng, lvl: Lvl) -> Peer {
        Peer { key: rare_sigkey(r), ek: rare_ekey(r), lvl, z: r.below(10) as u32, remote_epk: None, sess: None }
    }
    pub fn learn(&mut self, connect_frame: &[u8]) -> bool {
        match refp::parse(connect_frame) {
            Some(refp::Parsed::Connect { epk, sig_ok: true, .. }) => {
                self.sess = self.ek.agree(&epk);
                self.remote_epk = Some(epk);
                self.sess.is_some()
            }
            _ => false,
        }
    }
    pub fn connect(&self, d: Option<&[u8]>) -> Vec<u8> {
        refp::connect(&self.ek.pk, &self.key, &wire(self.lvl, d, self.z))
    }
    pub fn ack(&self, d: Option<&[u8]>) -> Vec<u8> {
        let e = self.remote_epk.as_ref().expect("harness: CONNECT of the layer not seen");
        refp::ack(e, &self.key, &wire(self.lvl, d, self.z))
    }
    pub fn user(&self, n: u64, d: &[u8]) -> Vec<u8> {
        let s = self.sess.as_ref().expect("harness: no session");
        refp::user(s, n, &wire(self.lvl, Some(d), self.z))
    }
    /// decode a user message emitted by the layer: number and application data
    pub fn open(&self, frame: &[u8]) -> Option<(u64, Vec<u8>)> {
        let pt = self.sess.as_ref()?.open(frame)?;
        match refp::parse(&pt)? {
            refp::Parsed::User { nonce, data } => match self.lvl {
                Lvl::Min => Some((nonce, data)),
                Lvl::Cpl => Some((nonce, refp::inflate(&data)?)),
            },
            _ => None,
        }
    }
}

pub fn fl<T>(what: &str, r: R<T>) -> Result<T, Fail> {
    r.map_err(|f| Fail::Setup(format!("{}: {}", what, f.show())))
}

/// An ephemeral key whose session with `remote` is a rare one: its first encrypted bytes look like a message in
/// clear, or its key or number begins or ends with zeros. (Found by trying; it takes some seconds.)
pub fn ground(c: &mut Ctx, remote: &[u8]) -> Option<EKey> {
    let what = c.rng.below(5);
    let clear = refp::body(2, &[0; 8]);
    for _ in 0..250_000 {
        let k = EKey::new(c.rng.arr32());
        let s = k.agree(remote)?;
        let hit = match what {
            0 => s.seed[0..2] == [0, 0],
            1 => s.seed[30..32] == [0, 0],
            2 => s.seed[32..34] == [0, 0],
            _ => s.seal(&clear)[..2] == clear[..2],
        };
        if hit {
            count("rare-sessions", 1);
            log(|| format!("(a rare session: kind {})", what));
            return Some(k);
        }
    }
    None
}

/// A layer and the reference peer, negotiation finished, in a random legal order.
pub fn with_ref(c: &mut Ctx, l: Lvl, conf: SecureLayerConfig) -> Result<(Node, Peer), Fail> {
    if c.rng.u64() % 7_000 == 0 {
        let mut p = Peer::new(&mut c.rng, l);
        let nk = sigkey(&mut c.rng);
        let mut n = fl("create", Node::create("L", l, conf, &nk, None))?;
        let f = fl("connect", n.connect(None))?;
        let e = n.epk.clone().unwrap_or_default();
        if let Some(k) = ground(c, &e) {
            p.ek = k;
        }
        if !p.learn(&f) {
            return setup("reference peer cannot read the layer's CONNECT");
        }
        fl("recv connect", n.recv(&p.connect(None)))?;
        fl("ack", n.ack(None))?;
        fl("recv ack", n.recv(&p.ack(None)))?;
        return Ok((n, p));
    }
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(p.key.pk.clone()) } else { None };
    let mut n = fl("create", Node::create("L", l, conf, &nk, pin))?;
    finish_ref(c, &mut n, &mut p)?;
    Ok((n, p))
}

pub fn finish_ref(c: &mut Ctx, n: &mut Node, p: &mut Peer) -> Result<(), Fail> {
    let cd = if c.rng.pct(30) { Some(c.rng.bytes(9)) } else { None };
    let pc = if c.rng.pct(30) { Some(c.rng.bytes(9)) } else { None };
    if c.rng.pct(50) {
        let f = fl("connect", n.connect(cd.as_deref()))?;
        if !p.learn(&f) {
            return setup("reference peer cannot read the layer's CONNECT");
        }
        fl("recv connect", n.recv(&p.connect(pc.as_deref())))?;
    } else {
        fl("recv connect", n.recv(&p.connect(pc.as_deref())))?;
        let f = fl("connect", n.connect(cd.as_deref()))?;
        if !p.learn(&f) {
            return setup("reference peer cannot read the layer's CONNECT");
        }
    }
    if c.rng.pct(50) {
        fl("ack", n.ack(cd.as_deref()))?;
        fl("recv ack", n.recv(&p.ack(pc.as_deref())))?;
    } else {
        fl("recv ack", n.recv(&p.ack(pc.as_deref())))?;
        fl("ack", n.ack(cd.as_deref()))?;
    }
    Ok(())
}

/// two real layers, negotiation finished
pub fn real_pair(
    c: &mut Ctx,
    la: Lvl,
    lb: Lvl,
    ca: SecureLayerConfig,
    cb: SecureLayerConfig,
) -> Result<(Node, Node), Fail> {
    let (ka, kb) = (sigkey(&mut c.rng), sigkey(&mut c.rng));
    let pa = if c.rng.pct(30) { Some(kb.pk.clone()) } else { None };
    let pb = if c.rng.pct(30) { Some(ka.pk.clone()) } else { None };
    let mut a = fl("create", Node::create("A", la, ca, &ka, pa))?;
    let mut b = fl("create", Node::create("B", lb, cb, &kb, pb))?;
    shake(&mut a, &mut b)?;
    Ok((a, b))
}
pub fn shake(a: &mut Node, b: &mut Node) -> Result<(), Fail> {
    let fa = fl("connect", a.connect(None))?;
    let fb = fl("connect", b.connect(None))?;
    fl("recv connect", b.recv(&fa))?;
    fl("recv connect", a.recv(&fb))?;
    let fa = fl("ack", a.ack(None))?;
    let fb = fl("ack", b.ack(None))?;
    fl("recv ack", b.recv(&fa))?;
    fl("recv ack", a.recv(&fb))?;
    Ok(())
}

pub fn delivered(evs: &[Ev]) -> Vec<Option<Vec<u8>>> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Msg { data } => Some(data.clone()),
            _ => None,
        })
        .collect()
}
/// data an application gets, with the minimal level's "None for empty" folded
pub fn norm(d: &Option<Vec<u8>>) -> Vec<u8> {
    d.clone().unwrap_or_default()
}
pub fn same_data(l: Lvl, got: &Option<Vec<u8>>, sent: &[u8]) -> bool {
    match l {
        Lvl::Min => norm(got) == sent,
        Lvl::Cpl => got.as_deref() == Some(sent),
    }
}
