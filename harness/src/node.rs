//! The library seen from its public API: one wrapper for both API levels. Every call is caught,
//! logged and turned into a plain value, so that oracles never handle library types.
use crate::refp::{self, SigKey};
use crate::run::{hexs, log, op_tick};
use flate2::Compression;
use pkstl::{
    EncryptAlgo, IncomingBinaryMessage, IncomingMessage, Message, MessageFormat,
    MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lvl {
    Min,
    Cpl,
}

pub enum Lay {
    Min(Box<MinimalSecureLayer>),
    Cpl(Box<SecureLayer>),
    /// in another process, built with other features
    Rem(crate::remote::Rem),
}

/// What the application is told.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Connect { pk: Vec<u8>, data: Option<Vec<u8>> },
    Ack { data: Option<Vec<u8>> },
    Msg { data: Option<Vec<u8>> },
}

impl Ev {
    pub fn short(&self) -> String {
        match self {
            Ev::Connect { pk, data } => format!("Connect(pk={},{})", hexs(pk), shorto(data)),
            Ev::Ack { data } => format!("Ack({})", shorto(data)),
            Ev::Msg { data } => format!("Msg({})", shorto(data)),
        }
    }
    pub fn kind(&self) -> u64 {
        match self {
            Ev::Connect { .. } => 1,
            Ev::Ack { .. } => 2,
            Ev::Msg { .. } => 3,
        }
    }
}
pub fn shorto(d: &Option<Vec<u8>>) -> String {
    match d {
        None => "None".into(),
        Some(v) => format!("{}B:{}", v.len(), hexs(v)),
    }
}
pub fn shorts(e: &[Ev]) -> String {
    let v: Vec<String> = e.iter().take(6).map(|x| x.short()).collect();
    format!("[{}{}]", v.join(", "), if e.len() > 6 { format!(", ..{} in all", e.len()) } else { String::new() })
}

#[derive(Clone, Debug)]
pub enum Fault {
    Err(String),
    Panic(String),
}
impl Fault {
    pub fn is_panic(&self) -> bool {
        matches!(self, Fault::Panic(_))
    }
    pub fn show(&self) -> String {
        match self {
            Fault::Err(e) => format!("Err({})", e),
            Fault::Panic(e) => format!("PANIC({})", e),
        }
    }
}
pub type R<T> = Result<T, Fault>;

pub fn guard<T>(f: impl FnOnce() -> pkstl::Result<T>) -> R<T> {
    op_tick();
    crate::clock::tick();
    let r = catch_unwind(AssertUnwindSafe(f));
    op_tick();
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => {
            let t = format!("{:?}", e);
            crate::run::hear(&t);
            Err(Fault::Err(t))
        }
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            crate::run::hear(&m);
            Err(Fault::Panic(format!("{} at {}", m, crate::run::panic_at())))
        }
    }
}

pub fn cfg_with(level: u32, min: usize, fmt: MessageFormat) -> SecureLayerConfig {
    SecureLayerConfig {
        compression: Compression::new(level),
        compression_min_size: min,
        message_format: fmt,
        encrypt_algo: EncryptAlgo::Chacha20Poly1305Aead,
    }
}

pub struct Node {
    pub lay: Lay,
    pub name: String,
    /// signature key: the application signs at the minimal level, the layer at the complete level
    pub key: Option<SigKey>,
    pub epk: Option<Vec<u8>>,
    /// minimal level: collect set-aside messages automatically, as the complete level does
    pub auto: bool,
    pub dead: bool,
}

fn ev_of_min(m: Message) -> Ev {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => {
            Ev::Connect { pk: sig_pubkey, data: custom_data }
        }
        Message::Ack { custom_data } => Ev::Ack { data: custom_data },
        Message::Message { custom_data } => Ev::Msg { data: custom_data },
    }
}
fn ev_of_bin(m: IncomingBinaryMessage) -> Ev {
    match m {
        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
            Ev::Connect { pk: peer_sig_public_key, data: custom_data }
        }
        IncomingBinaryMessage::Ack { custom_data } => Ev::Ack { data: custom_data },
        IncomingBinaryMessage::Message { data } => Ev::Msg { data },
    }
}

/// typed counterpart of [Ev]
#[derive(Debug, PartialEq)]
pub enum EvT<M> {
    Connect { pk: Vec<u8>, data: Option<M> },
    Ack { data: Option<M> },
    Msg { data: Option<M> },
}

fn take_buf(mut w: BufWriter<Vec<u8>>) -> Vec<u8> {
    w.flush().expect("flush to Vec");
    w.get_ref().clone()
}

impl Node {
    pub fn create(
        name: &str,
        lvl: Lvl,
        cfg: SecureLayerConfig,
        key: &SigKey,
        pin: Option<Vec<u8>>,
    ) -> R<Node> {
        log(|| format!("{}: create {:?} pin={}", name, lvl, pin.as_ref().map_or("no".into(), |p| hexs(p))));
        if let Some(r) = crate::remote::Rem::create(lvl, &cfg, &key.seed, pin.as_deref()) {
            let lay = Lay::Rem(r?);
            return Ok(Node { lay, name: name.into(), key: Some(key.clone()), epk: None, auto: true, dead: false });
        }
        let lay = match lvl {
            Lvl::Min => Lay::Min(Box::new(guard(|| MinimalSecureLayer::create(cfg, pin))?)),
            Lvl::Cpl => Lay::Cpl(Box::new(guard(|| {
                SecureLayer::create(cfg, Some(Seed32::new(key.seed)), pin)
            })?)),
        };
        Ok(Node { lay, name: name.into(), key: Some(key.clone()), epk: None, auto: true, dead: false })
    }
    pub fn lvl(&self) -> Lvl {
        match &self.lay {
            Lay::Min(_) => Lvl::Min,
            Lay::Cpl(_) => Lvl::Cpl,
            Lay::Rem(r) => r.lvl,
        }
    }
    fn done<T>(&mut self, what: &str, r: R<T>, show: impl FnOnce(&T) -> String) -> R<T> {
        if let Err(f) = &r {
            if f.is_panic() {
                self.dead = true;
            }
        }
        log(|| match &r {
            Ok(v) => format!("{}: {} -> {}", self.name, what, show(v)),
            Err(f) => format!("{}: {} -> {}", self.name, what, f.show()),
        });
        r
    }
    pub fn connect(&mut self, data: Option<&[u8]>) -> R<Vec<u8>> {
        let key = self.key.as_ref();
        let r = match &mut self.lay {
            Lay::Min(l) => {
                let pk = key.map(|k| k.pk.clone()).unwrap_or_else(|| vec![0; 32]);
                let r = guard(|| l.create_connect_message(&pk, data));
                match (r, key) {
                    (Ok(b), Some(k)) => Ok(refp::signed(&b, k)),
                    (r, _) => r,
                }
            }
            Lay::Cpl(l) => {
                let mut w = BufWriter::new(Vec::new());
                guard(|| l.write_connect_msg_bin(data, &mut w)).map(|_| take_buf(w))
            }
            Lay::Rem(r) => r.out("connect", data),
        };
        if let Ok(f) = &r {
            if f.len() >= 50 {
                self.epk = Some(f[18..50].to_vec());
            }
        }
        self.done(&format!("write CONNECT({:?}B)", data.map(|d| d.len())), r, |f| format!("{}B", f.len()))
    }
    pub fn ack(&mut self, data: Option<&[u8]>) -> R<Vec<u8>> {
        let key = self.key.as_ref();
        let r = match &mut self.lay {
            Lay::Min(l) => {
                let r = guard(|| l.create_ack_message(data));
                match (r, key) {
                    (Ok(b), Some(k)) => Ok(refp::signed(&b, k)),
                    (r, _) => r,
                }
            }
            Lay::Cpl(l) => {
                let mut w = BufWriter::new(Vec::new());
                guard(|| l.write_ack_msg_bin(data, &mut w)).map(|_| take_buf(w))
            }
            Lay::Rem(r) => r.out("ack", data),
        };
        self.done(&format!("write ACK({:?}B)", data.map(|d| d.len())), r, |f| format!("{}B", f.len()))
    }
    pub fn write(&mut self, data: &[u8]) -> R<Vec<u8>> {
        let mut w = BufWriter::new(Vec::new());
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.write_message(data, &mut w)),
            Lay::Cpl(l) => guard(|| l.write_bin(data, &mut w)),
            Lay::Rem(r) => r.out("write", Some(data)).map(|f| w.write_all(&f).expect("Vec")),
        };
        let r = r.map(|_| take_buf(w));
        self.done(&format!("write user message({}B:{})", data.len(), hexs(data)), r, |f| format!("{}B", f.len()))
    }
    /// write into a caller-supplied buffered writer
    pub fn write_to<W: Write>(&mut self, data: &[u8], w: &mut BufWriter<W>) -> R<()> {
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.write_message(data, w)),
            Lay::Cpl(l) => guard(|| l.write_bin(data, w)),
            Lay::Rem(_) => panic!("{}", crate::remote::cut("an output")),
        };
        self.done(&format!("write user message({}B) to writer", data.len()), r, |_| "Ok".into())
    }
    pub fn connect_to<W: Write>(&mut self, data: Option<&[u8]>, w: &mut BufWriter<W>) -> R<()> {
        let r = match &mut self.lay {
            Lay::Rem(_) => panic!("{}", crate::remote::cut("an output")),
            Lay::Min(_) => panic!("harness: no writer for CONNECT here"),
            Lay::Cpl(l) => guard(|| l.write_connect_msg_bin(data, w)),
        };
        self.done("write CONNECT to writer", r, |_| "Ok".into())
    }
    pub fn ack_to<W: Write>(&mut self, data: Option<&[u8]>, w: &mut BufWriter<W>) -> R<()> {
        let r = match &mut self.lay {
            Lay::Rem(_) => panic!("{}", crate::remote::cut("an output")),
            Lay::Min(_) => panic!("harness: no writer for ACK here"),
            Lay::Cpl(l) => guard(|| l.write_ack_msg_bin(data, w)),
        };
        self.done("write ACK to writer", r, |_| "Ok".into())
    }
    /// Feed one message. At the minimal level with `auto`, set-aside messages are collected at the
    /// moments the complete level does it.
    pub fn recv(&mut self, frame: &[u8]) -> R<Vec<Ev>> {
        let auto = self.auto;
        let r = match &mut self.lay {
            Lay::Min(l) => {
                let mut out = Vec::new();
                (|| {
                    if let Some(m) = guard(|| l.read(frame))? {
                        let e = ev_of_min(m);
                        let k = e.kind();
                        out.push(e);
                        if auto && k == 1 {
                            match guard(|| l.take_ack_msg_recv_too_early()) {
                                Ok(Some(m)) => out.push(ev_of_min(m)),
                                Ok(None) => (),
                                Err(f) if f.is_panic() => return Err(f),
                                // a forged early ACK does not take the CONNECT with it
                                Err(f) => log(|| format!("early ACK: {}", f.show())),
                            }
                        } else if auto && k == 2 {
                            for m in guard(|| l.drain_tmp_stack_user_msgs())? {
                                out.push(ev_of_min(m));
                            }
                        }
                    }
                    Ok(())
                })()
                .map(|_| out)
            }
            Lay::Cpl(l) => {
                guard(|| l.read_bin(frame)).map(|v| v.into_iter().map(ev_of_bin).collect())
            }
            Lay::Rem(l) => l.evs("read", frame).and_then(|mut out| {
                if l.lvl == Lvl::Min && auto && !out.is_empty() {
                    if out[0].kind() == 1 {
                        match l.evs("take", &[]) {
                            Ok(v) => out.extend(v),
                            Err(f) if f.is_panic() => return Err(f),
                            Err(f) => log(|| format!("early ACK: {}", f.show())),
                        }
                    } else if out[0].kind() == 2 {
                        out.extend(l.evs("drain", &[])?);
                    }
                }
                Ok(out)
            }),
        };
        self.done(&format!("recv {}B {}", frame.len(), hexs(frame)), r, |v| shorts(v))
    }
    pub fn take_ack(&mut self) -> R<Vec<Ev>> {
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.take_ack_msg_recv_too_early())
                .map(|m| m.into_iter().map(ev_of_min).collect()),
            Lay::Rem(l) if l.lvl == Lvl::Min => l.evs("take", &[]),
            _ => Ok(vec![]),
        };
        self.done("take early ACK", r, |v: &Vec<Ev>| shorts(v))
    }
    pub fn drain(&mut self) -> R<Vec<Ev>> {
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.drain_tmp_stack_user_msgs())
                .map(|m| m.into_iter().map(ev_of_min).collect()),
            Lay::Rem(l) if l.lvl == Lvl::Min => l.evs("drain", &[]),
            _ => Ok(vec![]),
        };
        self.done("drain early user messages", r, |v: &Vec<Ev>| shorts(v))
    }
    pub fn try_clone(&mut self) -> R<Node> {
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.try_clone()).map(|l| Lay::Min(Box::new(l))),
            Lay::Cpl(l) => guard(|| l.try_clone()).map(|l| Lay::Cpl(Box::new(l))),
            Lay::Rem(l) => l.clone_().map(Lay::Rem),
        };
        let n = Node {
            name: format!("{}'", self.name),
            key: self.key.clone(),
            epk: self.epk.clone(),
            auto: self.auto,
            dead: false,
            lay: match self.done("clone", r, |_| "Ok".into()) {
                Ok(l) => l,
                Err(e) => return Err(e),
            },
        };
        Ok(n)
    }
    pub fn config(&mut self, cfg: SecureLayerConfig) -> R<()> {
        let r = match &mut self.lay {
            Lay::Min(l) => guard(|| l.change_config(cfg)),
            Lay::Cpl(l) => guard(|| l.change_config(cfg)),
            Lay::Rem(l) => l.config(&cfg),
        };
        self.done(
            &format!("change_config({},{})", cfg.compression.level(), cfg.compression_min_size),
            r,
            |_| "Ok".into(),
        )
    }
    pub fn debug(&self) -> String {
        match &self.lay {
            Lay::Min(l) => format!("{:?} {:#?}", l, l),
            Lay::Cpl(l) => format!("{:?} {:#?}", l, l),
            Lay::Rem(l) => l.debug(),
        }
    }
    // ---- typed API (complete level with serde)
    fn sl(&mut self) -> &mut SecureLayer {
        match &mut self.lay {
            Lay::Cpl(l) => l,
            Lay::Rem(_) => panic!("{}", crate::remote::cut("a typed call")),
            _ => panic!("harness: typed call not at the complete level"),
        }
    }
    pub fn connect_t<M: Serialize>(&mut self, data: Option<&M>) -> R<Vec<u8>> {
        let mut w = BufWriter::new(Vec::new());
        let l = self.sl();
        let r = guard(|| l.write_connect_msg(data, &mut w)).map(|_| take_buf(w));
        if let Ok(f) = &r {
            if f.len() >= 50 {
                self.epk = Some(f[18..50].to_vec());
            }
        }
        self.done("write CONNECT<M>", r, |f| format!("{}B", f.len()))
    }
    pub fn ack_t<M: Serialize>(&mut self, data: Option<&M>) -> R<Vec<u8>> {
        let mut w = BufWriter::new(Vec::new());
        let l = self.sl();
        let r = guard(|| l.write_ack_msg(data, &mut w)).map(|_| take_buf(w));
        self.done("write ACK<M>", r, |f| format!("{}B", f.len()))
    }
    pub fn write_t<M: Serialize>(&mut self, m: &M) -> R<Vec<u8>> {
        let mut w = BufWriter::new(Vec::new());
        let l = self.sl();
        let r = guard(|| l.write(m, &mut w)).map(|_| take_buf(w));
        self.done("write<M>", r, |f| format!("{}B", f.len()))
    }
    pub fn recv_t<M: Debug + DeserializeOwned>(&mut self, frame: &[u8]) -> R<Vec<EvT<M>>> {
        let l = self.sl();
        let r = guard(|| l.read::<M>(frame)).map(|v| {
            v.into_iter()
                .map(|m| match m {
                    IncomingMessage::Connect { custom_data, peer_sig_public_key } => {
                        EvT::Connect { pk: peer_sig_public_key, data: custom_data }
                    }
                    IncomingMessage::Ack { custom_data } => EvT::Ack { data: custom_data },
                    IncomingMessage::Message { data } => EvT::Msg { data },
                })
                .collect()
        });
        self.done(&format!("recv<M> {}B {}", frame.len(), hexs(frame)), r, |v: &Vec<EvT<M>>| {
            let mut s = format!("{:?}", v);
            if s.len() > 200 {
                let mut e = 200;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
            }
            s
        })
    }
}

/// What goes on the wire as content for `d` at level `l`, as an independent peer would encode it.
pub fn wire(l: Lvl, d: Option<&[u8]>, zlevel: u32) -> Vec<u8> {
    match (l, d) {
        (_, None) => vec![],
        (Lvl::Min, Some(d)) => d.to_vec(),
        (Lvl::Cpl, Some(d)) => refp::deflate(d, zlevel),
    }
}
/// What the application must be told when `d` was sent at level `l`.
pub fn told(l: Lvl, d: Option<&[u8]>) -> Option<Vec<u8>> {
    match (l, d) {
        (_, None) => None,
        (Lvl::Min, Some(d)) if d.is_empty() => None,
        (_, Some(d)) => Some(d.to_vec()),
    }
}
