//! A process that holds layers built with one selection of the crate's features and does with them
//! what its standard input says, one command per line; one answer per line.
//!   new ID min|cpl SEED PIN|- LEVEL MINSIZE FORMAT      connect|ack ID DATA|~      write ID DATA
//!   read|drain|take ID FRAME     clone ID NEW     config ID LEVEL MINSIZE FORMAT     drop ID     debug ID
//!   tconnect|tack|twrite ID VALUESEED     tread ID FRAME     caps
#![allow(dead_code, unused_imports, unused_variables)]
#[cfg(feature = "ser")]
mod val;
use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Lay {
    Min(Box<MinimalSecureLayer>, Option<[u8; 32]>),
    #[cfg(feature = "zip")]
    Cpl(Box<SecureLayer>),
}

fn hex(d: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * d.len());
    for b in d {
        s.push(H[(b >> 4) as usize] as char);
        s.push(H[(b & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    fn d(c: u8) -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            _ => c - b'a' + 10,
        }
    }
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}
fn opt(s: &str) -> Option<Vec<u8>> {
    match s.strip_prefix('=') {
        Some(h) => Some(unhex(h)),
        None => None,
    }
}
fn o2s(d: &Option<Vec<u8>>) -> String {
    match d {
        Some(d) => format!("={}", hex(d)),
        None => "~".into(),
    }
}
fn conf(level: &str, min: &str, fmt: &str) -> SecureLayerConfig {
    let mut c = SecureLayerConfig::default();
    #[cfg(feature = "zip")]
    {
        c.compression = flate2::Compression::new(level.parse().unwrap());
        c.compression_min_size = min.parse().unwrap();
    }
    #[cfg(feature = "ser")]
    {
        c.message_format = match fmt {
            "text" => MessageFormat::Utf8PlainText,
            #[cfg(feature = "json")]
            "json" => MessageFormat::Utf8Json,
            #[cfg(feature = "cbor")]
            "cbor" => MessageFormat::Cbor,
            #[cfg(feature = "bin")]
            "bin" => MessageFormat::Bincode,
            _ => MessageFormat::RawBinary,
        };
    }
    c
}
fn min_ev(m: Message) -> String {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => format!(" C:{}:{}", hex(&sig_pubkey), o2s(&custom_data)),
        Message::Ack { custom_data } => format!(" A::{}", o2s(&custom_data)),
        Message::Message { custom_data } => format!(" M::{}", o2s(&custom_data)),
    }
}
#[cfg(feature = "zip")]
fn bin_ev(m: IncomingBinaryMessage) -> String {
    match m {
        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
            format!(" C:{}:{}", hex(&peer_sig_public_key), o2s(&custom_data))
        }
        IncomingBinaryMessage::Ack { custom_data } => format!(" A::{}", o2s(&custom_data)),
        IncomingBinaryMessage::Message { data } => format!(" M::{}", o2s(&data)),
    }
}
#[cfg(feature = "ser")]
fn ser_ev(m: IncomingMessage<val::V>) -> String {
    let t = |v: Option<val::V>| match v {
        Some(v) => format!("={}", hex(format!("{:?}", v).as_bytes())),
        None => "~".to_string(),
    };
    match m {
        IncomingMessage::Connect { custom_data, peer_sig_public_key } => {
            format!(" C:{}:{}", hex(&peer_sig_public_key), t(custom_data))
        }
        IncomingMessage::Ack { custom_data } => format!(" A::{}", t(custom_data)),
        IncomingMessage::Message { data } => format!(" M::{}", t(data)),
    }
}
fn sign(b: Vec<u8>, seed: &Option<[u8; 32]>) -> Vec<u8> {
    match seed {
        Some(s) => {
            let k = Ed25519KeyPair::from_seed_unchecked(s).unwrap();
            let sig = k.sign(&b);
            [&b[..], sig.as_ref()].concat()
        }
        None => b,
    }
}
fn buf(mut w: BufWriter<Vec<u8>>) -> String {
    w.flush().unwrap();
    format!(" {}", hex(w.get_ref()))
}

struct Breaks(usize);
impl Write for Breaks {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn act(m: &mut HashMap<String, Lay>, a: &[&str]) -> Result<String> {
    if a[0] == "new" {
        let mut s = [0u8; 32];
        s.copy_from_slice(&unhex(a[3]));
        let pin = opt(a[4]);
        let c = conf(a[5], a[6], a[7]);
        let l = match a[2] {
            "min" => Lay::Min(Box::new(MinimalSecureLayer::create(c, pin)?), Some(s)),
            #[cfg(feature = "zip")]
            "cpl" => Lay::Cpl(Box::new(SecureLayer::create(c, Some(Seed32::new(s)), pin)?)),
            _ => return Ok(" unsupported".into()),
        };
        m.insert(a[1].into(), l);
        return Ok(String::new());
    }
    if a[0] == "drop" {
        m.remove(a[1]);
        return Ok(String::new());
    }
    let mut made = None;
    let out = {
        let l = m.get_mut(a[1]).expect("actor: no such layer");
        match (a[0], l) {
            ("connect", Lay::Min(l, seed)) => {
                let pk = seed.map_or(vec![0; 32], |s| Ed25519KeyPair::from_seed_unchecked(&s).unwrap().public_key().as_ref().to_vec());
                let b = l.create_connect_message(&pk, opt(a[2]).as_deref())?;
                format!(" {}", hex(&sign(b, seed)))
            }
            ("ack", Lay::Min(l, seed)) => {
                let b = l.create_ack_message(opt(a[2]).as_deref())?;
                format!(" {}", hex(&sign(b, seed)))
            }
            ("write", Lay::Min(l, _)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_message(&opt(a[2]).unwrap(), &mut w)?;
                buf(w)
            }
            // into an output that fails after so many bytes, through a buffer of that size
            ("fwrite", Lay::Min(l, _)) => {
                let mut w = BufWriter::with_capacity(a[4].parse().unwrap(), Breaks(a[3].parse().unwrap()));
                let r = l.write_message(&opt(a[2]).unwrap(), &mut w);
                std::mem::forget(w);
                r?;
                String::new()
            }
            #[cfg(feature = "zip")]
            ("fwrite", Lay::Cpl(l)) => {
                let mut w = BufWriter::with_capacity(a[4].parse().unwrap(), Breaks(a[3].parse().unwrap()));
                let r = l.write_bin(&opt(a[2]).unwrap(), &mut w);
                std::mem::forget(w);
                r?;
                String::new()
            }
            ("read", Lay::Min(l, _)) => l.read(&opt(a[2]).unwrap())?.into_iter().map(min_ev).collect(),
            ("take", Lay::Min(l, _)) => l.take_ack_msg_recv_too_early()?.into_iter().map(min_ev).collect(),
            ("drain", Lay::Min(l, _)) => l.drain_tmp_stack_user_msgs()?.into_iter().map(min_ev).collect(),
            ("clone", Lay::Min(l, seed)) => {
                made = Some(Lay::Min(Box::new(l.try_clone()?), *seed));
                String::new()
            }
            ("config", Lay::Min(l, _)) => {
                l.change_config(conf(a[2], a[3], a[4]))?;
                String::new()
            }
            ("debug", Lay::Min(l, _)) => format!(" {}", hex(format!("{:?} {:#?}", l, l).as_bytes())),
            #[cfg(feature = "zip")]
            ("connect", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_connect_msg_bin(opt(a[2]).as_deref(), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "zip")]
            ("ack", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_ack_msg_bin(opt(a[2]).as_deref(), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "zip")]
            ("write", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_bin(&opt(a[2]).unwrap(), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "zip")]
            ("read", Lay::Cpl(l)) => l.read_bin(&opt(a[2]).unwrap())?.into_iter().map(bin_ev).collect(),
            #[cfg(feature = "zip")]
            ("clone", Lay::Cpl(l)) => {
                made = Some(Lay::Cpl(Box::new(l.try_clone()?)));
                String::new()
            }
            #[cfg(feature = "zip")]
            ("config", Lay::Cpl(l)) => {
                l.change_config(conf(a[2], a[3], a[4]))?;
                String::new()
            }
            #[cfg(feature = "zip")]
            ("debug", Lay::Cpl(l)) => format!(" {}", hex(format!("{:?} {:#?}", l, l).as_bytes())),
            #[cfg(feature = "ser")]
            ("tconnect", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_connect_msg(Some(&val::V::make(a[2].parse().unwrap())), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "ser")]
            ("tack", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write_ack_msg(Some(&val::V::make(a[2].parse().unwrap())), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "ser")]
            ("twrite", Lay::Cpl(l)) => {
                let mut w = BufWriter::new(Vec::new());
                l.write(&val::V::make(a[2].parse().unwrap()), &mut w)?;
                buf(w)
            }
            #[cfg(feature = "ser")]
            ("tread", Lay::Cpl(l)) => l.read::<val::V>(&opt(a[2]).unwrap())?.into_iter().map(ser_ev).collect(),
            _ => " unsupported".into(),
        }
    };
    if let Some(l) = made {
        m.insert(a[2].into(), l);
    }
    Ok(out)
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut m: HashMap<String, Lay> = HashMap::new();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let a: Vec<&str> = line.split(' ').collect();
        if a[0] == "reset" {
            m.clear();
            writeln!(out, "ok").unwrap();
        } else {
            match catch_unwind(AssertUnwindSafe(|| act(&mut m, &a))) {
                Ok(Ok(s)) => writeln!(out, "ok{}", s).unwrap(),
                Ok(Err(e)) => writeln!(out, "err {}", format!("{:?}", e).replace('\n', " ")).unwrap(),
                Err(p) => {
                    let t = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
                    writeln!(out, "panic {}", t.unwrap_or_default().replace('\n', " ")).unwrap()
                }
            }
        }
        out.flush().unwrap();
    }
}
