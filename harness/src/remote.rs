//! Layers living in another process, built with another selection of the crate's features
//! (harness/actor). The rest of the harness uses them like any other layer.
use crate::node::{Ev, Fault, Lvl, R};
use crate::run::op_tick;
use pkstl::{MessageFormat, SecureLayerConfig};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Actor {
    pub build: String,
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    next: u64,
}
impl Actor {
    pub fn start(dir: &str, build: &str) -> Result<Actor, String> {
        let mut child = Command::new(format!("{}/{}", dir, build))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("actor {}: {}", build, e))?;
        let inp = child.stdin.take().ok_or("no stdin")?;
        let out = BufReader::new(child.stdout.take().ok_or("no stdout")?);
        Ok(Actor { build: build.into(), child, inp, out, next: 0 })
    }
    /// the answer after "ok"
    fn ask(&mut self, cmd: &str) -> R<String> {
        op_tick();
        let r = (|| {
            self.inp.write_all(cmd.as_bytes())?;
            self.inp.write_all(b"\n")?;
            self.inp.flush()?;
            let mut l = String::new();
            if self.out.read_line(&mut l)? == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "process ended"));
            }
            Ok(l)
        })();
        op_tick();
        match r {
            Err(e) => Err(Fault::Panic(format!("the process holding the layer is gone: {}", e))),
            Ok(l) => {
                let l = l.trim_end_matches('\n');
                if let Some(x) = l.strip_prefix("ok") {
                    Ok(x.trim_start_matches(' ').to_string())
                } else if let Some(x) = l.strip_prefix("err ") {
                    Err(Fault::Err(x.to_string()))
                } else {
                    Err(Fault::Panic(l.to_string()))
                }
            }
        }
    }
    pub fn reset(&mut self) -> bool {
        self.ask("reset").is_ok()
    }
}
impl Drop for Actor {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub type Act = Arc<Mutex<Actor>>;

thread_local! { static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) }; }
static MADE: AtomicU64 = AtomicU64::new(0);
/// where the layers created on this thread live, in turn; None: in this process
pub struct Plan {
    pub actors: Vec<Option<Act>>,
    pub k: usize,
    /// a layer was asked for that the build does not have
    pub unsupported: bool,
}
pub fn plan(p: Option<Plan>) -> Option<Plan> {
    PLAN.with(|x| x.replace(p))
}
pub fn made() -> u64 {
    MADE.load(SeqCst)
}
fn next_actor() -> Option<Act> {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.as_mut()?;
        let k = p.k % p.actors.len();
        p.k += 1;
        p.actors[k].clone()
    })
}
/// what a case asks for cannot be asked of a layer elsewhere: it does not count
pub fn cut(why: &str) -> String {
    PLAN.with(|p| {
        if let Some(p) = p.borrow_mut().as_mut() {
            p.unsupported = true
        }
    });
    format!("harness: {} of a layer elsewhere", why)
}
/// may complete layers be asked for?
pub fn has_complete() -> bool {
    PLAN.with(|p| match p.borrow().as_ref() {
        None => true,
        Some(p) => p.actors.iter().all(|a| a.as_ref().map_or(true, |a| a.lock().map_or(true, |a| a.build != "none"))),
    })
}

pub struct Rem {
    act: Act,
    id: u64,
    pub lvl: Lvl,
}
fn hex(d: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * d.len() + 1);
    for b in d {
        s.push(H[(b >> 4) as usize] as char);
        s.push(H[(b & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        _ => c.wrapping_sub(b'a').wrapping_add(10),
    };
    s.as_bytes().chunks(2).map(|p| if p.len() == 2 { (d(p[0]) << 4) | (d(p[1]) & 15) } else { 0 }).collect()
}
fn arg(d: Option<&[u8]>) -> String {
    match d {
        Some(d) => format!("={}", hex(d)),
        None => "~".into(),
    }
}
fn opt(s: &str) -> Option<Vec<u8>> {
    s.strip_prefix('=').map(unhex)
}
fn conf(c: &SecureLayerConfig) -> String {
    let f = match c.message_format {
        MessageFormat::RawBinary => "raw",
        MessageFormat::Utf8PlainText => "text",
        MessageFormat::Utf8Json => "json",
        MessageFormat::Cbor => "cbor",
        MessageFormat::Bincode => "bin",
    };
    format!("{} {} {}", c.compression.level(), c.compression_min_size, f)
}
fn events(s: &str) -> R<Vec<Ev>> {
    s.split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let p: Vec<&str> = x.split(':').collect();
            if p.len() != 3 {
                return Err(Fault::Err(format!("actor: {}", x)));
            }
            let data = opt(p[2]);
            Ok(match p[0] {
                "C" => Ev::Connect { pk: unhex(p[1]), data },
                "A" => Ev::Ack { data },
                _ => Ev::Msg { data },
            })
        })
        .collect()
}

impl Rem {
    /// None: this thread's layers live in this process
    pub fn create(lvl: Lvl, cfg: &SecureLayerConfig, seed: &[u8; 32], pin: Option<&[u8]>) -> Option<R<Rem>> {
        let act = next_actor()?;
        let (r, id) = {
            let mut a = act.lock().expect("actor");
            a.next += 1;
            let id = a.next;
            let l = if lvl == Lvl::Min { "min" } else { "cpl" };
            (a.ask(&format!("new {} {} {} {} {}", id, l, hex(seed), arg(pin), conf(cfg))), id)
        };
        MADE.fetch_add(1, SeqCst);
        Some(match r {
            Ok(s) if s == "unsupported" => {
                PLAN.with(|p| {
                    if let Some(p) = p.borrow_mut().as_mut() {
                        p.unsupported = true
                    }
                });
                Err(Fault::Err("level not in this build".into()))
            }
            Ok(_) => Ok(Rem { act, id, lvl }),
            Err(f) => Err(f),
        })
    }
    fn ask(&self, cmd: String) -> R<String> {
        self.act.lock().expect("actor").ask(&cmd)
    }
    pub fn build(&self) -> String {
        self.act.lock().expect("actor").build.clone()
    }
    pub fn out(&self, what: &str, data: Option<&[u8]>) -> R<Vec<u8>> {
        self.ask(format!("{} {} {}", what, self.id, arg(data))).map(|s| unhex(&s))
    }
    pub fn evs(&self, what: &str, frame: &[u8]) -> R<Vec<Ev>> {
        self.ask(format!("{} {} {}", what, self.id, arg(Some(frame)))).and_then(|s| events(&s))
    }
    pub fn num(&self, what: &str, n: u64) -> R<Vec<u8>> {
        self.ask(format!("{} {} {}", what, self.id, n)).and_then(|s| {
            if s == "unsupported" {
                return Err(Fault::Err("not in this build".into()));
            }
            Ok(unhex(&s))
        })
    }
    pub fn faulty(&self, data: &[u8], left: usize, cap: usize) -> R<String> {
        self.ask(format!("fwrite {} {} {} {}", self.id, arg(Some(data)), left, cap))
    }
    pub fn clone_(&self) -> R<Rem> {
        let id = {
            let mut a = self.act.lock().expect("actor");
            a.next += 1;
            a.next
        };
        self.ask(format!("clone {} {}", self.id, id)).map(|_| Rem { act: self.act.clone(), id, lvl: self.lvl })
    }
    pub fn config(&self, c: &SecureLayerConfig) -> R<()> {
        self.ask(format!("config {} {}", self.id, conf(c))).map(|_| ())
    }
    pub fn debug(&self) -> String {
        self.ask(format!("debug {}", self.id)).map(|s| String::from_utf8_lossy(&unhex(&s)).into_owned()).unwrap_or_default()
    }
}
impl Drop for Rem {
    fn drop(&mut self) {
        let _ = self.ask(format!("drop {}", self.id));
    }
}
