//! C18: secrets are erased on drop and never printed.
use crate::alloc;
use crate::ensure;
use crate::model::*;
use crate::node::*;
use crate::refp::{self, Sess};
use crate::run::*;
use crate::util::*;
use pkstl::{MinimalSecureLayer, SecureLayer, Seed32};
use std::mem::{ManuallyDrop, MaybeUninit};

pub static P: Prop = Prop {
    id: "C18",
    f: c18,
    quick: 32_000,
    thorough: 400_000,
    rule: "layers and clones (both levels) brought into every kind of state - only created, key agreed, negotiation finished, messages set aside, sent, received, cloned, failed in several ways - are dropped in place, some while a panic unwinds the stack, and the memory they occupied, and every heap block released from before the key agreement on, is searched for the session key; the Debug output ({:?} and {:#?}) is searched for the session key, nonce and seeds in decimal, hexadecimal and raw; seeds likewise; non-trivial: there was a session key (and it was seen in memory before the drop unless it is kept on the heap); distinct: by state and operations",
    assumptions: &["copies the compiler leaves on the stack are out of reach", "secrets that only ring knows in a form that cannot be computed from outside (X25519 private keys) are not searched for"],
    setup_is_bad: false,
    floors: &[("dropped-with-session", 8_000), ("clones-dropped", 1_500), ("failed-dropped", 800), ("dropped-while-unwinding", 4_000), ("debug-searched", 8_000), ("seeds-dropped", 200), ("blocks-searched", 50_000), ("texts-searched", 8_000), ("searched-after-all", 8_000)],
    level: "exploration",
};

/// the bytes of a value, also of one that was dropped
unsafe fn raw<T>(p: *const T) -> Vec<u8> {
    let p = p as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| std::ptr::read_volatile(p.add(i))).collect()
}
/// a copy of secret bytes that belongs to the harness: its release is not searched
struct Own(Vec<u8>);
impl Drop for Own {
    fn drop(&mut self) {
        let v = std::mem::take(&mut self.0);
        alloc::exempt(|| drop(v));
    }
}
impl std::ops::Deref for Own {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
/// drop `v` in place; the bytes before and after
fn drop_in_place<T>(v: Box<T>) -> (Own, Own) {
    // moved out of its box into memory of ours, which is not reused in between
    let mut m: Box<MaybeUninit<T>> = Box::new(MaybeUninit::uninit());
    unsafe {
        let p = m.as_mut_ptr();
        std::ptr::write_bytes(p as *mut u8, 0, std::mem::size_of::<T>());
        let v = ManuallyDrop::new(v);
        std::ptr::copy_nonoverlapping(&**v as *const T, p, 1);
        // release the old box's memory without running the destructor
        let b: Box<ManuallyDrop<T>> = std::mem::transmute(ManuallyDrop::into_inner(v));
        let before = Own(raw(p));
        // what stays behind in the old box is the harness's doing
        wipe_box(b);
        // every third time while a panic unwinds the stack
        if TURN.with(|t| t.replace((t.get() + 1) % 3)) == 0 {
            let last = Last(p);
            let e: Box<()> = Box::new(());
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _last = last;
                std::panic::resume_unwind(e);
            }));
            count("dropped-while-unwinding", 1);
        } else {
            std::ptr::drop_in_place(p);
        }
        (before, Own(raw(p)))
    }
}
thread_local! {
    static TURN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
struct Last<T>(*mut T);
impl<T> Drop for Last<T> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}
unsafe fn wipe_box<T>(mut b: Box<ManuallyDrop<T>>) {
    let p = &mut *b as *mut ManuallyDrop<T> as *mut u8;
    for i in 0..std::mem::size_of::<T>() {
        std::ptr::write_volatile(p.add(i), 0);
    }
    drop(b);
}

/// some stretch of at least `w` bytes of the secret?
fn stretch(hay: &[u8], secret: &[u8], w: usize) -> bool {
    secret.windows(w).any(|x| x.iter().any(|b| *b != 0) && alloc::contains(hay, x))
}

/// does the text show (part of) the secret?
pub fn shows(text: &str, secret: &[u8]) -> bool {
    let w = 6;
    if secret.len() < w {
        return false;
    }
    // compare sequences of numbers, however they are separated
    let squeezed: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    let low = squeezed.to_lowercase();
    secret.windows(w).any(|x| {
        if x.iter().all(|b| *b == x[0]) {
            return false;
        }
        let dec: Vec<String> = x.iter().map(|b| b.to_string()).collect();
        let hex: String = x.iter().map(|b| format!("{:02x}", b)).collect();
        let hexu: Vec<String> = x.iter().map(|b| format!("0x{:x}", b)).collect();
        let hexl: Vec<String> = x.iter().map(|b| format!("{:x}", b)).collect();
        let hexp: Vec<String> = x.iter().map(|b| format!("{:02x}", b)).collect();
        low.contains(&format!("{},", dec.join(",")))
            || low.contains(&format!(",{}]", dec.join(",")))
            || low.contains(&hex)
            || low.contains(&hexu.join(","))
            || low.contains(&hexl.join(","))
            || low.contains(&hexp.join(","))
            || low.contains(&hexp.join(":"))
    }) || {
        let b64 = base64(secret);
        squeezed.contains(&b64[..b64.len() - 4])
    }
}
fn base64(d: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = u32::from(c[0]) << 16 | u32::from(*c.get(1).unwrap_or(&0)) << 8 | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 {
            s.push(char::from(t[(n >> (18 - 6 * k) & 63) as usize]));
        }
    }
    s
}

fn c18(c: &mut Ctx) -> CaseR {
    listen();
    MARK.with(|m| m.set(printed()));
    TURN.with(|t| t.set((c.idx % 3) as u32));
    match c.idx % 8 {
        0 => seeds(c),
        1 => long_lived(c),
        _ => layers(c),
    }
}

thread_local! { static MARK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// nothing the library printed or returned as an error in this case shows a secret
fn spoken(secrets: &[(&'static str, &[u8])]) -> CaseR {
    let printed = printed_since(MARK.with(|m| m.get()));
    let said = said();
    count("texts-searched", 1);
    for (what, k) in secrets {
        ensure!(!shows(&said, k), "error-shows-secret", "an error shows the {}", what);
        ensure!(k.len() < 8 || !alloc::contains(&printed, k), "printed-secret", "the {} was printed", what);
        ensure!(!shows(&String::from_utf8_lossy(&printed), k), "printed-secret", "the {} was printed", what);
    }
    Ok(())
}

fn seeds(c: &mut Ctx) -> CaseR {
    let bytes = c.rng.arr32();
    fp(u64::from(bytes[0]) << 8 | u64::from(bytes[1]));
    let s = Box::new(Seed32::new(bytes));
    let text = format!("{:?} {:#?}", s, s);
    ensure!(!shows(&text, &bytes), "debug-shows-seed", "Debug of a seed shows its bytes: {}", text);
    alloc::arm(bytes);
    let s2 = match c.rng.below(3) {
        0 => s.clone(),
        1 => {
            let mut x = Box::new(Seed32::default());
            x.as_mut().as_mut().copy_from_slice(&bytes);
            x
        }
        _ => Box::new(Seed32::new(bytes)),
    };
    let (b1, a1) = drop_in_place(s);
    let (b2, a2) = drop_in_place(s2);
    let many: Vec<Seed32> = (0..3).map(|_| Seed32::new(bytes)).collect();
    drop(many);
    let o = Some(Box::new(Seed32::new(bytes)));
    drop(o);
    let hits = alloc::disarm();
    for (b, a) in [(b1, a1), (b2, a2)] {
        ensure!(alloc::contains(&b, &bytes), "model", "harness: the seed is not where it should be");
        ensure!(!stretch(&a, &bytes, 4), "seed-not-erased", "a dropped seed leaves its bytes in memory");
    }
    ensure!(hits == 0, "seed-not-erased", "{} heap blocks released by dropped seeds still hold the seed", hits);
    count("seeds-dropped", 2);
    // a random seed as well
    let r = Box::new(Seed32::random());
    let rb = r.as_ref().as_ref().to_vec();
    let text = format!("{:?} {:#?}", r, r);
    ensure!(!shows(&text, &rb), "debug-shows-seed", "Debug of a random seed shows its bytes");
    let (_, a) = drop_in_place(r);
    spoken(&[("seed", &bytes), ("random seed", &rb)])?;
    ensure!(!stretch(&a, &rb, 4), "seed-not-erased", "a dropped random seed leaves its bytes in memory");
    c.nontrivial = true;
    Ok(())
}

/// everything secret an outsider can compute
fn secrets(d: &Driver, s: &Option<Sess>) -> Vec<(&'static str, Own)> {
    let mut v = vec![("signature seed", Own(d.owner.seed.to_vec()))];
    let h = ring::digest::digest(&ring::digest::SHA512, &d.owner.seed);
    let mut scalar = h.as_ref()[..32].to_vec();
    v.push(("signature key prefix", Own(h.as_ref()[32..].to_vec())));
    v.push(("signature scalar", Own(scalar.clone())));
    scalar[0] &= 248;
    scalar[31] &= 127;
    scalar[31] |= 64;
    v.push(("signature scalar", Own(scalar)));
    if let Some(s) = s {
        v.push(("session key", Own(s.key().to_vec())));
        v.push(("session nonce", Own(s.seed[32..44].to_vec())));
        v.push(("session key material", Own(s.seed.to_vec())));
    }
    v
}
fn debug_check(d: &Driver, n: &Node, s: &Option<Sess>, when: &str) -> CaseR {
    let text = n.debug();
    count("debug-searched", 1);
    for (what, k) in secrets(d, s) {
        ensure!(!shows(&text, &k), "debug-shows-secret", "{}: Debug of the layer shows the {}", when, what);
    }
    Ok(())
}

/// where the type keeps the session key and nonce: the places common to many layers with different keys
fn slots(cpl: bool) -> Result<Vec<(usize, usize, &'static str)>, Fail> {
    type Found = Result<Vec<(usize, usize, &'static str)>, String>;
    static AT: [std::sync::OnceLock<Found>; 2] = [std::sync::OnceLock::new(), std::sync::OnceLock::new()];
    let make = || -> Found {
        let l = if cpl { Lvl::Cpl } else { Lvl::Min };
        let mut common: Option<Vec<(usize, usize, &'static str)>> = None;
        let mut r = crate::rng::Rng::new(0x5107);
        for _ in 0..8 {
            let nk = sigkey(&mut r);
            let mut p = Peer::new(&mut r, l);
            let mut n = Node::create("calibration", l, Default::default(), &nk, None).map_err(|f| f.show())?;
            let f = n.connect(None).map_err(|f| f.show())?;
            if !p.learn(&f) {
                return Err("CONNECT unreadable".into());
            }
            for f in [p.connect(None), p.ack(None)] {
                n.recv(&f).map_err(|f| f.show())?;
                let _ = n.ack(None);
            }
            let s = p.sess.as_ref().ok_or("no session")?;
            let (b, _) = match n.lay {
                Lay::Min(b) => drop_in_place::<MinimalSecureLayer>(b),
                Lay::Cpl(b) => drop_in_place::<SecureLayer>(b),
                Lay::Rem(_) => return Err("layer in another process".into()),
            };
            let mut v = vec![];
            for (k, what) in [(&s.seed[..32], "key"), (&s.seed[32..44], "nonce")] {
                for o in 0..b.len() - k.len() {
                    if b[o..o + k.len()] == *k {
                        v.push((o, k.len(), what));
                    }
                }
            }
            common = Some(match common {
                None => v,
                Some(c) => c.into_iter().filter(|x| v.contains(x)).collect(),
            });
        }
        Ok(common.unwrap_or_default())
    };
    let turn = TURN.with(|t| t.get());
    let at = AT[usize::from(cpl)].get_or_init(|| alloc::exempt(make));
    TURN.with(|t| t.set(turn));
    match at {
        Ok(v) => Ok(v.clone()),
        Err(e) => setup(e.clone()),
    }
}

/// drop a layer in place and look at what is left
fn burn(c: &mut Ctx, d: &Driver, n: Node, s: &Option<Sess>, when: &str) -> Result<bool, Fail> {
    debug_check(d, &n, s, when)?;
    let cpl = n.lvl() == Lvl::Cpl;
    let (before, after) = match n.lay {
        Lay::Min(b) => drop_in_place::<MinimalSecureLayer>(b),
        Lay::Cpl(b) => drop_in_place::<SecureLayer>(b),
        Lay::Rem(_) => return setup("layer in another process"),
    };
    let mut had = false;
    if let Some(s) = s {
        let at = slots(cpl)?;
        // only places where the type keeps the key: elsewhere (unused parts of enums, padding) stale
        // stack contents may be copied around by the compiler
        for (o, w, what) in &at {
            let k = if *w == 32 { s.key().to_vec() } else { s.seed[32..44].to_vec() };
            had |= before[*o..o + w] == k[..];
            let left = stretch(&after[*o..o + w], &k, 8);
            alloc::exempt(|| drop(k));
            ensure!(!left, "session-key-not-erased", "{}: the session {} is still in the memory of the dropped layer", when, what);
        }
        count(if had { "dropped-with-key" } else { "dropped-without-key-in-place" }, 1);
        // (a key that is not in the layer itself is in a heap block, and those are searched when freed)
        count("dropped-with-session", 1);
    }
    if cpl {
        // ring's own key types do not erase themselves (recorded finding)
        for (what, k) in secrets(d, &None) {
            if alloc::contains(&after, &k) {
                if what == "signature seed" {
                    continue;
                }
                c.also.push(Fail::Bad {
                    sig: "ring-private-keys-not-erased".into(),
                    msg: format!("{}: the {} is still in the memory of the dropped layer", when, what),
                });
                break;
            }
        }
    }
    Ok(had)
}

fn layers(c: &mut Ctx) -> CaseR {
    let mut key = [0u8; 32];
    alloc::forget_blocks();
    let r = layers_(c, &mut key);
    alloc::disarm();
    kept(&mut key)?;
    r
}

/// nothing of the session key stays anywhere once all is dropped, not in a cache of the library either
fn kept(key: &mut [u8; 32]) -> CaseR {
    if *key != [0; 32] {
        let (n, total) = alloc::kept(key);
        *key = [0; 32];
        count("searched-after-all", 1);
        count("bytes-searched-after-all", total);
        ensure!(n == 0, "session-key-kept", "the session key is still in {} places of the memory after everything was dropped", n);
    }
    Ok(())
}
fn layers_(c: &mut Ctx, key: &mut [u8; 32]) -> CaseR {
    let l = lvl(&mut c.rng);
    let pin = if c.rng.pct(40) { Some(0) } else { None };
    let auto = c.rng.pct(60);
    let mut d = Driver::new(c, l, pin, auto)?;
    let mut s: Option<Sess> = None;
    let scanned0 = alloc::scanned();
    debug_check(&d, &d.node, &s, "created")?;
    let stop_at = c.rng.below(16);
    let mut when = "created".to_string();
    let mut clones: Vec<Node> = vec![];
    // the session key is computed by the peer before the layer does: heap watched from then on
    let mut watch = |d: &Driver, s: &mut Option<Sess>| {
        if s.is_none() {
            if let Some(e) = &d.node.epk {
                *s = d.ids[0].ek.agree(e);
                if let Some(s) = s {
                    *key = s.key();
                    alloc::arm(s.key());
                }
            }
        }
    };
    if stop_at > 0 {
        d.step(c, &Op::Connect(None))?;
        watch(&d, &mut s);
        when = "CONNECT written".into();
    }
    if stop_at > 1 {
        if c.rng.pct(20) {
            // the agreement fails
            let k = c.rng.below(7);
            d.step(c, &Op::InConnect { who: 0, epk: Epk::LowOrder(k), sig: Sig::Good, data: None })?;
            when = "agreement failed".into();
        } else {
            d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None })?;
            when = "key agreed".into();
        }
    }
    if stop_at > 2 {
        d.step(c, &Op::Ack(None))?;
        when = "ACK written".into();
    }
    if stop_at > 3 && c.rng.pct(50) && !d.m.failed {
        for k in 0..c.rng.below(4) as u64 {
            d.step(c, &Op::InUser { nonce: k, bad_hash: false, data: vec![k as u8; 30] })?;
        }
        when = "messages set aside".into();
    }
    if stop_at > 4 {
        d.step(c, &Op::InAck { who: 0, chal: Chal::Good, sig: Sig::Good, data: None })?;
        when = "negotiation finished".into();
    }
    if stop_at > 5 {
        for _ in 0..c.rng.range(1, 12) {
            let k = c.rng.below(10);
            fp(k as u64);
            match k {
                0..=2 => {
                    let x = payload(c, 3_000);
                    d.step(c, &Op::Write(x))?;
                }
                3..=5 => {
                    let nonce = d.m.next + c.rng.below(3) as u64;
                    let data = payload(c, 3_000);
                    d.step(c, &Op::InUser { nonce, bad_hash: false, data })?;
                }
                6 => {
                    d.step(c, &Op::InUser { nonce: 0, bad_hash: true, data: vec![] })?;
                }
                7 => {
                    d.step(c, &Op::Config(Default::default()))?;
                }
                _ => {
                    if let Ok(n) = d.node.try_clone() {
                        d.m.cloned = true;
                        clones.push(n);
                    }
                }
            }
        }
        when = "in use".into();
    }
    if stop_at > 11 && c.rng.pct(60) {
        match c.rng.below(3) {
            0 => {
                let k = c.rng.below(GARBAGE_KINDS as usize) as u32;
                d.step(c, &Op::InGarbage(k))?;
            }
            1 => {
                d.step(c, &Op::InConnect { who: 0, epk: Epk::Own, sig: Sig::Good, data: None })?;
            }
            _ => {
                let mut w = std::io::BufWriter::with_capacity(0, Broken);
                let _ = d.node.write_to(b"lost", &mut w);
                std::mem::forget(w);
                d.m.failed = true;
            }
        }
        when = format!("{}, then failed", when);
    }
    fp(stop_at as u64 * 8 + clones.len() as u64 + 4096 * u64::from(d.m.failed) + 8192 * u64::from(l == Lvl::Min));
    let spare = Node::create("spare", Lvl::Min, Default::default(), &d.owner.clone(), None);
    let spare = fl("create", spare)?;
    let n = std::mem::replace(&mut d.node, spare);
    let agreed = stop_at > 1 && d.m.connect_in;
    let failed = d.m.failed;
    let mut order: Vec<(Node, &str)> = clones.into_iter().map(|k| (k, "clone")).collect();
    order.push((n, ""));
    c.rng.shuffle(&mut order);
    for (n, what) in order {
        let st = format!("{} {}", what, when);
        let had = burn(c, &d, n, &s, &st)?;
        if what == "clone" {
            count("clones-dropped", 1);
        }
        if failed && s.is_some() {
            count("failed-dropped", 1);
        }
        if had || s.is_some() {
            c.nontrivial = true;
        }
        let _ = agreed;
    }
    let hits = alloc::disarm();
    let known = secrets(&d, &s);
    spoken(&known.iter().map(|(w, k)| (*w, &k[..])).collect::<Vec<_>>())?;
    ensure!(hits == 0, "session-key-on-heap", "{}: {} heap blocks were released with the session key still in them", when, hits);
    count("blocks-searched", alloc::scanned() - scanned0);
    Ok(())
}
struct Broken;
impl std::io::Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::BrokenPipe.into())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// ordinary drops (of boxes, vectors, replaced values) after real traffic, heap watched throughout
fn long_lived(c: &mut Ctx) -> CaseR {
    let mut key = [0u8; 32];
    alloc::forget_blocks();
    let r = long_lived_(c, &mut key);
    alloc::disarm();
    kept(&mut key)?;
    r
}
fn long_lived_(c: &mut Ctx, keep: &mut [u8; 32]) -> CaseR {
    let l = lvl(&mut c.rng);
    let conf = cfg(c);
    let mut p = Peer::new(&mut c.rng, l);
    let nk = sigkey(&mut c.rng);
    let mut n = fl("create", Node::create("L", l, conf, &nk, None))?;
    let f = fl("connect", n.connect(None))?;
    if !p.learn(&f) {
        return setup("CONNECT unreadable");
    }
    let key = p.sess.as_ref().expect("session").key();
    alloc::arm(key);
    *keep = key;
    fl("recv", n.recv(&p.connect(None)))?;
    fl("ack", n.ack(None))?;
    fl("recv", n.recv(&p.ack(None)))?;
    let mut v: Vec<Node> = vec![];
    let rounds = c.rng.range(1, 20);
    for i in 0..rounds as u64 {
        let d = payload(c, 2_000);
        fp(d.len() as u64);
        let f = fl("write", n.write(&d))?;
        drop(f);
        let d = payload(c, 2_000);
        fl("recv", n.recv(&p.user(i, &d)))?;
        let _ = n.recv(&p.user(i, &d));
        if c.rng.pct(30) {
            v.push(fl("clone", n.try_clone())?);
        }
        if c.rng.pct(10) {
            v.clear();
        }
        if c.rng.pct(10) {
            n = fl("clone", n.try_clone())?;
        }
    }
    drop(v);
    drop(n);
    let hits = alloc::disarm();
    let s = p.sess.as_ref().expect("session");
    spoken(&[("session key", &s.key()), ("session key material", &s.seed)])?;
    ensure!(hits == 0, "session-key-on-heap", "{} heap blocks were released with the session key still in them", hits);
    count("ordinary-drops", 1);
    let _ = refp::MAGIC;
    c.nontrivial = true;
    Ok(())
}
