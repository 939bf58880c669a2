//! A serializable value made from a number; what it looks like tells two values apart.
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum E {
    Unit,
    New(u32),
    Pair(String, bool),
    Named { a: Option<i16>, b: Vec<u8> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct V {
    n: i64,
    s: String,
    b: Vec<u8>,
    e: Vec<E>,
    f: f64,
    o: Option<Box<V>>,
}

impl V {
    pub fn make(mut x: u64) -> V {
        let mut next = move || {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        V::with(&mut next, 2)
    }
    fn text(r: &mut dyn FnMut() -> u64) -> String {
        let k = r() % 7;
        let n = if k == 0 { 3_000 } else { r() % 12 };
        (0..n).map(|_| ['a', 'Z', '\u{e9}', '"', '\\', '\u{1F980}', '\0'][(r() % 7) as usize]).collect()
    }
    fn with(r: &mut dyn FnMut() -> u64, depth: u32) -> V {
        let s = V::text(r);
        let k = if r() % 9 == 0 { 20_000 } else { r() % 40 };
        let b = (0..k).map(|_| r() as u8).collect();
        let e = (0..r() % 4)
            .map(|_| match r() % 4 {
                0 => E::Unit,
                1 => E::New(r() as u32),
                2 => E::Pair(V::text(r), r() % 2 == 0),
                _ => E::Named { a: if r() % 2 == 0 { None } else { Some(r() as i16) }, b: vec![r() as u8; (r() % 5) as usize] },
            })
            .collect();
        let o = if depth > 0 && r() % 2 == 0 { Some(Box::new(V::with(r, depth - 1))) } else { None };
        V { n: r() as i64, s, b, e, f: (r() % 1_000_000) as f64 / 64.0, o }
    }
}
