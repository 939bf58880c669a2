//! Integer constants harvested from the current non-test source of the library. They steer sizes,
//! counts and numbers only, like a fuzzer's dictionary; no verdict depends on them.
use std::collections::BTreeSet;
use std::fs;
use std::path::Path;

pub struct Dict {
    /// interesting 64-bit values (each constant, +-1)
    pub nums: Vec<u64>,
    /// the same, limited to payload sizes we are willing to send
    pub sizes: Vec<usize>,
    /// and those that are sent now and then only
    pub big: Vec<usize>,
}

fn walk(p: &Path, out: &mut Vec<String>) {
    let mut ents: Vec<_> = match fs::read_dir(p) {
        Ok(e) => e.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    ents.sort();
    for e in ents {
        if e.is_dir() {
            walk(&e, out);
        } else if e.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = fs::read_to_string(&e) {
                out.push(s);
            }
        }
    }
}

fn harvest(src: &str, out: &mut BTreeSet<u64>) {
    let mut prev_int: Option<u64> = None;
    let mut between = String::new();
    for line in src.lines() {
        if line.trim_start().starts_with("#[cfg(test)]") {
            // the library keeps its unit tests at the end of each file, helpers in front of them
            // may also be test-only; skipping the rest loses at most a few constants
            if src.contains("mod tests") {
                break;
            }
        }
        let code = line.split("//").next().unwrap_or("");
        let b = code.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let start_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if c.is_ascii_digit() && start_ok {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let mut t: String = code[st..i].chars().filter(|c| *c != '_').collect();
                for suf in &["usize", "u128", "u64", "u32", "u16", "i64", "i32", "u8", "isize"] {
                    if t.ends_with(suf) && t.len() > suf.len() {
                        t.truncate(t.len() - suf.len());
                        break;
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    t.parse::<u64>().ok()
                };
                if let Some(v) = v {
                    out.insert(v);
                    if let Some(p) = prev_int {
                        let op = between.trim();
                        if op == "<<" && v < 64 {
                            out.insert(p.wrapping_shl(v as u32));
                        } else if op == "*" {
                            out.insert(p.wrapping_mul(v));
                        }
                    }
                    prev_int = Some(v);
                }
                between.clear();
            } else {
                between.push(c as char);
                i += 1;
            }
        }
    }
}

impl Dict {
    pub fn load(repo: &str) -> Dict {
        let mut files = Vec::new();
        walk(&Path::new(repo).join("src"), &mut files);
        let mut set = BTreeSet::new();
        for f in &files {
            harvest(f, &mut set);
        }
        let mut nums = BTreeSet::new();
        for v in &set {
            for d in &[v.wrapping_sub(1), *v, v.wrapping_add(1)] {
                nums.insert(*d);
            }
        }
        for p in &[7u32, 8, 10, 12, 13, 15, 16, 20, 24, 31, 32, 33, 48, 53, 63] {
            let v = 1u64 << p;
            nums.insert(v - 1);
            nums.insert(v);
            nums.insert(v + 1);
        }
        nums.insert(u64::MAX);
        nums.insert(u64::MAX - 1);
        let sizes = nums.iter().filter(|v| **v <= 140_000).map(|v| *v as usize).collect();
        let big = nums.iter().filter(|v| **v > 140_000 && **v <= 6_000_000).map(|v| *v as usize).collect();
        Dict { nums: nums.into_iter().collect(), sizes, big }
    }
}
