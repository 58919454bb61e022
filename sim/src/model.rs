//! The reference model: plain code over golden Unicode data, sharing nothing with the library.
use std::sync::OnceLock;

pub const MAX: u32 = 0x10_FFFF;
pub const ALL: u32 = 0x3FFF_FFFF;
pub const VERSIONS: [&str; 11] =
    ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"];
/// Abbreviations in alphabetical order of the full names.
pub const CATS: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps", "Lo", "No",
    "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];
pub const CLASSES: [&str; 7] = ["L", "M", "N", "P", "S", "Z", "C"];
pub type Iv = (u32, u32);

pub struct Version {
    pub runs: Vec<(u32, u32, u8)>,
    pub table: Vec<Vec<Iv>>,
    pub order: Vec<usize>,
}
static DATA: OnceLock<Vec<Version>> = OnceLock::new();
pub fn data() -> &'static [Version] {
    DATA.get_or_init(|| {
        let b = include_bytes!("../../golden/ucd.bin");
        let mut p = 0usize;
        let mut out = vec![];
        for _ in VERSIONS {
            let n = u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
            p += 4;
            let (mut runs, mut table, mut pos) = (vec![], vec![vec![]; 30], 0u32);
            for _ in 0..n {
                let (mut len, mut shift) = (0u32, 0);
                loop {
                    let x = b[p];
                    p += 1;
                    len |= u32::from(x & 127) << shift;
                    shift += 7;
                    if x & 128 == 0 {
                        break;
                    }
                }
                let c = b[p];
                p += 1;
                runs.push((pos, pos + len - 1, c));
                table[c as usize].push((pos, pos + len - 1));
                pos += len;
            }
            assert_eq!(pos, MAX + 1);
            let mut order: Vec<usize> = (0..30).collect();
            order.sort_by_key(|&i| (if CATS[i] == "Cs" { 2 } else { u8::from(CATS[i] == "Cc") }, table[i].len(), CATS[i]));
            out.push(Version { runs, table, order });
        }
        out
    })
}
pub fn class_mask(class: &str) -> u32 {
    (0..30).filter(|&i| CATS[i].starts_with(class)).map(|i| 1 << i).sum()
}
pub fn name_mask(name: &str) -> Option<u32> {
    if CLASSES.contains(&name) {
        return Some(class_mask(name));
    }
    CATS.iter().position(|c| *c == name).map(|i| 1 << i)
}
pub fn selection(inc: Option<u32>, exc: Option<u32>) -> u32 {
    inc.unwrap_or(ALL) & !exc.unwrap_or(0) & ALL
}

fn push(out: &mut Vec<Iv>, l: u32, r: u32) {
    match out.last_mut() {
        Some(x) if x.1 + 1 == l => x.1 = r,
        _ => out.push((l, r)),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Answer {
    Ok(Vec<Iv>),
    NotInRange(u32, u32),
    Disordered(u32, u32),
}
pub fn query(v: usize, inc: Option<u32>, exc: Option<u32>, inc_ch: &str, exc_ch: &str, min: u32, max: u32) -> Answer {
    if min > MAX || max > MAX {
        return Answer::NotInRange(min, max);
    }
    if min > max {
        return Answer::Disordered(min, max);
    }
    let mask = selection(inc, exc);
    let mut base: Vec<Iv> = vec![];
    for &(l, r, c) in &data()[v].runs {
        if r >= min && l <= max && mask >> c & 1 == 1 {
            push(&mut base, l.max(min), r.min(max));
        }
    }
    // single code points forced in or out
    let mut pts: Vec<(u32, bool)> = inc_ch.chars().map(|c| (c as u32, true)).chain(exc_ch.chars().map(|c| (c as u32, false))).collect();
    pts.sort_unstable();
    pts.dedup_by_key(|p| p.0); // an exclusion sorts before an inclusion and wins
    let mut out: Vec<Iv> = vec![];
    let mut i = 0;
    let mut cur = base.first().copied();
    for (p, put) in pts {
        while let Some((l, r)) = cur {
            if r < p {
                push(&mut out, l, r);
            } else if l < p {
                push(&mut out, l, p - 1);
                cur = Some((p, r));
                break;
            } else {
                break;
            }
            i += 1;
            cur = base.get(i).copied();
        }
        if let Some((l, r)) = cur {
            if l == p {
                cur = if r > p {
                    Some((p + 1, r))
                } else {
                    i += 1;
                    base.get(i).copied()
                };
            }
        }
        if put {
            push(&mut out, p, p);
        }
    }
    while let Some((l, r)) = cur {
        push(&mut out, l, r);
        i += 1;
        cur = base.get(i).copied();
    }
    Answer::Ok(out)
}

/// One ascending list of distinct code points.
#[derive(Clone, Debug)]
pub struct List {
    pub iv: Vec<Iv>,
    start: Vec<u32>, // index of the first code point of each interval
    pub len: u32,
}
impl List {
    pub fn new(iv: Vec<Iv>) -> List {
        let (mut start, mut len) = (vec![], 0);
        for &(l, r) in &iv {
            start.push(len);
            len += r - l + 1;
        }
        List { iv, start, len }
    }
    pub fn at(&self, i: u32) -> Option<u32> {
        if i >= self.len {
            return None;
        }
        let k = match self.start.binary_search(&i) {
            Ok(k) => k,
            Err(k) => k - 1,
        };
        Some(self.iv[k].0 + (i - self.start[k]))
    }
    /// (index of the first element >= cp, whether it is cp)
    pub fn above(&self, cp: u32) -> (u32, bool) {
        for (k, &(l, r)) in self.iv.iter().enumerate() {
            if cp < l {
                return (self.start[k], false);
            }
            if cp <= r {
                return (self.start[k] + (cp - l), true);
            }
        }
        (self.len, false)
    }
    pub fn index_of(&self, cp: u32) -> Option<u32> {
        match self.above(cp) {
            (i, true) => Some(i),
            _ => None,
        }
    }
}

/// What expanding names gives: the categories in normalised order, or the first unknown name.
pub fn expand<'a>(names: impl Iterator<Item = &'a str>, v: usize) -> Result<Vec<usize>, String> {
    let mut mask = 0;
    for n in names {
        mask |= name_mask(n).ok_or_else(|| n.to_string())?;
    }
    Ok(data()[v].order.iter().copied().filter(|&c| mask >> c & 1 == 1).collect())
}
pub fn err_not_in_range(a: u32, b: u32) -> String {
    format!("Codepoints should be in [0; 1114111] range. Got: [{a}; {b}]")
}
pub fn err_disordered(a: u32, b: u32) -> String {
    format!("Minimum codepoint should be less or equal than maximum codepoint. Got {a} < {b}")
}
pub fn err_category(s: &str) -> String {
    format!("'{s}' is not a valid Unicode category")
}
pub fn err_version(s: &str) -> String {
    format!("'{s}' is not a valid Unicode version")
}
