//! Plan generation: a pure function of (property, seed, family index).
use crate::model::{self, data, Answer, List, CATS, CLASSES, MAX, VERSIONS};
use crate::plan::*;
use crate::rng::Rng;

pub struct Ctx {
    versions: Vec<usize>,
    ascii_pct: u64,
    whole_pct: u64, // chance that a wide query has no bounds
    near_pct: u64, // chance of a neighbour of an earlier query
    long_chars: bool,
    seen: Vec<Spec>,
}

fn boundary(r: &mut Rng, v: usize) -> u32 {
    let d = &data()[v];
    let jit = |r: &mut Rng, x: u32| -> u32 {
        match r.below(4) {
            0 => x.saturating_sub(1),
            1 => (x + 1).min(MAX),
            _ => x,
        }
    };
    match r.below(10) {
        0..=2 => {
            let x = r.pick(&d.runs).0;
            jit(r, x)
        }
        3..=5 => {
            let t = &d.table[r.us(30)];
            let iv = *r.pick(t);
            let x = if r.pct(50) { iv.0 } else { iv.1 };
            jit(r, x)
        }
        6 => {
            let x = *r.pick(&[0, 63, 64, 127, 128, 191, 192, 255, 256, 257, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, MAX]);
            jit(r, x)
        }
        7 => r.u32b(300),
        8 => r.log(u64::from(MAX)) as u32,
        _ => r.u32b(MAX + 1),
    }
}
fn ascii(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255]),
        1 => r.u32b(128),
        _ => r.u32b(256),
    }
}
fn character(r: &mut Rng, v: usize, small: bool) -> char {
    loop {
        let x = if small { ascii(r) } else { boundary(r, v) };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}
fn chars(r: &mut Rng, v: usize, small: bool, long: bool) -> String {
    let n = match r.below(12) {
        0 => 0,
        1..=4 => 1,
        5..=8 => r.range(2, 4),
        9 | 10 => r.range(5, 14),
        _ if long && r.pct(15) => r.range(260, 5000),
        _ if long => r.range(15, 260),
        _ => r.range(3, 9),
    };
    let mut s: Vec<char> = vec![];
    for _ in 0..n {
        let c = if !s.is_empty() && r.pct(35) {
            let prev = *r.pick(&s) as u32;
            let x = match r.below(3) {
                0 => prev,
                1 => prev.saturating_sub(1),
                _ => prev + 1,
            };
            char::from_u32(x).unwrap_or('x')
        } else {
            character(r, v, small)
        };
        s.push(if small && c as u32 > 255 { 'é' } else { c });
    }
    s.into_iter().collect()
}
pub fn mask(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => 0,
        1 => model::ALL,
        2..=4 => 1 << r.below(30),
        5..=7 => 1 << r.below(30) | 1 << r.below(30),
        8 => model::class_mask(r.pick(&CLASSES)),
        9 => model::ALL & !(1 << r.below(30)),
        10 => (r.u64() & r.u64() & r.u64()) as u32 & model::ALL,
        _ => r.u64() as u32 & model::ALL,
    }
}
fn bounds(r: &mut Rng, v: usize, small: bool) -> (Option<u32>, Option<u32>) {
    let one = |r: &mut Rng| if small { ascii(r) } else { boundary(r, v) };
    match r.below(20) {
        0 => {
            let bad = *r.pick(&[MAX + 1, MAX + 2, u32::MAX, u32::MAX - 1, 1 << 31]);
            let x = one(r);
            match r.below(4) {
                0 => (Some(bad), None),
                1 => (None, Some(bad)),
                2 => (Some(x), Some(bad)),
                _ => (Some(bad), Some(x)),
            }
        }
        1 => {
            let (a, b) = (one(r), one(r));
            (Some(a.max(b)), Some(a.min(b)))
        }
        2 => {
            let a = one(r);
            (Some(a), Some(a))
        }
        3 if !small => (None, None),
        4 if !small => (Some(one(r)), None),
        5 => (None, Some(one(r))),
        6 if !small => {
            // right around one interval of a table
            let t = &data()[v].table[r.us(30)];
            let iv = *r.pick(t);
            (Some(iv.0.saturating_sub(r.u32b(3))), Some((iv.1 + r.u32b(3)).min(MAX)))
        }
        _ => {
            let (a, b) = (one(r), one(r));
            (Some(a.min(b)), Some(a.max(b)))
        }
    }
}
pub fn spec(r: &mut Rng, c: &mut Ctx) -> Spec {
    let s = if !c.seen.is_empty() && r.pct(c.near_pct) {
        let base = r.pick(&c.seen).clone();
        neighbour(r, &base, c)
    } else {
        let v = *r.pick(&c.versions);
        let small = r.pct(c.ascii_pct);
        let (min, max) = if !small && r.pct(c.whole_pct) { (None, None) } else { bounds(r, v, small) };
        let opt = |r: &mut Rng, p: u64, x: String| if r.pct(p) { Some(x) } else { None };
        let inc = if r.pct(65) { Some(mask(r)) } else { None };
        let exc = if r.pct(35) { Some(if r.pct(20) { inc.unwrap_or(0) } else { mask(r) }) } else { None };
        let small_ch = if small { r.pct(92) } else { r.pct(15) };
        let a = chars(r, v, small_ch, c.long_chars);
        let b = if r.pct(30) { chars_of(r, &a) } else { chars(r, v, small_ch, c.long_chars) };
        Spec { v, inc, exc, inc_ch: opt(r, 45, a), exc_ch: opt(r, 40, b), min, max, path: r.u32b(4096) }
    };
    c.seen.push(s.clone());
    s
}
/// The k-th of many small queries.
pub fn tiny(r: &mut Rng) -> Spec {
    let v = if r.pct(70) { 10 } else { r.us(11) };
    let lo = match r.below(4) {
        0 | 1 => r.u32b(256),
        2 => r.u32b(0x3000),
        _ => boundary(r, v),
    };
    let hi = lo.saturating_add(r.u32b(*r.clone().pick(&[2, 40, 200])));
    let some = |r: &mut Rng| {
        if r.pct(80) {
            return None;
        }
        Some((0..r.range(1, 3)).filter_map(|_| char::from_u32(lo.saturating_add(r.u32b(300)))).collect())
    };
    Spec {
        v,
        inc: if r.pct(80) { Some(mask(r)) } else { None },
        exc: if r.pct(20) { Some(mask(r)) } else { None },
        inc_ch: some(r),
        exc_ch: some(r),
        min: if r.pct(90) { Some(lo) } else { None },
        max: Some(hi),
        path: 0,
    }
}
fn many(r: &mut Rng, p: &str, sets: bool) -> Op {
    let what = match p {
        "C03" if sets => 2,
        "C05" => 1,
        "C06" => 3,
        _ => *r.pick(if sets { &[0, 0, 0, 1, 2, 3] } else { &[0, 0, 0, 1, 3] }),
    };
    let most = *r.pick(if what == 1 { &[300, 300, 1200] } else { &[300, 700, 2500] });
    Op::Many { what, seed: r.u64(), n: r.range(200, most) as u32 }
}
fn chars_of(r: &mut Rng, a: &str) -> String {
    a.chars().filter(|_| r.pct(60)).collect()
}
pub fn neighbour(r: &mut Rng, base: &Spec, c: &Ctx) -> Spec {
    let mut s = base.clone();
    let v = s.v;
    for _ in 0..r.range(1, 2) {
        match r.below(12) {
            0 | 1 => s.v = *r.pick(&c.versions),
            2 => s.inc = s.inc.map(|m| (m ^ 1 << r.below(30)) & model::ALL).or(Some(0)),
            3 => s.exc = s.exc.map(|m| (m ^ 1 << r.below(30)) & model::ALL).or(Some(1 << r.below(30))),
            4 => std::mem::swap(&mut s.inc, &mut s.exc),
            5 => std::mem::swap(&mut s.inc_ch, &mut s.exc_ch),
            6 => s.min = Some(s.min.unwrap_or(0).wrapping_add(r.u32b(3)).wrapping_sub(1)),
            7 => s.max = Some(s.max.unwrap_or(MAX).wrapping_add(r.u32b(3)).wrapping_sub(1)),
            8 => s.inc = if s.inc.is_none() { Some(model::ALL) } else { None },
            9 => {
                // same length, other content
                let f = |x: &str, r: &mut Rng| -> String {
                    x.chars().map(|c| if r.pct(40) { char::from_u32(c as u32 ^ 1).unwrap_or(c) } else { c }).collect()
                };
                if r.pct(50) {
                    s.inc_ch = s.inc_ch.as_ref().map(|x| f(x, r));
                } else {
                    s.exc_ch = s.exc_ch.as_ref().map(|x| f(x, r));
                }
            }
            10 => {
                if r.pct(50) {
                    s.inc_ch = Some(chars(r, v, false, false));
                } else {
                    s.exc_ch = Some(chars(r, v, false, false));
                }
            }
            _ => {
                s.min = Some(boundary(r, v));
            }
        }
    }
    s.path = r.u32b(4096);
    s
}
pub fn answer(s: &Spec) -> Answer {
    model::query(
        s.v,
        s.inc,
        s.exc,
        s.inc_ch.as_deref().unwrap_or(""),
        s.exc_ch.as_deref().unwrap_or(""),
        s.min.unwrap_or(0),
        s.max.unwrap_or(MAX),
    )
}
/// A query that succeeds, for sets; preferably with few enough members to walk through.
fn set_spec(r: &mut Rng, c: &mut Ctx, small: bool) -> Spec {
    for _ in 0..40 {
        let s = spec(r, c);
        if let Answer::Ok(iv) = answer(&s) {
            let l = List::new(iv);
            if !small || (l.len <= 3000 && (l.len > 0 || r.pct(10))) {
                return s;
            }
        }
    }
    Spec { v: 10, inc: Some(1 << r.below(29)), max: Some(0x3000), ..Spec::default() }
}
fn list(s: &Spec) -> List {
    match answer(s) {
        Answer::Ok(iv) => List::new(iv),
        _ => List::new(vec![]),
    }
}
fn arg(r: &mut Rng, l: &List) -> u32 {
    let jit = |r: &mut Rng, x: u32| x.wrapping_add(r.u32b(3)).wrapping_sub(1);
    match r.below(10) {
        0 => *r.pick(&[0, 1, u32::MAX, u32::MAX - 1, MAX, MAX + 1, 1 << 31, 0xD800, 0xDFFF]),
        1 => r.u64() as u32,
        2 => r.u32b(MAX + 1),
        _ if l.iv.is_empty() => r.u32b(300),
        3 => {
            let x = l.iv[0].0;
            jit(r, x)
        }
        4 => {
            let x = l.iv[l.iv.len() - 1].1;
            jit(r, x)
        }
        _ => {
            let iv = *r.pick(&l.iv);
            let x = if r.pct(50) { iv.0 } else { iv.1 };
            jit(r, x)
        }
    }
}
pub fn reads(r: &mut Rng, l: &List) -> Vec<Read> {
    (0..r.range(1, 8))
        .map(|_| match r.below(12) {
            0 => Read::Len,
            1 => Read::Empty,
            2 => Read::Contains(arg(r, l)),
            3..=5 => Read::At(if r.pct(60) {
                // around the start of an interval
                if l.iv.is_empty() {
                    r.u32b(3)
                } else {
                    let iv = *r.pick(&l.iv);
                    l.above(iv.0).0.wrapping_add(r.u32b(3)).wrapping_sub(1)
                }
            } else if r.pct(50) {
                l.len.wrapping_add(r.u32b(3)).wrapping_sub(1)
            } else {
                arg(r, l)
            }),
            6 | 7 => Read::Index(arg(r, l)),
            8 | 9 => Read::Above(arg(r, l)),
            10 => {
                if r.pct(50) {
                    Read::Front(r.u32b(40))
                } else {
                    Read::Back(r.u32b(40))
                }
            }
            _ => {
                if l.len < 4000 {
                    Read::Sum
                } else {
                    Read::Front(r.u32b(300))
                }
            }
        })
        .collect()
}
fn act(r: &mut Rng, l: &List, slots: usize) -> Act {
    let n = |r: &mut Rng| r.log(u64::from(l.len.clamp(4, 200))) as u32;
    // now and then through a long list as well
    let whole = l.len <= 5000 || r.below(400) == 0;
    let pan = |r: &mut Rng, n: u32| if r.pct(30) { Some(r.u32b(n.max(1)) + 1) } else { None };
    let big = |r: &mut Rng| match r.below(8) {
        0 if whole => l.len.wrapping_sub(r.u32b(2)),
        1 if whole => *r.pick(&[100_000, 0xFFFF_FFFF]),
        2..=5 if whole && l.len > 5000 => r.u32b(l.len),
        _ => r.log(300) as u32 - 1,
    };
    match r.below(20) {
        0..=2 => Act::Next(n(r).min(8)),
        3..=5 => Act::Back(n(r).min(8)),
        6 => Act::Nth(big(r)),
        7 => Act::NthBack(big(r)),
        8 | 9 => {
            let n = n(r);
            Act::Take { n, back: r.pct(50), panic_at: pan(r, n) }
        }
        10 | 11 => {
            let n = n(r);
            Act::Try { n, back: r.pct(50), panic_at: pan(r, n) }
        }
        12 => Act::Find { n: n(r), back: r.pct(50) },
        13 => Act::Hint,
        14 if whole => Act::Count,
        15 if whole => {
            if r.pct(50) {
                Act::Last
            } else {
                Act::MinMax
            }
        }
        16 if whole => {
            let p = pan(r, l.len);
            Act::Fold { back: r.pct(50), panic_at: p }
        }
        17 => {
            if r.pct(50) {
                Act::Step { step: r.log(40) as u32, n: r.u32b(10) }
            } else {
                Act::Skip { skip: r.log(100) as u32, n: r.u32b(10) }
            }
        }
        18 | 19 => Act::CloneTo(r.us(slots)),
        _ => Act::Next(1),
    }
}
pub fn bad_name(r: &mut Rng) -> String {
    let fixed = [
        "", " ", "l", "LL", "ll", "lu", "Lx", "Xx", "Lul", "Lu ", " Lu", "Letter", "LC", "L&", "A", "Z ", "Zz", "\u{0}", "Lu\u{0}", "é", "文字", "🦀", "Ｌ",
        "Cn,Lu", "'Lu'", "99.0.0",
    ];
    if r.pct(80) {
        (*r.pick(&fixed)).to_string()
    } else {
        (0..r.range(1, 40)).map(|_| character(r, 10, false)).collect()
    }
}
pub fn names(r: &mut Rng) -> Vec<String> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 | 3 => r.range(2, 5),
        4 => r.range(4, 12),
        _ => r.range(10, 60),
    };
    let bad = if r.pct(30) && n > 0 { Some(r.below(n)) } else { None };
    (0..n)
        .map(|i| {
            if Some(i) == bad || (bad.is_some_and(|b| i > b) && r.pct(15)) {
                bad_name(r)
            } else if r.pct(35) {
                (*r.pick(&CLASSES)).to_string()
            } else {
                (*r.pick(&CATS)).to_string()
            }
        })
        .collect()
}
fn stream_faults(r: &mut Rng, n: u32, rich: bool) -> StreamFaults {
    let mut f = StreamFaults::default();
    if !rich {
        return f;
    }
    let mut n = n;
    if n > 0 && r.pct(6) {
        // long enough for a count of entries to wrap around in a byte or, seldom, in two
        let turn = if r.pct(8) { 1 << 16 } else { 1 << 8 };
        let times = (turn + r.u32b(3 * n + 4)).saturating_sub(r.u32b(2 * n + 2));
        f.again = Some((r.u32b(n), times));
        n += times;
    }
    let at = |r: &mut Rng| r.u32b(n + 1);
    if r.pct(25) {
        f.panic_at = Some(at(r));
    }
    if r.pct(25) {
        f.end_at = Some(at(r));
    }
    for _ in 0..r.below(4) {
        f.yields.push(at(r));
    }
    if r.pct(25) {
        f.reenter.push(at(r));
    }
    if r.pct(40) {
        f.hint = r.u32b(5);
    }
    if r.pct(15) {
        f.text_panic_at = Some(at(r));
    }
    if r.pct(30) {
        f.text_yields.push(at(r));
    }
    f
}
pub fn item(r: &mut Rng) -> Item {
    match r.below(12) {
        0 => Item::Cat(r.us(30)),
        1..=5 => Item::Set(mask(r)),
        6 => Item::Version(r.us(11)),
        7 | 8 => Item::ErrCategory(bad_name(r)),
        9 => Item::ErrVersion(bad_version(r)),
        10 => Item::ErrRange(boundary(r, 10), MAX + 1 + r.u32b(5)),
        _ => {
            let a = boundary(r, 10).max(1);
            Item::ErrOrder(a, r.u32b(a))
        }
    }
}
pub fn item_text(i: &Item) -> String {
    match i {
        Item::Cat(c) => CATS[*c].to_string(),
        Item::Set(m) => (0..30).filter(|c| m >> c & 1 == 1).map(|c| CATS[c]).collect::<Vec<_>>().join(", "),
        Item::Version(v) => VERSIONS[*v].to_string(),
        Item::ErrCategory(s) => model::err_category(s),
        Item::ErrVersion(s) => model::err_version(s),
        Item::ErrRange(a, b) => model::err_not_in_range(*a, *b),
        Item::ErrOrder(a, b) => model::err_disordered(*a, *b),
    }
}
fn bad_version(r: &mut Rng) -> String {
    let fixed = ["", "9", "9.0", "9.0.0.0", " 9.0.0", "9.0.0 ", "8.0.0", "18.0.0", "15.2.0", "latest", "V9_0_0", "17.0.1", "1.0.0", "012.0.0", "12.0", "🦀", "文"];
    if r.pct(85) {
        (*r.pick(&fixed)).to_string()
    } else {
        bad_name(r)
    }
}
fn cs_script(r: &mut Rng) -> Vec<CsAct> {
    (0..r.range(1, 12))
        .map(|_| match r.below(14) {
            0..=2 => CsAct::Add(r.us(30)),
            3..=5 => CsAct::Remove(r.us(30)),
            6 => CsAct::OrCat(r.us(30)),
            7 => CsAct::CatOr(r.us(30)),
            8 => CsAct::AssignCat(r.us(30)),
            9 => CsAct::AssignSet(mask(r)),
            10 => CsAct::OrSet(mask(r)),
            11 => CsAct::OrClass(r.us(7)),
            12 => CsAct::Pair(r.us(30), r.us(30)),
            _ => match r.below(3) {
                0 => CsAct::New,
                1 => CsAct::All,
                _ => CsAct::From(r.us(30)),
            },
        })
        .collect()
}

// weights: query, setput, setclone, setdrop, setread, cur, own, expand, render, normal, table, parsev, parsec, cs, consts
type Weights = [u32; 15];
fn weights(p: &str) -> Weights {
    match p {
        "C01" => [100, 3, 0, 0, 5, 2, 1, 4, 1, 2, 2, 1, 1, 2, 1],
        "C02" => [50, 8, 6, 3, 12, 8, 4, 25, 10, 1, 0, 8, 8, 1, 0],
        "C03" => [6, 10, 8, 8, 90, 2, 4, 2, 1, 1, 1, 0, 0, 1, 0],
        "C04" => [4, 2, 0, 0, 4, 90, 25, 2, 0, 1, 0, 0, 0, 0, 0],
        "C05" => [6, 1, 0, 0, 3, 1, 0, 100, 2, 5, 1, 1, 3, 3, 0],
        "C06" => [4, 1, 0, 0, 2, 1, 0, 6, 100, 1, 0, 3, 3, 2, 0],
        "C15" => [60, 8, 6, 3, 14, 6, 5, 40, 14, 6, 0, 6, 6, 1, 0],
        "C07" => [40, 6, 4, 4, 20, 6, 6, 25, 12, 6, 2, 5, 5, 6, 2],
        _ => [30, 0, 0, 0, 14, 0, 12, 30, 14, 14, 6, 6, 6, 14, 4], // C08: nothing whose answers depend on the schedule
    }
}
fn kind(r: &mut Rng, w: &Weights) -> usize {
    let mut x = r.below(u64::from(w.iter().sum::<u32>())) as u32;
    let mut k = 0;
    while x >= w[k] {
        x -= w[k];
        k += 1;
    }
    k
}
fn op(r: &mut Rng, p: &str, k: usize, c: &mut Ctx, plan: &Plan, lists: &(Vec<List>, Vec<List>)) -> Op {
    let rich = matches!(p, "C05" | "C02" | "C07" | "C15") || r.pct(15);
    match k {
        0 => {
            let set = r.pct(15);
            let src = match r.below(10) {
                0..=3 => Src::Fresh(spec(r, c)),
                4..=6 => Src::Scratch(spec(r, c)),
                7 | 8 => Src::Shared(r.us(plan.builders.len())),
                _ => {
                    let mut s = spec(r, c);
                    if r.pct(50) {
                        s.inc = None;
                        s.exc_ch = None;
                    }
                    if r.pct(50) {
                        s.min = None;
                        s.max = None;
                    }
                    Src::CloneOf(r.us(plan.builders.len()), s)
                }
            };
            Op::Query { src, set }
        }
        1 => Op::SetPut { slot: r.us(plan.sets.len()), q: set_spec(r, c, false) },
        2 => Op::SetClone { from: r.us(plan.sets.len()), to: r.us(plan.sets.len()) },
        3 => Op::SetDrop { slot: r.us(plan.sets.len()) },
        4 => {
            let slot = r.us(plan.sets.len());
            Op::SetRead { slot, reads: reads(r, &lists.0[slot]) }
        }
        5 => {
            let slot = r.us(plan.cursors.len());
            Op::Cur { slot, act: act(r, &lists.1[slot], plan.cursors.len()) }
        }
        6 => {
            let small = r.pct(80);
            let q = set_spec(r, c, small);
            let l = list(&q);
            let acts = (0..r.range(1, 8)).map(|_| act(r, &l, 3)).collect();
            Op::Own { q, acts }
        }
        7 => {
            let n = names(r);
            let f = stream_faults(r, n.len() as u32, rich);
            Op::Expand { v: *r.pick(&c.versions), kind: r.u32b(4), names: n, f }
        }
        8 => {
            let it = item(r);
            let mut f = SinkFaults::default();
            if p == "C06" || rich {
                let len = item_text(&it).len() as u32;
                match r.below(10) {
                    0..=4 => f.fail_after = Some(r.u32b(len + 2)),
                    5 | 6 => f.fail_call = Some(r.u32b(12)),
                    _ => {}
                }
                f.short = r.pct(40);
                f.panic = r.pct(25);
                f.yields = r.pct(30);
                f.reenter = r.pct(15);
            }
            Op::Render { item: it, f }
        }
        9 => Op::Normal(*r.pick(&c.versions)),
        10 => Op::Table(r.us(11), r.us(30)),
        11 => Op::ParseVersion(if r.pct(60) { VERSIONS[r.us(11)].to_string() } else { bad_version(r) }),
        12 => Op::ParseCat(if r.pct(60) { CATS[r.us(30)].to_string() } else { bad_name(r) }),
        13 => Op::Cs(cs_script(r)),
        _ => Op::Consts,
    }
}
fn world(r: &mut Rng, wild: bool) -> World {
    let mut w = World { sched: r.u64(), entropy: r.u64(), heap: r.u64(), mono0: 1_000_000_000, real0: 1_700_000_000_000_000_000, ..World::default() };
    if wild {
        w.env = r.u64() | 1;
        w.mono0 = *r.pick(&[0, 1, 1_000_000_000, 86_400_000_000_000, 4_000_000_000_000_000_000]);
        w.real0 = *r.pick(&[0, 1, 951_782_400_000_000_000, 1_700_000_000_123_456_789, 2_147_483_648_000_000_000, 7_000_000_000_000_000_000]);
        w.extra_threads = r.u32b(4);
        w.spawn_rot = r.u32b(8);
    }
    w
}

pub fn base(p: &str, seed: u64, family: u64) -> Plan {
    let pn = p.as_bytes().iter().fold(0u64, |a, &b| a * 256 + u64::from(b));
    let mut r = Rng::new(&[seed, pn, family, 1]);
    let mut versions: Vec<usize> = (0..r.range(1, 3)).map(|_| r.us(11)).collect();
    if r.pct(15) {
        versions = (0..11).collect();
    }
    let mut c = Ctx {
        versions,
        ascii_pct: *r.pick(&[0, 20, 50, 50, 100]),
        whole_pct: *r.pick(&[0, 20, 50, 90]),
        near_pct: *r.pick(if p == "C02" { &[0, 0, 30, 60] } else { &[0, 30, 60, 85] }),
        long_chars: r.pct(10),
        seen: vec![],
    };
    let long = r.pct(12);
    let (nt, nops) = if long { (r.range(1, 2), r.range(25, 90)) } else { (r.range(1, 4), r.range(1, 6)) };
    let mut plan = Plan {
        property: p.to_string(),
        world: world(&mut r, p == "C08" || p == "C07"),
        other: None,
        switch_pct: *r.pick(&[0, 20, 50, 90]),
        quantum: *r.pick(&[2_000, 50_000, 400_000, 400_000]),
        stall_strict: p == "C07",
        builders: vec![],
        sets: vec![],
        cursors: vec![],
        tasks: vec![],
        events: vec![],
        nested: vec![],
        inner: vec![],
        hook: false,
    };
    if p == "C08" {
        plan.other = Some(world(&mut r, true));
    }
    for _ in 0..r.range(1, 3) {
        plan.builders.push(spec(&mut r, &mut c));
    }
    for _ in 0..r.range(1, 3) {
        let small = r.pct(40);
        plan.sets.push(set_spec(&mut r, &mut c, small));
    }
    for _ in 0..r.range(1, 3) {
        let small = r.pct(85);
        plan.cursors.push(set_spec(&mut r, &mut c, small));
    }
    // nothing may have run before the tasks start: the first calls ever are then made concurrently
    let bare = !matches!(p, "C02" | "C03" | "C04") && r.pct(50);
    if bare {
        plan.sets.clear();
        plan.cursors.clear();
    }
    let lists = (plan.sets.iter().map(list).collect::<Vec<_>>(), plan.cursors.iter().map(list).collect::<Vec<_>>());
    let mut w = weights(p);
    // swarm: some kinds of operation are absent from this family
    for x in &mut w {
        if *x < 30 && r.pct(35) {
            *x = 0;
        }
    }
    if bare {
        w[1..6].fill(0);
    }
    for _ in 0..nt {
        let mut ops: Vec<Rec> = vec![];
        let mut k = 0;
        for _ in 0..nops {
            // what a failed call leaves behind shows in a call of its kind with other arguments
            if ops.is_empty() || !(p == "C02" && r.pct(50)) {
                k = kind(&mut r, &w);
            }
            let o = if !ops.is_empty() && r.pct(12) { r.pick(&ops).op.clone() } else { op(&mut r, p, k, &mut c, &plan, &lists) };
            ops.push(Rec { op: o, fail: None, rep: 1, nest: None, again: 0 });
        }
        plan.tasks.push(ops);
    }
    // a long history: what only shows after hundreds of calls
    if p != "C04" && r.pct(1) {
        for ops in &mut plan.tasks {
            ops.truncate(6);
            for _ in 0..r.range(1, 2) {
                let at = r.us(ops.len() + 1);
                ops.insert(at, Rec { op: many(&mut r, p, !plan.sets.is_empty()), fail: None, rep: 1, nest: None, again: 0 });
            }
        }
    }
    // the same operations on several tasks at once
    if plan.tasks.len() > 1 && r.pct(25) {
        for t in 1..plan.tasks.len() {
            plan.tasks[t] = plan.tasks[0].clone();
        }
    }
    // by a generator of its own: the rest of the plan does not depend on it
    let mut r = Rng::new(&[seed, pn, family, 2]);
    if matches!(p, "C15" | "C05" | "C06" | "C02" | "C07") && (p == "C15" || r.pct(50)) {
        for _ in 0..r.range(1, 5) {
            let n = match r.below(10) {
                0..=3 => Nested::Query { q: spec(&mut r, &mut c), set: r.pct(15) },
                4 => Nested::Builder(r.us(3)),
                5 if !lists.0.is_empty() => {
                    let k = r.us(lists.0.len());
                    Nested::Current(reads(&mut r, &lists.0[k]))
                }
                6 => Nested::Render(item(&mut r)),
                7 => Nested::Normal(*r.pick(&c.versions)),
                _ => Nested::Expand { v: *r.pick(&c.versions), names: names(&mut r) },
            };
            plan.nested.push(n);
        }
    }
    if p == "C15" && r.pct(60) {
        for _ in 0..r.range(1, 12) {
            let (deeper, fails) = (r.pct(50), r.pct(30));
            plan.inner.push((if deeper { r.range(1, 8) as u32 } else { 0 }, if fails { r.range(1, 6) as u32 } else { 0 }));
        }
    }
    plan.hook = p == "C15" && r.pct(50);
    plan
}

/// What the fault-free run of a plan measured, per task and operation.
pub struct Measure {
    pub steps: u64,
    pub allocs: u64,
    /// steps that touch writable static data or write to a shared set
    pub hot: Vec<u64>,
    /// a sample of the steps that reach a code site for the first time in the operation
    pub firsts: Vec<u32>,
}
pub type Measures = Vec<Vec<Measure>>;

/// Adds faults and schedule events to a plan, placed inside the measured extent of its operations.
pub fn variant(plan: &Plan, seed: u64, family: u64, k: u64, m: &Measures) -> Plan {
    let mut p = plan.clone();
    let mut r = Rng::new(&[seed, family, k, 77, plan.world.sched]);
    p.world.sched = r.u64();
    p.switch_pct = *r.pick(&[0, 10, 40, 80]);
    let targets: Vec<(usize, usize)> =
        m.iter().enumerate().flat_map(|(t, ops)| ops.iter().enumerate().filter(|(_, x)| x.steps > 0).map(move |(o, _)| (t, o))).collect();
    let prop = plan.property.as_str();
    let mut n = r.range(1, 5);
    if (prop == "C02" || prop == "C15") && r.pct(60) {
        n = r.below(2);
    }
    if targets.is_empty() {
        n = 0;
    }
    for _ in 0..n {
        let (t, o) = *r.pick(&targets);
        let (steps, hot) = (m[t][o].steps, &m[t][o].hot);
        let step = if !hot.is_empty() && r.pct(50) {
            (*r.pick(hot) + r.below(10)).saturating_sub(7).clamp(1, steps)
        } else if r.pct(55) && !m[t][o].firsts.is_empty() {
            (u64::from(*r.pick(&m[t][o].firsts)) + r.below(2)).clamp(1, steps)
        } else if r.pct(60) {
            r.range(1, steps)
        } else {
            r.log(steps)
        };
        let kind = match r.below(10) {
            _ if prop == "C07" && r.pct(50) => Kind::Stall,
            0..=5 => Kind::Preempt(if r.pct(60) { -1 } else { r.below(plan.tasks.len() as u64) as i32 }),
            6 | 7 => Kind::Stall,
            8 => Kind::Sleep(r.log(3_000_000_000_000) as i64),
            _ => Kind::Clock(if r.pct(50) { r.log(1_000_000_000_000_000) as i64 } else { -(r.log(1_000_000_000_000_000) as i64) }),
        };
        p.events.push(Event { task: t as i32, op: o as i32, step, kind });
    }
    p.events.sort_by_key(|e| (e.task, e.op, e.step));
    let alloc_pct = match prop {
        "C02" => 100,
        "C07" | "C15" => 30,
        "C01" | "C03" | "C05" => 12,
        _ => 0,
    };
    if r.pct(alloc_pct) {
        let cand: Vec<(usize, usize)> =
            m.iter().enumerate().flat_map(|(t, ops)| ops.iter().enumerate().filter(|(_, x)| x.allocs > 0).map(move |(o, _)| (t, o))).collect();
        if !cand.is_empty() {
            for _ in 0..r.range(1, 3) {
                let (t, o) = *r.pick(&cand);
                p.tasks[t][o].fail = Some(r.range(1, m[t][o].allocs) as u32);
                p.tasks[t][o].again = if r.pct(30) { 0 } else { r.u32b(6) + 1 };
                if r.pct(40) {
                    p.tasks[t][o].rep = r.range(5, 9) as u32;
                }
            }
        }
    }
    if prop == "C15" {
        let cand: Vec<(usize, usize)> =
            m.iter().enumerate().flat_map(|(t, ops)| ops.iter().enumerate().filter(|(_, x)| x.allocs > 0).map(move |(o, _)| (t, o))).collect();
        if !cand.is_empty() {
            for _ in 0..r.range(1, 4) {
                let (t, o) = *r.pick(&cand);
                let first = r.range(1, m[t][o].allocs.min(1_000_000)) as u32;
                let all = r.pct(40) && m[t][o].allocs < 100;
                p.tasks[t][o].nest = Some(Nest { first: if all { 1 } else { first }, every: if all { r.u32b(3) } else { 0 }, frees: r.pct(30) });
            }
        }
        for ops in &mut p.tasks {
            for x in ops {
                match &mut x.op {
                    Op::Expand { names, kind, f, .. } if r.pct(50) => {
                        let n = names.len() as u32 + 1;
                        f.reenter.push(r.u32b(n));
                        if r.pct(50) {
                            *kind = 2;
                            f.drop_reenter.push(r.u32b(n));
                        }
                    }
                    Op::Render { f, .. } => f.reenter |= r.pct(60),
                    _ => {}
                }
            }
        }
    }
    if prop == "C02" && r.pct(25) && !targets.is_empty() {
        let (t, o) = *r.pick(&targets);
        p.tasks[t][o].rep = 8;
    }
    p
}
