//! Shrinks a failing plan while it fails in the same way.
use crate::plan::*;
use crate::{Outcome, Runner};
use std::time::Instant;

fn drop_task(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    q.tasks.remove(t);
    q.events.retain(|e| e.task != t as i32);
    for e in &mut q.events {
        if e.task > t as i32 {
            e.task -= 1;
        }
        if let Kind::Preempt(k) = &mut e.kind {
            if *k > t as i32 {
                *k -= 1;
            } else if *k == t as i32 {
                *k = -1;
            }
        }
    }
    q
}
fn drop_ops(p: &Plan, t: usize, from: usize, n: usize) -> Plan {
    let mut q = p.clone();
    q.tasks[t].drain(from..from + n);
    let (a, b) = (from as i32, (from + n) as i32);
    q.events.retain(|e| e.task != t as i32 || e.op < a || e.op >= b);
    for e in &mut q.events {
        if e.task == t as i32 && e.op >= b {
            e.op -= n as i32;
        }
    }
    q
}
fn specs(op: &Op) -> Option<&Spec> {
    match op {
        Op::Query { src: Src::Fresh(s) | Src::Scratch(s) | Src::CloneOf(_, s), .. } => Some(s),
        Op::SetPut { q, .. } | Op::Own { q, .. } => Some(q),
        _ => None,
    }
}
fn with_spec(op: &Op, n: Spec) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Query { src: Src::Fresh(s) | Src::Scratch(s) | Src::CloneOf(_, s), .. } => *s = n,
        Op::SetPut { q, .. } | Op::Own { q, .. } => *q = n,
        _ => {}
    }
    o
}
fn simpler_specs(s: &Spec) -> Vec<Spec> {
    let mut v = vec![];
    let mut add = |f: &dyn Fn(&mut Spec)| {
        let mut n = s.clone();
        f(&mut n);
        if n != *s {
            v.push(n);
        }
    };
    add(&|n| n.path = 0);
    add(&|n| n.inc = None);
    add(&|n| n.exc = None);
    add(&|n| n.inc_ch = None);
    add(&|n| n.exc_ch = None);
    add(&|n| n.min = None);
    add(&|n| n.max = None);
    let half = |x: &Option<String>, first: bool| {
        x.as_ref().map(|s| {
            let c: Vec<char> = s.chars().collect();
            let k = c.len() / 2;
            if first { c[..k].iter().collect() } else { c[k..].iter().collect::<String>() }
        })
    };
    for f in [true, false] {
        add(&|n| n.inc_ch = half(&s.inc_ch, f));
        add(&|n| n.exc_ch = half(&s.exc_ch, f));
    }
    for b in 0..30 {
        if s.inc.is_some_and(|m| m >> b & 1 == 1 && m.count_ones() > 1) {
            add(&|n| n.inc = s.inc.map(|m| m & !(1 << b)));
        }
        if s.exc.is_some_and(|m| m >> b & 1 == 1) {
            add(&|n| n.exc = s.exc.map(|m| m & !(1 << b)));
        }
    }
    v
}
/// The list with a part left out: halves first, single elements last.
fn without<T: Clone>(l: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![];
    let mut n = l.len() / 2;
    while n > 0 {
        for i in (0..l.len()).step_by(n) {
            v.push([&l[..i], &l[(i + n).min(l.len())..]].concat());
        }
        n /= 2;
    }
    v
}
fn simpler_ops(op: &Op) -> Vec<Op> {
    let mut v: Vec<Op> = specs(op).map(simpler_specs).unwrap_or_default().into_iter().map(|s| with_spec(op, s)).collect();
    match op {
        Op::Query { src: Src::Scratch(s), set } => v.push(Op::Query { src: Src::Fresh(s.clone()), set: *set }),
        Op::Many { what, seed, n } if *n > 1 => {
            for m in [n / 2, n - n / 4, n - n / 16, n - 1] {
                v.push(Op::Many { what: *what, seed: *seed, n: m });
            }
        }
        Op::SetRead { slot, reads } if reads.len() > 1 => {
            for r in without(reads) {
                v.push(Op::SetRead { slot: *slot, reads: r });
            }
        }
        Op::Own { q, acts } if acts.len() > 1 => {
            for r in without(acts) {
                v.push(Op::Own { q: q.clone(), acts: r });
            }
        }
        Op::Expand { v: ver, names, kind, f } => {
            v.push(Op::Expand { v: *ver, names: names.clone(), kind: *kind, f: StreamFaults::default() });
            for r in without(names) {
                v.push(Op::Expand { v: *ver, names: r, kind: *kind, f: f.clone() });
            }
            for k in 0..9 {
                let mut g = f.clone();
                match k {
                    8 => g.drop_reenter.clear(),
                    0 => g.hint = 0,
                    1 => g.yields.clear(),
                    2 => g.reenter.clear(),
                    3 => g.text_yields.clear(),
                    4 => g.text_panic_at = None,
                    5 => g.panic_at = None,
                    6 => g.again = None,
                    _ => g.end_at = None,
                }
                if g != *f {
                    v.push(Op::Expand { v: *ver, names: names.clone(), kind: *kind, f: g });
                }
            }
        }
        Op::Render { item, f } => {
            for k in 0..4 {
                let mut g = f.clone();
                match k {
                    0 => g.yields = false,
                    1 => g.reenter = false,
                    2 => g.short = false,
                    _ => g.panic = false,
                }
                if g != *f {
                    v.push(Op::Render { item: item.clone(), f: g });
                }
            }
            if let Item::Set(m) = item {
                for b in 0..30 {
                    if m >> b & 1 == 1 {
                        v.push(Op::Render { item: Item::Set(m & !(1 << b)), f: f.clone() });
                    }
                }
            }
        }
        Op::Cs(a) if a.len() > 1 => {
            for r in without(a) {
                v.push(Op::Cs(r));
            }
        }
        _ => {}
    }
    v
}

pub fn minimise(r: &Runner, plan: Plan, class: &str, text: String) -> (Plan, String, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut why = text;
    let mut tries = 0u64;
    let mut attempt = |p: Plan, best: &mut Plan, why: &mut String| -> bool {
        if p == *best {
            return false;
        }
        if tries >= 2500 || t0.elapsed().as_secs() > 60 {
            return false;
        }
        tries += 1;
        if let Outcome::Violation { class: c, text } = r.run(&p, false) {
            if c == class {
                *best = p;
                *why = text;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut t = 0;
        while best.tasks.len() > 1 && t < best.tasks.len() {
            if !attempt(drop_task(&best, t), &mut best, &mut why) {
                t += 1;
            }
        }
        for t in 0..best.tasks.len() {
            let mut n = best.tasks[t].len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i + n <= best.tasks[t].len() {
                    if !attempt(drop_ops(&best, t, i, n), &mut best, &mut why) {
                        i += n;
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2;
            }
        }
        let mut i = 0;
        while i < best.nested.len() {
            let mut p = best.clone();
            p.nested.remove(i);
            if !attempt(p, &mut best, &mut why) {
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.events.len() {
            let mut p = best.clone();
            p.events.remove(i);
            if !attempt(p, &mut best, &mut why) {
                i += 1;
            }
        }
        for f in [
            (|p: &mut Plan| p.switch_pct = 0) as fn(&mut Plan),
            |p| p.quantum = 400_000,
            |p| p.other = None,
            |p| p.hook = false,
            |p| p.inner.clear(),
            |p| p.inner.iter_mut().for_each(|i| i.0 = 0),
            |p| p.inner.iter_mut().for_each(|i| i.1 = 0),
            |p| p.nested.truncate(1),
            |p| p.world.extra_threads = 0,
            |p| p.world.spawn_rot = 0,
            |p| p.world.env = 0,
            |p| p.builders.truncate(1),
            |p| p.sets.truncate(1),
            |p| p.cursors.truncate(1),
            |p| p.cursors = vec![Spec { inc: Some(0), ..Spec::default() }],
            |p| p.sets = vec![Spec { inc: Some(0), ..Spec::default() }],
            |p| p.builders = vec![Spec { inc: Some(0), ..Spec::default() }],
        ] {
            let mut p = best.clone();
            f(&mut p);
            if p != best {
                attempt(p, &mut best, &mut why);
            }
        }
        for t in 0..best.tasks.len() {
            for o in 0..best.tasks[t].len() {
                let mut p = best.clone();
                p.tasks[t][o].fail = None;
                if p != best {
                    attempt(p, &mut best, &mut why);
                }
                let mut p = best.clone();
                p.tasks[t][o].again = 1000;
                if p != best {
                    attempt(p, &mut best, &mut why);
                }
                let mut p = best.clone();
                p.tasks[t][o].nest = None;
                if p != best {
                    attempt(p, &mut best, &mut why);
                }
                let mut p = best.clone();
                p.tasks[t][o].rep = 1;
                if p != best {
                    attempt(p, &mut best, &mut why);
                }
                let mut again = true;
                while again {
                    again = false;
                    for s in simpler_ops(&best.tasks[t][o].op) {
                        let mut p = best.clone();
                        p.tasks[t][o].op = s;
                        if attempt(p, &mut best, &mut why) {
                            again = true;
                            break;
                        }
                    }
                }
            }
        }
        for k in 0..3 {
            let n = [best.builders.len(), best.sets.len(), best.cursors.len()][k];
            for i in 0..n {
                let cur = [&best.builders, &best.sets, &best.cursors][k][i].clone();
                for s in simpler_specs(&cur) {
                    let mut p = best.clone();
                    [&mut p.builders, &mut p.sets, &mut p.cursors][k][i] = s;
                    attempt(p, &mut best, &mut why);
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, why, tries)
}
