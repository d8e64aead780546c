//! Explicit-state exploration of table histories: every sequence of writer operations up to a depth, with
//! the real reader queried in every state reached.
use crate::report::Report;
use crate::world::{Cfg, Op, World};
use std::sync::Arc;

/// All successors of a world under an operation; a `Fail` stands for one per crash point.
pub fn succ(w: &World, op: &Op) -> Vec<World> {
    match op {
        Op::Fail(o, _) => {
            let mut v = vec![];
            let mut k = 0;
            while let Some(x) = w.step(&Op::Fail(o.clone(), k)) {
                v.push(x);
                k += 1;
            }
            v
        }
        op => w.step(op).into_iter().collect(),
    }
}

#[derive(Clone)]
pub struct Space {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    pub depth: usize,
    /// the operations one after the other, looking at the states after so many of them
    pub stops: Option<Vec<usize>>,
}

/// Operations; `(A B)*n` stands for n repetitions.
pub fn ops(s: &str) -> Vec<Op> {
    let mut t = String::new();
    for x in s.split('(') {
        match x.split_once(")*") {
            None => t.push_str(x),
            Some((body, rest)) => {
                let cut = rest.find(' ').unwrap_or(rest.len());
                for _ in 0..rest[..cut].parse().unwrap() {
                    t.push_str(body);
                    t.push(' ');
                }
                t.push_str(&rest[cut..]);
            }
        }
    }
    t.split_whitespace()
        .map(|o| Op::parse(o).unwrap_or_else(|| panic!("op {o}")))
        .collect()
}

impl Space {
    pub fn new(cfg: Cfg, o: &str, depth: usize) -> Self {
        Space {
            cfg,
            ops: ops(o),
            depth,
            stops: None,
        }
    }
    pub fn chain(cfg: Cfg, o: &str, stops: &[usize]) -> Self {
        Space {
            stops: Some(stops.to_vec()),
            ..Space::new(cfg, o, 0)
        }
    }
    pub fn show(&self) -> String {
        if let Some(st) = &self.stops {
            let mut runs: Vec<(String, usize)> = vec![];
            for o in &self.ops {
                match runs.last_mut() {
                    Some(r) if r.0 == o.show() => r.1 += 1,
                    _ => runs.push((o.show(), 1)),
                }
            }
            let mut text: Vec<String> = runs
                .iter()
                .map(|r| if r.1 > 1 { format!("{}*{}", r.0, r.1) } else { r.0.clone() })
                .collect();
            if text.len() > 12 {
                let n = text.len() - 9;
                text.splice(6..6 + n, [format!("... {n} more ...")]);
            }
            return format!("{} after {st:?} of [{}]", self.cfg.show(), text.join(" "));
        }
        format!(
            "{} depth {} over [{}]",
            self.cfg.show(),
            self.depth,
            self.ops
                .iter()
                .map(|o| o.show())
                .collect::<Vec<_>>()
                .join(" ")
        )
    }
}

/// Visit every reachable world of the spaces, each once.
pub fn explore(
    rep: &Arc<Report>,
    spaces: Vec<Space>,
    limit_s: u64,
    visit: impl Fn(&Report, &World) + Send + Sync + 'static,
) {
    for s in &spaces {
        rep.note(&s.show());
    }
    // the tasks are the worlds at depth 2, and the shallower ones on their own
    let mut tasks: Vec<(World, usize, Vec<Op>)> = vec![];
    for s in spaces.iter().filter(|s| s.stops.is_some()) {
        let mut w = World::new(s.cfg.clone());
        for (i, o) in s.ops.iter().enumerate() {
            w = w.step(o).unwrap_or_else(|| panic!("{} is not possible after {i} operations of {}", o.show(), s.show()));
            rep.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if s.stops.as_ref().unwrap().contains(&(i + 1)) {
                tasks.push((w.clone(), 0, vec![]));
            }
        }
    }
    for s in spaces.iter().filter(|s| s.stops.is_none()) {
        let mut level = vec![World::new(s.cfg.clone())];
        for d in 0..=s.depth.min(2) {
            let last = d == s.depth.min(2);
            let mut next = vec![];
            for w in level {
                tasks.push((w.clone(), if last { s.depth - d } else { 0 }, s.ops.clone()));
                if !last {
                    for o in &s.ops {
                        for x in succ(&w, o) {
                            rep.transitions
                                .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            next.push(x);
                        }
                    }
                }
            }
            level = next;
        }
    }
    tasks.reverse();
    let rep2 = rep.clone();
    crate::run::pool(
        rep,
        tasks,
        limit_s,
        |t| format!("{} {}", t.0.cfg.show(), t.0.trace.join(" ")),
        move |(w, left, ops)| dfs(&rep2, w, *left, ops, &visit),
    );
}

pub fn key(w: &World) -> String {
    format!("{} {}", w.cfg.show(), w.trace.join(" "))
}

fn dfs(rep: &Report, w: &World, left: usize, ops: &[Op], visit: &impl Fn(&Report, &World)) {
    use std::sync::atomic::Ordering::Relaxed;
    if rep.stop() {
        return;
    }
    rep.states.fetch_add(1, Relaxed);
    if rep.only.is_none() || rep.wants(&key(w)) {
        crate::run::beat(rep, || key(w));
        visit(rep, w);
    }
    if left == 0 {
        rep.validated.fetch_add(1, Relaxed);
        return;
    }
    for o in ops {
        for x in succ(w, o) {
            rep.transitions.fetch_add(1, Relaxed);
            dfs(rep, &x, left - 1, ops, visit);
        }
    }
}
