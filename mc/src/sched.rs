//! The properties decided by exploring schedules and faults of the real reader: C05 to C07.
use crate::exec::*;
use crate::hist::{key, ops};
use crate::q::*;
use crate::report::Report;
use crate::run::{beat, fresh, guard, pool};
use crate::store::{Fault, Mode, Mounted, Mutation};
use crate::world::*;
use hudi_core::table::Table;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

/// A query, and what it must answer in a world.
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Snap,
    Slices,
    Filtered,
    AsOf(String),
    Inc(String, Option<String>),
    Schema,
    Between(String, Option<String>),
    SlicesAsOf(String),
    Splits,
    OneByOne,
    AvroSchema,
    PartSchema,
}

fn listed<'a>(s: impl IntoIterator<Item = &'a hudi_core::file_group::file_slice::FileSlice>) -> Vec<String> {
    let mut v: Vec<String> = s
        .into_iter()
        .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
        .collect();
    v.sort();
    v
}

impl Q {
    pub fn show(&self) -> String {
        match self {
            Q::Snap => "snapshot".into(),
            Q::Slices => "slices".into(),
            Q::Filtered => "snapshot where part = a".into(),
            Q::AsOf(t) => format!("as of {t}"),
            Q::Inc(s, e) => format!("changes in ({s}, {e:?}]"),
            Q::Schema => "schema".into(),
            Q::Between(s, e) => format!("slices between {s} and {e:?}"),
            Q::SlicesAsOf(t) => format!("slices as of {t}"),
            Q::Splits => "splits".into(),
            Q::OneByOne => "slices read one by one".into(),
            Q::AvroSchema => "Avro schema".into(),
            Q::PartSchema => "partition schema".into(),
        }
    }
    pub fn want(&self, w: &World) -> Vec<String> {
        match self {
            Q::Snap => w.shown(&w.snap()),
            Q::Slices => w.live_slices(),
            Q::Filtered => {
                let mut r = w.snap();
                r.retain(|r| r.part == "a");
                w.shown(&r)
            }
            Q::AsOf(t) => w.shown(&w.as_of(t)),
            Q::Inc(s, e) => {
                let e = e.as_deref().or(w.latest()).unwrap_or("");
                if s.as_str() >= e {
                    vec![]
                } else {
                    w.shown(&w.between(s, e))
                }
            }
            Q::Between(s, e) => crate::props_hist::changed(w, s, e.as_deref().or(w.latest()).unwrap_or("")),
            Q::SlicesAsOf(t) => crate::props_hist::slices_at(w, t),
            Q::Splits => w.live_slices(),
            Q::OneByOne => w.shown(&w.snap()),
            Q::AvroSchema => vec![crate::fmt::user_schema(None)],
            Q::PartSchema => w.cfg.partitioned.then(|| "part".to_string()).into_iter().collect(),
            Q::Schema => crate::fmt::schema()
                .fields()
                .iter()
                .map(|f| f.name().clone())
                .collect(),
        }
    }
    pub async fn ask(&self, t: &Table) -> Rows {
        match self {
            Q::Snap => snap(t).await,
            Q::Slices => {
                Ok(listed(&t.get_file_slices(&[]).await.map_err(e)?))
            }
            Q::Between(s, x) => {
                Ok(listed(&t.get_file_slices_between(Some(s), x.as_deref()).await.map_err(e)?))
            }
            Q::SlicesAsOf(ts) => Ok(listed(&t.get_file_slices_as_of(ts, &[]).await.map_err(e)?)),
            Q::Splits => Ok(listed(t.get_file_slices_splits(2, &[]).await.map_err(e)?.iter().flatten())),
            Q::OneByOne => {
                let s = t.get_file_slices(&[]).await.map_err(e)?;
                read_slices(t, &s, &[]).await
            }
            Q::AvroSchema => Ok(vec![t.get_avro_schema().await.map_err(e)?]),
            Q::PartSchema => {
                let s = t.get_partition_schema().await.map_err(e)?;
                Ok(s.fields().iter().map(|f| f.name().clone()).collect())
            }
            Q::Filtered => rows(t.read_snapshot(&[("part", "=", "a")]).await),
            Q::AsOf(ts) => as_of(t, ts).await,
            Q::Inc(s, e) => inc(t, s, e.as_deref()).await,
            Q::Schema => {
                let s = t.get_schema().await.map_err(e)?;
                Ok(s.fields().iter().map(|f| f.name().clone()).collect())
            }
        }
    }
}

fn build(cfg: &Cfg, trace: &str) -> World {
    let mut w = World::new(cfg.clone());
    for o in ops(trace) {
        w = w
            .step(&o)
            .unwrap_or_else(|| panic!("{} not possible in {trace}", o.show()));
    }
    w
}

/// Storage mutations that lead from one world to the next under an operation, in order.
fn muts(w: &World, o: &Op) -> (Vec<Mutation>, World) {
    let n = w
        .step(o)
        .unwrap_or_else(|| panic!("{} after {}", o.show(), w.trace.join(" ")));
    (n.last.clone(), n)
}

#[derive(Clone)]
struct Scene {
    before: World,
    /// the states a reader may see, oldest first
    states: Vec<World>,
    writer: Vec<Mutation>,
    label: String,
    /// the reader may find a file gone
    may_fail: bool,
    reader: Vec<Q>,
}

pub fn c05(rep: &Arc<Report>) {
    let c = Cfg::cow(2);
    let c1 = Cfg::nonpart(false);
    let m = Cfg::mor(1);
    let m1 = Cfg::nonpart(true);
    let mp = Cfg {
        avro_log: false,
        ts14: true,
        ..m.clone()
    };
    // (table, history, concurrent operations)
    let mut sc: Vec<(&Cfg, &str, &str)> = vec![
        (&c, "", "Ins0"),
        (&c, "Ins0", "Ins0"),
        (&c, "Ins0", "Ins1"),
        (&c, "Ins0", "Ups0"),
        (&c, "Ins0 Ins1", "UpsAll"),
        (&c, "Ins0 Ins1", "Ow0"),
        (&c, "Ins0 Ins1", "DelP0"),
        (&c, "Ins0 Ins0", "Clus0"),
        (&c, "Ins0 Ups0", "Clean"),
        (&c, "Ins0 Ow0", "Clean"),
        (&c, "Ins0 Ups0 Ups0", "Arch"),
        (&c, "Ins0 Ow0 Clean", "Arch"),
        (&c, "Ins0 Ups0!3", "Rb"),
        (&c, "Ins0 Ins1!4 Ups0", "Rb"),
        (&c, "Ins0 Ins1!4 Ups0", "Fin"),
        (&c, "Ins0 Ow0!3 Ins1", "Fin"),
        (&c, "Ins0 Ins0 Clus0!3 Ins1", "Fin"),
        (&c1, "Ins0 Ins0 Clus0!3 Ins0", "Fin"),
        (&c, "Ins0 Ins1 DelP1!2 Ups0", "Fin"),
        (&m, "Ins0 Ups0 Clus0!3 Ins0", "Fin"),
        (&c1, "Ins0 Ups0", "Ups0"),
        (&c1, "Ins0 Ins0", "Clus0"),
        (&c1, "Ins0", "Ow0"),
        (&c, "Ins0", "Ups0 Ow0"),
        (&c, "Ins0", "Ins1 UpsAll"),
        (&c1, "Ins0 Ins0", "Ups0 Clus0"),
        (&m, "Ins0", "Ups0"),
        (&m, "Ins0 Ups0", "Ups0"),
        (&m, "Ins0 Ups0", "Comp"),
        (&m, "Ins0 Ups0", "Clus0"),
        (&m, "Ins0 Ups0", "Ow0"),
        (&m, "Ins0 Ups0 Comp", "Clean"),
        (&m, "Ins0 Ups0!3", "Rb"),
        (&m, "Ins0 Ups0 Comp!3", "Fin"),
        (&m, "Ins0 Ups0 Comp!3 Ups0", "Fin"),
        (&m, "Ins0 Ups0 Comp!3", "Ups0"),
        (&m, "Ins0 Ups0 Comp!3", "Rb"),
        (&m, "Ins0 Ups0", "Comp Ups0"),
        (&m, "Ins0", "Ups0 Comp"),
        (&m, "Ins0 Ups0 Comp!2", "Ups0 Fin"),
        (&m1, "Ins0 Ups0", "Comp"),
        // a write fails, is rolled back and tried again; two unfinished writes at a time
        (&c, "Ins0", "Ups0!3 Rb Ups0"),
        (&c1, "Ins0", "Ins0!3 Rb Ins0"),
        (&m, "Ins0 Ups0", "Ups0!3 Rb"),
        (&c, "Ins0 Ins1!4 Park Ups0!3", "Rb Park Fin"),
        (&m, "Ins0 Ups0 Comp!3 Park Ups0!3", "Rb Park Fin"),
        (&m, "Ins0 Ups0 Comp!3 Park Ups0!3 Park", "Fin Park Rb"),
        (&mp, "Ins0 Ups0", "Ups0"),
        (&mp, "Ins0 Ups0", "Comp"),
    ];
    if rep.thorough {
        sc.extend([
            (&c, "Ins0", "Ups0 Ups0 Clus0"),
            (&c, "Ins0 Ins1", "UpsAll Ow0"),
            (&c, "Ins0 Ins1 Ups0!3", "Rb Ups0"),
            (&m, "Ins0 Ups0", "Ups0 Comp Ups0"),
            (&m, "Ins0 Ups0 Ups0!3", "Rb Comp"),
            (&m, "Ins0 Ups0 Comp!3 Ups0", "Fin Clus0"),
        ]);
    }
    let mut scenes = vec![];
    for (cfg, h, con) in sc {
        let before = build(cfg, h);
        let mut states = vec![before.clone()];
        let mut writer = vec![];
        for o in ops(con) {
            let (m, n) = muts(states.last().unwrap(), &o);
            writer.extend(m);
            states.push(n);
        }
        let label = format!("{} [{h}] || {con}", cfg.show());
        let mut readers = vec![vec![Q::Snap, Q::Snap], vec![Q::Slices, Q::Snap]];
        if let Some(t) = before.latest() {
            readers.push(vec![Q::AsOf(t.into()), Q::Snap]);
            let s = before.hist[0].ts.clone();
            if con != "Arch" && !h.contains("Clean") && states.iter().all(|w| w.ahead.is_empty()) {
                readers.push(vec![Q::Inc(s, None), Q::Snap]);
            }
        }
        for reader in readers {
            scenes.push(Scene {
                before: before.clone(),
                states: states.clone(),
                writer: writer.clone(),
                label: format!(
                    "{label}: {}",
                    reader
                        .iter()
                        .map(|q| q.show())
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
                may_fail: con == "Arch",
                reader,
            });
        }
    }
    let bound = if rep.thorough { 3 } else { 2 };
    rep.note(&format!(
        "{} scenes (table history || concurrent operations: reader's queries), all schedules with at most {bound} deviations; a deviation is a switch between reader and writer, or a completion out of order",
        scenes.len()
    ));
    let rep2 = rep.clone();
    let outcomes: Arc<std::sync::Mutex<BTreeMap<String, std::collections::BTreeSet<usize>>>> =
        Default::default();
    let out2 = outcomes.clone();
    pool(
        rep,
        scenes,
        60,
        |s| s.label.clone(),
        move |s| {
            let mut prefix = vec![];
            loop {
                if rep2.stop() {
                    return;
                }
                let key = format!("{} @ {prefix:?}", s.label);
                beat(&rep2, || key.clone());
                let (end, tr, written) = run_scene(s, &prefix);
                rep2.transitions.fetch_add(tr.taken.len() as u64, Relaxed);
                rep2.states.fetch_add(1, Relaxed);
                rep2.evalv(written > 0, (&s.label, &tr.taken));
                if rep2.wants(&key) {
                    rep2.validated.fetch_add(1, Relaxed);
                    judge(&rep2, s, &key, end, &tr, &out2);
                }
                match next_prefix(&tr, bound) {
                    Some(p) => prefix = p,
                    None => break,
                }
            }
        },
    );
    let o = outcomes.lock().unwrap();
    rep.count(
        "scenes_in_which_readers_saw_more_than_one_state",
        o.values().filter(|v| v.len() > 1).count() as u64,
    );
}

type SceneEnd = Result<(Rows, Rows), String>;

fn run_scene(s: &Scene, prefix: &[usize]) -> (RunEnd<SceneEnd>, Trace, usize) {
    let (s, prefix) = (s.clone(), prefix.to_vec());
    fresh(move || {
        let m = Mounted::new(s.before.mounted());
        m.0.inner.lock().unwrap().mode = Mode::Sched;
        let url = m.url();
        let r = guard(|| {
            run_sched(
                async {
                    let t = open(&url).await?;
                    let a = s.reader[0].ask(&t).await;
                    let b = s.reader[1].ask(&t).await;
                    Ok((a, b))
                },
                &m.0,
                &s.writer,
                "t",
                &prefix,
            )
        });
        match r {
            Ok(r) => r,
            Err(p) => (
                RunEnd::Done(Err(p)),
                Trace {
                    taken: prefix,
                    widths: vec![],
                    shown: vec![],
                },
                1,
            ),
        }
    })
}

fn judge(
    rep: &Report,
    s: &Scene,
    key: &str,
    end: RunEnd<SceneEnd>,
    tr: &Trace,
    out: &std::sync::Mutex<BTreeMap<String, std::collections::BTreeSet<usize>>>,
) {
    let bad = |how: String| {
        rep.violation(
            format!("{}: {how}\n    schedule: {}", s.label, tr.shown.join("; ")),
            key,
        );
    };
    let (a, b) = match end {
        RunEnd::Stuck => return bad("the reader waits for ever".into()),
        RunEnd::Done(Err(x)) if x.starts_with("PANIC") => return bad(x),
        // a table whose first commit is being written
        RunEnd::Done(Err(x)) => {
            if !s.may_fail {
                bad(format!("opening fails: {x}"));
            }
            return;
        }
        RunEnd::Done(Ok(x)) => x,
    };
    let fits = |q: &Q, r: &Rows| -> Vec<usize> {
        match r {
            Ok(r) => (0..s.states.len())
                .filter(|i| q.want(&s.states[*i]) == *r)
                .collect(),
            Err(x) if s.may_fail && !x.starts_with("PANIC") => (0..s.states.len()).collect(),
            Err(_) => vec![],
        }
    };
    let fa = fits(&s.reader[0], &a);
    let fb = fits(&s.reader[1], &b);
    if fa.is_empty() {
        return bad(format!(
            "{} gives no committed state: {a:?}",
            s.reader[0].show()
        ));
    }
    if fb.is_empty() {
        return bad(format!(
            "{} gives no committed state: {b:?}",
            s.reader[1].show()
        ));
    }
    let both: Vec<usize> = fa.iter().filter(|i| fb.contains(i)).copied().collect();
    if both.is_empty() {
        return bad(format!(
            "one handle answers with two states: {} {a:?}, then {} {b:?}",
            s.reader[0].show(),
            s.reader[1].show()
        ));
    }
    if b.is_ok() {
        out.lock()
            .unwrap()
            .entry(s.label.clone())
            .or_default()
            .insert(fb[0]);
    }
    if tr.taken.iter().filter(|c| **c != 0).count() == 2 {
        rep.sample(json!({"scene": s.label, "schedule": tr.shown, "state seen": both}));
    }
}

fn tables(thorough: bool) -> Vec<World> {
    let c3 = Cfg::cow(3);
    let m2 = Cfg::mor(2);
    let same = Cfg {
        same_ids: true,
        ..Cfg::cow(2)
    };
    let deep = Cfg {
        parts: [("x/1/m", "a"), ("x/2/m", "b"), ("y/1/n", "c"), ("y/1/o", "d")].map(|(p, v)| (p.into(), v.into())).to_vec(),
        ..Cfg::cow(4)
    };
    let mut v = vec![
        build(&c3, "Ins0 Ins1 Ins2 Ups0"),
        build(&c3, "Ins0 Ins0 Ins1 Ow0"),
        build(&Cfg::cow(2), "Ins0 Ins1 DelP0 Ups1!3"),
        build(&same, "Ins0 Ins1 Ow0 Ups1"),
        build(&deep, "Ins0 Ins1 Ins3 Ups0"),
        build(&Cfg::nonpart(false), "Ins0 Ups0 Ins0 Clus0"),
        build(&m2, "Ins0 Ins1 Ups0 UpsAll"),
        build(&m2, "Ins0 Ups0 Comp Ups0 Ins1"),
        build(&Cfg::nonpart(true), "Ins0 Ups0 Ups0!3 Rb Ups0"),
        build(&m2, "Ins0 Ups0 Comp!3 Ups0"),
    ];
    if thorough {
        v.extend([
            build(&c3, "Ins0 Ins1 Ins2 UpsAll Clus1 Clean"),
            build(&m2, "Ins0 Ins0 Ups0 Clus0 Ups0 Ow0!1"),
            build(&m2, "Ins0 Ins1 UpsAll Comp UpsAll Clean"),
        ]);
    }
    v
}

fn queries(w: &World) -> Vec<Q> {
    let mut v = vec![Q::Snap, Q::Slices];
    if w.cfg.partitioned && !w.cfg.parts[0].0.contains('/') {
        v.push(Q::Filtered);
    }
    v.push(Q::AsOf(w.hist[w.from].ts.clone()));
    if w.from == 0 && w.ahead.is_empty() {
        v.push(Q::Inc(w.hist[0].ts.clone(), None));
    }
    v.push(Q::Schema);
    v
}

#[derive(Clone)]
struct Pair {
    w: World,
    qs: Vec<Q>,
    opts: Vec<(&'static str, &'static str)>,
    reverse: bool,
    bound: usize,
}
impl Pair {
    fn label(&self) -> String {
        format!(
            "{}: {} {:?}{}",
            key(&self.w),
            self.qs
                .iter()
                .map(|q| q.show())
                .collect::<Vec<_>>()
                .join(" || "),
            self.opts,
            if self.reverse {
                " reversed listings"
            } else {
                ""
            }
        )
    }
}

pub fn c06(rep: &Arc<Report>) {
    let b = usize::from(rep.thorough);
    let mut cases = vec![];
    for w in tables(rep.thorough) {
        let qs = queries(&w);
        for q in &qs {
            for par in ["0", "1", "2", "10"] {
                for reverse in [false, true] {
                    cases.push(Pair {
                        w: w.clone(),
                        qs: vec![q.clone()],
                        opts: vec![("hoodie.read.listing.parallelism", par)],
                        reverse,
                        bound: 3 + b,
                    });
                }
            }
        }
        for (i, a) in qs.iter().enumerate() {
            for b2 in &qs[i..] {
                cases.push(Pair {
                    w: w.clone(),
                    qs: vec![a.clone(), b2.clone()],
                    opts: vec![],
                    reverse: i % 2 == 1,
                    bound: 1 + usize::from(rep.thorough || i == 0),
                });
            }
        }
        cases.push(Pair {
            w: w.clone(),
            qs: vec![Q::Snap, Q::Snap, Q::AsOf(w.hist[w.from].ts.clone())],
            opts: vec![],
            reverse: false,
            bound: 1 + b,
        });
    }
    rep.note(&format!(
        "{} cases (table, queries running at once on one handle, listing parallelism, listing order); single queries with at most {}, concurrent ones with at most {} (a snapshot with any other: 2) completions out of order",
        cases.len(), 3 + b, 1 + b
    ));
    let rep2 = rep.clone();
    pool(
        rep,
        cases,
        60,
        |p| p.label(),
        move |p| {
            let label = p.label();
            let mut prefix = vec![];
            loop {
                if rep2.stop() {
                    return;
                }
                beat(&rep2, || format!("{label} @ {prefix:?}"));
                let (end, tr) = run_pair(p, &prefix);
                rep2.transitions.fetch_add(tr.taken.len() as u64, Relaxed);
                rep2.states.fetch_add(1, Relaxed);
                rep2.evalv(!tr.taken.is_empty(), (&label, &tr.taken));
                let key = format!("{label} @ {prefix:?}");
                if rep2.wants(&key) {
                    rep2.validated.fetch_add(1, Relaxed);
                    let bad = |how: String| {
                        rep2.violation(
                            format!("{label}: {how}\n    completions: {}", tr.shown.join("; ")),
                            key.clone(),
                        );
                    };
                    match end {
                        RunEnd::Stuck => bad("deadlock: no storage request is outstanding and the queries are not done".into()),
                        RunEnd::Done(Err(x)) => bad(x),
                        RunEnd::Done(Ok(v)) => {
                            for (q, r) in p.qs.iter().zip(v) {
                                let want = q.want(&p.w);
                                if r.as_ref() != Ok(&want) {
                                    bad(format!("{}: expected {want:#?}, got {r:#?}", q.show()));
                                }
                            }
                        }
                    }
                    if tr.taken.iter().any(|c| *c != 0) {
                        rep2.sample(json!({"case": label, "completions": tr.shown}));
                    }
                }
                match next_prefix(&tr, p.bound) {
                    Some(p) => prefix = p,
                    None => break,
                }
            }
        },
    );
}

fn run_pair(p: &Pair, prefix: &[usize]) -> (RunEnd<Result<Vec<Rows>, String>>, Trace) {
    let (p, prefix) = (p.clone(), prefix.to_vec());
    fresh(move || {
        let m = Mounted::new(p.w.mounted());
        m.0.inner.lock().unwrap().reverse_list = p.reverse;
        let url = m.url();
        let t = match q(open_with(&url, &p.opts)) {
            Ok(t) => t,
            Err(e) => {
                let tr = Trace {
                    taken: vec![],
                    widths: vec![],
                    shown: vec![],
                };
                return (RunEnd::Done(Err(e)), tr);
            }
        };
        m.0.inner.lock().unwrap().mode = Mode::Sched;
        let r = guard(|| {
            run_sched(
                async { Ok(futures::future::join_all(p.qs.iter().map(|q| q.ask(&t))).await) },
                &m.0,
                &[],
                "t",
                &prefix,
            )
        });
        match r {
            Ok((e, t, _)) => (e, t),
            Err(x) => (
                RunEnd::Done(Err(x)),
                Trace {
                    taken: prefix,
                    widths: vec![],
                    shown: vec![],
                },
            ),
        }
    })
}

/// Every table that so many operations lead to.
fn reached(depth: usize) -> Vec<World> {
    let mut v: Vec<World> = vec![];
    for (cfg, o) in [
        (Cfg::cow(2), "Ins0 Ins1 Ups0 Ow0 DelP0 Clus0 UpsAll Empty Ins0!1"),
        (Cfg::nonpart(false), "Ins0 Ups0 Del0 Ow0 Clus0 Ups0!1 Rb"),
        (Cfg::mor(2), "Ins0 Ins1 Ups0 UpsAll Comp Clus0 Ow0 Ups0!2"),
        (Cfg { avro_log: false, ts14: true, ..Cfg::nonpart(true) }, "Ins0 Ups0 Late0 Comp Clus0 Ups0!2 Rb"),
    ] {
        let mut level = vec![World::new(cfg)];
        for _ in 0..depth {
            level = level.iter().flat_map(|w| ops(o).into_iter().filter_map(|o| w.step(&o)).collect::<Vec<_>>()).collect();
            v.extend(level.iter().filter(|w| !w.hist.is_empty()).cloned());
        }
    }
    v
}

/// A file as damage may leave it: the way it was damaged, and its content then. Only damage that
/// can be told from an intact file counts: metadata that is cut short or has a value of another
/// type, a base file that lacks its end.
fn damaged(path: &str, b: &bytes::Bytes, thorough: bool) -> Vec<(String, bytes::Bytes)> {
    let mut v = vec![];
    let cut = |n: usize| (format!("cut to {n} bytes"), b.slice(..n));
    if path.ends_with(".parquet") {
        let n = b.len();
        let mut at: Vec<usize> = (0..13).chain([n / 4, n / 2, 3 * n / 4]).chain(n - 13..n).collect();
        if thorough {
            at.extend((0..n).step_by(7));
        }
        at.sort();
        at.dedup();
        v.extend(at.into_iter().map(cut));
    } else if path.starts_with("t/.hoodie/2") && [".commit", ".deltacommit", ".replacecommit"].iter().any(|e| path.ends_with(e)) {
        let Ok(whole) = serde_json::from_slice::<serde_json::Value>(b) else {
            return v;
        };
        v.extend((0..b.len()).filter(|i| thorough || *i < 2 || b"{}[],:".contains(&b[*i]) || *i + 2 > b.len()).map(cut));
        let mut pointers = vec![];
        fn walk(v: &serde_json::Value, at: String, out: &mut Vec<String>) {
            match v {
                serde_json::Value::Object(m) => m.iter().for_each(|(k, x)| walk(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
                serde_json::Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| walk(x, format!("{at}/{k}"), out)),
                _ => {}
            }
            out.push(at);
        }
        walk(&whole, String::new(), &mut pointers);
        for p in pointers {
            let old = whole.pointer(&p).unwrap();
            for x in [json!(5), json!(true), json!("zz"), json!([]), json!({}), json!([[5]]), json!({"zz": 5})] {
                if std::mem::discriminant(&x) != std::mem::discriminant(old) {
                    let mut d = whole.clone();
                    *d.pointer_mut(&p).unwrap() = x.clone();
                    v.push((format!("{} is {x}", if p.is_empty() { "the whole" } else { &p }), d.to_string().into()));
                }
            }
        }
    }
    v
}

/// Queries of tables with one damaged file, and of the same handle once the file is whole again.
fn damage(rep: &Arc<Report>) {
    let mut cases = vec![];
    let mut worlds: BTreeMap<String, World> = Default::default();
    for w in tables(true).into_iter().chain(reached(if rep.thorough { 2 } else { 1 })) {
        worlds.entry(key(&w)).or_insert(w);
    }
    let mut files = 0;
    for w in worlds.values() {
        for (path, b) in w.mounted() {
            let d = damaged(&path, &b, rep.thorough);
            files += !d.is_empty() as usize;
            if !d.is_empty() {
                cases.push((w.clone(), path, d));
            }
        }
    }
    rep.note(&format!(
        "{files} files of {} tables damaged in {} ways: commit metadata cut short at every {}, and with each value replaced by values of other types; base files without their end; every query on each, and again on the same handle after the file is restored",
        worlds.len(),
        cases.iter().map(|c| c.2.len()).sum::<usize>(),
        if rep.thorough { "byte" } else { "bracket, comma and colon" },
    ));
    let rep2 = rep.clone();
    pool(rep, cases, 60, |(w, p, _)| format!("{}: damaged {p}", key(w)), move |(w, path, ways)| {
        let mut qs = queries(w);
        qs.extend([Q::Splits, Q::OneByOne, Q::AvroSchema, Q::PartSchema]);
        if let Some(Q::Inc(s, e)) = qs.iter().find(|q| matches!(q, Q::Inc(..))).cloned() {
            qs.push(Q::Between(s, e));
        }
        let wants: Vec<_> = qs.iter().map(|q| q.want(w)).collect();
        for (how, content) in ways {
            for (qq, want) in qs.iter().zip(&wants) {
                let label = format!("{}: {} with {path} damaged: {how}", key(w), qq.show());
                beat(&rep2, || label.clone());
                let m = Mounted::new(w.mounted());
                let whole = m.0.inner.lock().unwrap().files.insert(path.clone(), content.clone()).unwrap();
                let mut opened = false;
                let r = q(async {
                    let first = open(&m.url()).await;
                    opened = first.is_ok();
                    let a = match &first {
                        Ok(t) => Some(qq.ask(t).await),
                        Err(_) => None,
                    };
                    m.0.inner.lock().unwrap().files.insert(path.clone(), whole.clone());
                    let t = match first {
                        Ok(t) => t,
                        Err(_) => open(&m.url()).await?,
                    };
                    Ok((a, qq.ask(&t).await))
                });
                let told = !opened || matches!(&r, Ok((Some(Err(_)), _)));
                rep2.evalv(told, &label);
                rep2.count(if told { "damage_reported_as_errors" } else { "damage_without_effect" }, 1);
                if rep2.wants(&label) {
                    let bad = |x: String| rep2.violation(format!("{label}: {x}"), label.clone());
                    match &r {
                        Err(x) => bad(x.clone()),
                        Ok((a, b)) => {
                            match a {
                                Some(Ok(g)) if g != want => bad(format!("no error, but a wrong answer: expected {want:#?}, got {g:#?}")),
                                Some(Err(x)) if x.starts_with("PANIC") => bad(x.clone()),
                                _ => {}
                            }
                            if b.as_ref() != Ok(want) {
                                bad(format!("after the file is restored: expected {want:#?}, got {b:#?}"));
                            }
                        }
                    }
                }
            }
        }
    });
}

pub fn c07(rep: &Arc<Report>) {
    damage(rep);
    let mut cases = vec![];
    let depth = if rep.thorough { 3 } else { 2 };
    let all = tables(true).into_iter().map(|w| (w, true)).chain(reached(depth).into_iter().map(|w| (w, false)));
    let mut tables = std::collections::BTreeSet::new();
    for (w, twice) in all {
        if !tables.insert(key(&w)) {
            continue;
        }
        let mut all = queries(&w);
        all.extend([Q::Splits, Q::OneByOne, Q::AvroSchema, Q::PartSchema]);
        if let Q::AsOf(t) = &all[all.iter().position(|q| matches!(q, Q::AsOf(_))).unwrap()] {
            all.push(Q::SlicesAsOf(t.clone()));
        }
        if let Some(Q::Inc(s, e)) = all.iter().find(|q| matches!(q, Q::Inc(..))).cloned() {
            all.push(Q::Between(s, e));
            all.push(Q::Between("19700101000000000".into(), None));
        }
        for q in all {
            for f in [Fault::Error, Fault::Body, Fault::Gone, Fault::Lasting] {
                cases.push((w.clone(), q.clone(), f, twice));
            }
        }
    }
    rep.note(&format!(
        "{} tables: chosen ones, and all that up to {depth} operations lead to; {} cases (table, query, kind of fault), each with the fault at every storage request from opening the table on; for the chosen tables also with a second one at every request of the retry",
        tables.len(),
        cases.len(),
    ));
    let rep2 = rep.clone();
    pool(
        rep,
        cases,
        60,
        |(w, q, f, _)| format!("{}: {} {f:?}", key(w), q.show()),
        move |(w, qq, f, twice)| {
            let want = qq.want(w);
            let label = format!("{}: {} {f:?}", key(w), qq.show());
            for k in 0.. {
                let second: Vec<Option<usize>> = if *twice {
                    std::iter::once(None).chain((0..40).map(Some)).collect()
                } else {
                    vec![None]
                };
                let mut hit = false;
                for j in second {
                    let key = format!("{label} @ {k} {j:?}");
                    beat(&rep2, || key.clone());
                    let m = Mounted::new(w.mounted());
                    m.0.inner.lock().unwrap().fault_at = Some((k, *f));
                    let mut where_ = None;
                    let mut again = false;
                    let r = q(async {
                        let first = open(&m.url()).await;
                        let t = match first {
                            Ok(t) => t,
                            Err(_) => {
                                // opening reported the fault; a new attempt must succeed
                                where_ = m.0.inner.lock().unwrap().fault_hit.take();
                                m.0.inner.lock().unwrap().fault_at = None;
                                let t = open(&m.url())
                                    .await
                                    .map_err(|e| format!("reopening fails: {e}"))?;
                                return Ok((None, qq.ask(&t).await));
                            }
                        };
                        let a = qq.ask(&t).await;
                        {
                            let mut g = m.0.inner.lock().unwrap();
                            where_ = g.fault_hit.take();
                            let at = g.ops;
                            g.fault_at = j.map(|j| (at + j, *f));
                        }
                        if j.is_some() {
                            let a2 = qq.ask(&t).await;
                            let hit2 = m.0.inner.lock().unwrap().fault_hit.take();
                            again = hit2.is_some();
                            m.0.inner.lock().unwrap().fault_at = None;
                            if let Ok(g) = &a2 {
                                if *g != want {
                                    return Err(format!(
                                        "retry with the fault at {hit2:?}: {g:#?}"
                                    ));
                                }
                            }
                        }
                        let b = qq.ask(&t).await;
                        Ok((Some(a), b))
                    });
                    rep2.evalv(where_.is_some(), &key);
                    hit |= where_.is_some();
                    if rep2.wants(&key) {
                        let at = where_.clone().unwrap_or_default();
                        let bad = |how: String| {
                            rep2.violation(
                                format!("{label}, fault at request {k} ({at}): {how}"),
                                key.clone(),
                            )
                        };
                        match r {
                            Err(x) => bad(x),
                            Ok((a, b)) => {
                                if let Some(Ok(g)) = &a {
                                    if *g != want {
                                        bad(format!("no error, but a wrong answer: expected {want:#?}, got {g:#?}"));
                                    }
                                }
                                if b.as_ref() != Ok(&want) {
                                    bad(format!(
                                        "after the fault is gone: expected {want:#?}, got {b:#?}"
                                    ));
                                }
                                if let (Some(Err(x)), true) = (&a, where_.is_some()) {
                                    rep2.count("faults_reported_as_errors", 1);
                                    if x.starts_with("PANIC") {
                                        bad(x.clone());
                                    }
                                }
                            }
                        }
                        if k == 3 {
                            rep2.sample(json!({"case": label, "fault at": at}));
                        }
                    }
                    if j.is_some() && !again {
                        break;
                    }
                }
                if !hit {
                    break;
                }
            }
        },
    );
}
