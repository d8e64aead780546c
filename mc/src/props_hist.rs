//! The properties decided in every state of the table histories: C01 to C04, C17 to C20.
use crate::fmt::Row;
use crate::hist::*;
use crate::q::*;
use crate::report::Report;
use crate::store::Mounted;
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub struct Ck<'a> {
    pub rep: &'a Report,
    pub key: String,
    salt: u64,
}

fn diff(want: &[String], got: &[String]) -> String {
    let count = |v: &[String], x: &String| v.iter().filter(|y| *y == x).count();
    let all: BTreeSet<&String> = want.iter().chain(got).collect();
    let mut s = String::new();
    for x in all {
        let (a, b) = (count(want, x), count(got, x));
        if a > b {
            s.push_str(&format!("\n    missing {}x {x}", a - b));
        } else if b > a {
            s.push_str(&format!("\n    unexpected {}x {x}", b - a));
        }
    }
    s
}

impl<'a> Ck<'a> {
    pub fn new(rep: &'a Report, w: &World) -> Self {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for (k, b) in &w.files {
            (k, b.len()).hash(&mut h);
        }
        Ck {
            rep,
            key: key(w),
            salt: h.finish(),
        }
    }
    pub fn eq(&self, what: &str, got: Rows, want: &[String]) -> bool {
        self.rep.evalv(!want.is_empty(), (self.salt, what, want));
        match got {
            Ok(g) if g == want => true,
            Ok(g) => {
                self.bad(
                    what,
                    &format!(
                        "{} rows expected, {} read{}",
                        want.len(),
                        g.len(),
                        diff(want, &g)
                    ),
                );
                false
            }
            Err(e) => {
                self.bad(
                    what,
                    &format!("{} rows expected, got error: {e}", want.len()),
                );
                false
            }
        }
    }
    pub fn is<T: PartialEq + std::fmt::Debug + std::hash::Hash>(
        &self,
        what: &str,
        got: T,
        want: T,
    ) -> bool {
        self.rep.evalv(true, (self.salt, what, &want));
        if got == want {
            return true;
        }
        self.bad(what, &format!("expected {want:?}, got {got:?}"));
        false
    }
    pub fn bad(&self, what: &str, how: &str) {
        self.rep
            .violation(format!("[{}] {what}: {how}", self.key), self.key.clone());
    }
}

/// Partition filters, and what they leave of the rows.
const FILTERS: [(&str, &str); 3] = [("=", "a"), ("!=", "a"), (">", "a")];

async fn filtered(c: &Ck<'_>, w: &World, t: &hudi_core::table::Table, what: &str, ts: Option<&str>, all: &[Row], n: usize) {
    if !w.cfg.partitioned || w.cfg.parts.iter().any(|p| p.0.contains('/')) {
        return;
    }
    for (op, v) in &FILTERS[..n] {
        let mut want = all.to_vec();
        want.retain(|r| match *op {
            "=" => r.part == *v,
            "!=" => r.part != *v,
            _ => r.part.as_str() > *v,
        });
        let f = [("part", *op, *v)];
        let got = match ts {
            None => t.read_snapshot(&f).await,
            Some(ts) => t.read_snapshot_as_of(ts, &f).await,
        };
        c.eq(&format!("{what} where part {op} {v}"), rows(got), &w.shown(&want));
    }
}

fn cfgs() -> Vec<(Cfg, &'static str)> {
    let c = Cfg::cow(2);
    let m = Cfg::mor(2);
    vec![
        (Cfg { upgrade: 2, ..Cfg::nonpart(false) }, "cow1"),
        (Cfg { upgrade: 2, ..Cfg::nonpart(true) }, "mor1"),
        (c.clone(), "cow"),
        (m.clone(), "mor"),
        (Cfg::nonpart(false), "cow1"),
        (Cfg::nonpart(true), "mor1"),
        (
            Cfg {
                hive: false,
                ts14: true,
                bulk: 2,
                row_group: 1,
                parts: vec![("a".into(), "a".into()), ("b".into(), "b".into())],
                ..c.clone()
            },
            "cow",
        ),
        (
            Cfg {
                avro_log: false,
                ts14: true,
                ..m.clone()
            },
            "mor",
        ),
        (
            Cfg {
                same_ids: true,
                ..c.clone()
            },
            "cow",
        ),
        (
            Cfg {
                same_ids: true,
                ..m.clone()
            },
            "mor",
        ),
        (
            Cfg {
                parts: vec![
                    ("x/1".into(), "a".into()),
                    ("x/2".into(), "b".into()),
                    ("y/1".into(), "c".into()),
                ],
                ..c.clone()
            },
            "cow",
        ),
    ]
}

/// Tables with many commits, file groups, file slices, log files, partitions, rows or row groups, each along one
/// history. `n` is the largest number of commits.
fn sizes(n: usize, rows: bool) -> Vec<Space> {
    let some: Vec<usize> = [5, 8, 9, 10, 11, 12, 16, 17, 18, 32, 33, 34, 40, 41, 64, 65, 66, 80]
        .into_iter()
        .filter(|x| *x <= n)
        .collect();
    let st: &[usize] = if n > 20 { &some } else { &some[some.len() - 3..] };
    let all = |p: usize| (0..p).map(|i| format!("Ins{i}")).collect::<Vec<_>>().join(" ");
    let half = n / 2;
    let mut v = vec![
        Space::chain(Cfg::cow(1), &format!("(Ins0)*{n}"), st),
        Space::chain(Cfg::cow(1), &format!("Ins0 (Ups0)*{n}"), st),
        Space::chain(Cfg::mor(1), &format!("Ins0 (Ups0)*{n}"), st),
        Space::chain(Cfg { avro_log: false, ..Cfg::mor(1) }, "Ins0 (Ups0)*12", &[11, 12, 13]),
        Space::chain(Cfg::cow(n), &all(n), st),
        Space::chain(Cfg { same_ids: true, ..Cfg::cow(n) }, &format!("{} UpsAll", all(n)), &[n, n + 1]),
        Space::chain(Cfg::cow(2), &format!("Ins1 (Ins0 Ow0)*{half}"), st),
        Space::chain(Cfg::mor(1), &format!("Ins0 (Ups0 Comp)*{half}"), st),
        Space::chain(Cfg::nonpart(false), &format!("(Ins0 Clus0)*{half}"), st),
        Space::chain(Cfg::mor(12), &format!("{} (UpsAll)*3 Comp UpsAll", all(12)), &[11, 12, 15, 17]),
        Space::chain(Cfg::cow(2), &format!("(Ins0)*{half} Ow0 (Ins0)*{half} DelP0 Ins1"), &[half, half + 1, 2 * half + 1, 2 * half + 2, 2 * half + 3]),
    ];
    if rows {
        for bulk in [2, 1023, 1024, 1025, 2049] {
            for row_group in [0, 1, 1000, 1024] {
                if row_group == 1 && bulk > 2 || row_group > bulk {
                    continue;
                }
                let c = |c: Cfg| Cfg { bulk, row_group, ..c };
                v.push(Space::chain(c(Cfg::cow(1)), "Ins0 Ups0 Ins0 Clus0", &[1, 2, 4]));
                v.push(Space::chain(c(Cfg::mor(1)), "Ins0 Ups0 Ups0 Comp Ups0", &[1, 3, 4, 5]));
            }
        }
    }
    v
}

/// The spaces of committed histories.
pub fn committed(thorough: bool) -> Vec<Space> {
    let d = usize::from(thorough);
    cfgs()
        .into_iter()
        .map(|(c, kind)| {
            let (o, n) = match kind {
                "cow" => (
                    "Ins0 Ups0 Ins1 Del0 Ow0 DelP0 Clus0 UpsAll Empty Clean Arch",
                    4 + d,
                ),
                "cow1" => ("Ins0 Ups0 Del0 Ow0 Clus0 DelP0 Empty Clean Arch", 5 + d),
                "mor" => (
                    "Ins0 Ups0 Ins1 Ow0 Clus0 UpsAll Comp Late0 Clean Arch",
                    4 + d,
                ),
                _ => (
                    "Ins0 Ups0 Ow0 Clus0 DelP0 Late0 Comp Empty Clean Arch",
                    5 + d,
                ),
            };
            Space::new(c, o, n)
        })
        .collect()
}

/// The same with partitions whose folders are named like files of a table.
fn like_files(c: Cfg) -> Cfg {
    let parts = ["a.parquet", "b.log.1_0-1-1", "20240101000000000.commit"];
    Cfg {
        parts: parts.iter().take(c.parts.len()).map(|v| (format!("part={v}"), v.to_string())).collect(),
        ..c
    }
}

pub fn c01(rep: &Arc<Report>) {
    let mut spaces = committed(rep.thorough);
    spaces.push(Space::new(
        Cfg {
            meta_fields: false,
            ..Cfg::cow(2)
        },
        "Ins0 Ups0 Ins1 Del0 Ow0 DelP0 Clus0 Clean",
        4,
    ));
    spaces.extend(sizes(if rep.thorough { 80 } else { 41 }, true));
    // every commit writes with another column
    let ev = |c: Cfg| Cfg { evolve: true, ..c };
    let d = usize::from(rep.thorough);
    spaces.push(Space::new(ev(Cfg::cow(2)), "Ins0 Ups0 Ins1 Ow0 Clus0 UpsAll", 4 + d));
    spaces.push(Space::new(ev(Cfg::mor(2)), "Ins0 Ups0 Ins1 UpsAll Comp Late0 Clus0", 4 + d));
    spaces.push(Space::new(ev(Cfg { avro_log: false, ..Cfg::mor(1) }), "Ins0 Ups0 Comp Late0 Empty", 5 + d));
    // the type of a column is promoted from commit to commit
    let pr = |c: Cfg| Cfg { promote: true, ..c };
    spaces.push(Space::new(pr(Cfg::mor(1)), "Ins0 Ups0 Comp Clus0 UpsAll", 5 + d));
    spaces.push(Space::new(pr(Cfg { avro_log: false, ..Cfg::mor(1) }), "Ins0 Ups0 Comp", 6 + d));
    spaces.push(Space::new(pr(Cfg::cow(2)), "Ins0 Ups0 Ins1 Clus0", 4 + d));
    spaces.push(Space::new(like_files(Cfg::cow(3)), "Ins0 Ins1 Ins2 Ups0 Ow0 Clus0", 4));
    spaces.push(Space::new(like_files(Cfg::mor(3)), "Ins0 Ins1 Ins2 UpsAll Comp Clus0", 4));
    // rows of several operations in one file group
    spaces.push(Space::new(
        Cfg::mor(1),
        "Ins0 Ups0 Late0 Comp Clean",
        7 + usize::from(rep.thorough),
    ));
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let want = w.shown(&w.snap());
        let m = Mounted::new(w.mounted());
        let r = q(async {
            let t = open(&m.url()).await?;
            c.eq("snapshot", snap(&t).await, &want);
            c.eq("snapshot, again on the same handle", snap(&t).await, &want);
            filtered(&c, w, &t, "snapshot", None, &w.snap(), 3).await;
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            c.eq(
                "the listed file slices, read one by one",
                read_slices(&t, &s, &[]).await,
                &want,
            );
            let mut got: Vec<String> = s
                .iter()
                .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
                .collect();
            got.sort();
            c.is("file slices", got, w.live_slices());
            if w.cfg.evolve || w.cfg.promote {
                evolved(&c, w, &t, &s).await?;
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("snapshot", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(
                serde_json::json!({"table": w.cfg.show(), "history": w.trace, "snapshot": want}),
            );
        }
    });
}

/// Each row of a file slice has the column that its latest version was written with, and its value.
async fn evolved(c: &Ck<'_>, w: &World, t: &hudi_core::table::Table, slices: &[hudi_core::file_group::file_slice::FileSlice]) -> Result<(), String> {
    use arrow_array::cast::AsArray;
    use arrow_array::types::{Float32Type, Float64Type, Int32Type, Int64Type};
    use arrow_array::Array;
    use arrow_schema::DataType;
    let rd = t.create_file_group_reader_with_options([("x", "y")]).map_err(e)?;
    for s in slices {
        let b = rd.read_file_slice(s).await.map_err(e)?;
        let col = |n: &str| b.column_by_name(n).cloned();
        let (Some(ct), Some(val)) = (col(crate::fmt::META[0]), col("val")) else {
            c.bad("columns", &format!("{:?}", b.schema()));
            continue;
        };
        let (ct, val) = (ct.as_string::<i32>().clone(), val.as_primitive::<Int64Type>().clone());
        for i in 0..b.num_rows() {
            let at = ct.value(i).max(s.creation_instant_time());
            let x = w.hist.iter().find(|h| h.ts == at).and_then(|h| h.column.clone()).unwrap();
            let got = col(crate::fmt::named(&x).0).filter(|a| a.is_valid(i)).map(|a| match a.data_type() {
                DataType::Int32 => a.as_primitive::<Int32Type>().value(i) as i64,
                DataType::Float32 => a.as_primitive::<Float32Type>().value(i) as i64,
                DataType::Float64 => a.as_primitive::<Float64Type>().value(i) as i64,
                _ => a.as_primitive::<Int64Type>().value(i),
            });
            c.is(&format!("{}: column {x} of the row of {}", slice_id(s), ct.value(i)), got, Some(val.value(i) + 1000));
        }
    }
    Ok(())
}

/// An instant next to another in time.
fn nudge(_: &World, ts: &str, d: i64) -> String {
    use chrono::NaiveDateTime;
    if ts.len() == 14 {
        let t = NaiveDateTime::parse_from_str(ts, "%Y%m%d%H%M%S").unwrap()
            + chrono::Duration::seconds(d);
        t.format("%Y%m%d%H%M%S").to_string()
    } else {
        let t = NaiveDateTime::parse_from_str(&ts[..14], "%Y%m%d%H%M%S").unwrap()
            + chrono::Duration::milliseconds(ts[14..].parse::<i64>().unwrap() + d);
        t.format("%Y%m%d%H%M%S%3f").to_string()
    }
}

/// Every instant worth asking about: each commit, just before and after it, before all and after all.
fn instants(w: &World) -> Vec<String> {
    let mut v = vec![];
    for h in &w.hist {
        for d in [-1, 0, 1] {
            v.push(nudge(w, &h.ts, d));
        }
        // in the other number of digits, the second before and after
        if h.ts.len() == 14 {
            v.push(format!("{}999", h.ts));
            v.push(format!("{}500", nudge(w, &h.ts, -1)));
        } else {
            v.push(nudge(w, &h.ts, -1000)[..14].to_string());
            v.push(nudge(w, &h.ts, 1000)[..14].to_string());
        }
    }
    v.push(
        if w.cfg.ts14 {
            "20200101000000"
        } else {
            "20200101000000000"
        }
        .into(),
    );
    v.push(
        if w.cfg.ts14 {
            "20991231235959"
        } else {
            "20991231235959999"
        }
        .into(),
    );
    v.sort();
    v.dedup();
    let low = w.hist.get(w.from).map(|h| h.ts.clone()).unwrap_or_default();
    if w.from > 0 || !w.archived.is_empty() {
        v.retain(|t| *t >= low);
    }
    v
}

pub fn c02(rep: &Arc<Report>) {
    let mut spaces = committed(rep.thorough);
    spaces.push(Space::new(
        Cfg::mor(1),
        "Ins0 Ups0 Comp Clus0 Clean",
        6 + usize::from(rep.thorough),
    ));
    spaces.push(Space::new(Cfg { evolve: true, ..Cfg::mor(1) }, "Ins0 Ups0 Comp UpsAll Clus0", 4 + usize::from(rep.thorough)));
    spaces.push(Space::new(Cfg { evolve: true, ..Cfg::cow(2) }, "Ins0 Ups0 Ins1 Ow0 Clus0", 4 + usize::from(rep.thorough)));
    spaces.push(Space::new(Cfg { promote: true, ..Cfg::mor(1) }, "Ins0 Ups0 Comp UpsAll Clus0", 4 + usize::from(rep.thorough)));
    spaces.push(Space::new(like_files(Cfg::mor(3)), "Ins0 Ins1 Ins2 UpsAll Comp", 4 + usize::from(rep.thorough)));
    spaces.extend(sizes(if rep.thorough { 40 } else { 12 }, rep.thorough));
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let ts = instants(w);
        let r = q(async {
            let t = open(&m.url()).await?;
            // later versions first, so that what a query leaves behind is newer than the next one asks for
            for ts in ts.iter().rev() {
                let want = w.shown(&w.as_of(ts));
                let what = format!("as of {ts}");
                c.eq(&what, as_of(&t, ts).await, &want);
                if w.hist.iter().any(|h| h.ts.len() != ts.len()) {
                    continue;
                }
                filtered(&c, w, &t, &what, Some(ts), &w.as_of(ts), 2).await;
                let s = t.get_file_slices_as_of(ts, &[]).await.map_err(e)?;
                let o = [("hoodie.read.file_group.end_timestamp", ts.as_str())];
                c.eq(
                    &format!("file slices as of {ts}"),
                    read_slices(&t, &s, &o).await,
                    &want,
                );
            }
            let t = open(&m.url()).await?;
            for ts in &ts {
                c.eq(
                    &format!("as of {ts}, from the oldest on"),
                    as_of(&t, ts).await,
                    &w.shown(&w.as_of(ts)),
                );
            }
            c.eq(
                "snapshot after time travel on the same handle",
                snap(&t).await,
                &w.shown(&w.snap()),
            );
            Ok(())
        });
        if let Err(x) = r {
            c.bad("time travel", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "asked": ts}));
        }
    });
}

/// Commits after which `(s, e]` starts, and with which it ends.
fn ranges(w: &World, fine: bool) -> Vec<(String, String)> {
    let all = instants(w);
    let exact: Vec<String> = all
        .iter()
        .filter(|t| {
            fine || w.hist.iter().any(|h| h.ts == **t) || *t == &all[0] || *t == all.last().unwrap()
        })
        .cloned()
        .collect();
    let low = w
        .archived
        .iter()
        .filter_map(|p| p.strip_prefix(".hoodie/")?.split('.').next())
        .max()
        .unwrap_or("");
    let mut v = vec![];
    for s in exact.iter().filter(|s| s.as_str() >= low) {
        for e in &exact {
            v.push((s.clone(), e.clone()));
        }
    }
    v
}

const AHEAD: &str = "incremental-over-log-files-ahead-of-compaction";

/// The incremental query over (s, e], including the one known way in which it fails.
async fn changes(c: &Ck<'_>, w: &World, t: &hudi_core::table::Table, s: &str, end: Option<&str>) {
    let e = end.unwrap_or(w.latest().unwrap_or(""));
    let want = if s >= e {
        vec![]
    } else {
        w.shown(&w.between(s, e))
    };
    let got = inc(t, s, end).await;
    if w.ahead.iter().any(|a| a.as_str() > s && a.as_str() <= e) {
        if let Err(x) = &got {
            if !x.starts_with("PANIC") {
                c.rep.known(AHEAD);
                return;
            }
        }
    }
    c.eq(&format!("changes in ({s}, {end:?}]"), got, &want);
}

pub fn c03(rep: &Arc<Report>) {
    let d = usize::from(rep.thorough);
    let mut spaces: Vec<Space> = committed(rep.thorough);
    spaces.push(Space::new(Cfg::mor(1), "Ins0 Ups0 Late0 Comp Clus0 Clean", 5 + d));
    spaces.push(Space::new(Cfg::mor(1), "Ins0 Ups0 Comp Clus0 Clean", 6 + d));
    spaces.push(Space::new(Cfg::cow(1), "Ins0 Ups0 Del0 Clus0 Clean", 6 + d));
    spaces.push(Space::new(Cfg::mor(1), "Ins0 Ups0 Comp!0 Fin", 6 + d));
    spaces.push(Space::new(Cfg { evolve: true, ..Cfg::mor(1) }, "Ins0 Ups0 Comp UpsAll Clus0", 4 + d));
    spaces.push(Space::new(Cfg { evolve: true, ..Cfg::cow(2) }, "Ins0 Ups0 Ins1 Ow0 Clus0", 4 + d));
    spaces.push(Space::new(Cfg { promote: true, ..Cfg::mor(1) }, "Ins0 Ups0 Comp UpsAll Clus0", 4 + d));
    spaces.push(Space::new(like_files(Cfg::mor(3)), "Ins0 Ins1 Ins2 UpsAll Comp", 4 + d));
    let fine = rep.thorough;
    spaces.extend(sizes(if rep.thorough { 33 } else { 12 }, true));
    explore(rep, spaces, 60, move |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let rs = ranges(w, fine || w.hist.len() <= 2);
        let r = q(async {
            let t = open(&m.url()).await?;
            if w.hist.is_empty() {
                c.eq(
                    "all changes of an empty table",
                    inc(&t, "20200101000000000", None).await,
                    &[],
                );
                return Ok(());
            }
            for (s, e) in &rs {
                changes(&c, w, &t, s, Some(e)).await;
                if *e == rs.last().unwrap().1 {
                    changes(&c, w, &t, s, None).await;
                }
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("incremental", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(
                serde_json::json!({"table": w.cfg.show(), "history": w.trace, "ranges": rs}),
            );
        }
    });
}

/// Histories with writes that crash at every point, are rolled back, or finish late.
fn crashing(thorough: bool) -> Vec<Space> {
    let d = usize::from(thorough);
    let m14 = Cfg {
        ts14: true,
        avro_log: false,
        ..Cfg::mor(1)
    };
    let mut v = vec![
        Space::new(
            Cfg::cow(2),
            "Ins0 Ups0 Ins1 Ow0 Ins0!0 Ups0!0 Ow0!0 UpsAll!0 Rb Zom Rb!0 Fin",
            4 + d,
        ),
        Space::new(
            Cfg::cow(1),
            "Ins0 Ups0 Clus0!0 DelP0!0 Del0!0 Empty!0 Clean Clean!0 Arch Arch!0 Rb",
            4 + d,
        ),
        Space::new(
            Cfg::mor(2),
            "Ins0 Ups0 Ins1 Ups0!0 UpsAll!0 Rb Zom Rb!0 Comp Fin",
            4 + d,
        ),
        Space::new(
            Cfg::mor(1),
            "Ins0 Ups0 Ups0!0 Comp Comp!0 Rb Fin Clean Clean!0 Arch!0",
            5 + d,
        ),
        Space::new(
            Cfg::nonpart(true),
            "Ins0 Ups0 Ups0!0 Comp!0 Clus0!0 Late0 Rb Zom Fin",
            5 + d,
        ),
        Space::new(
            Cfg::nonpart(false),
            "Ins0 Ups0 Ups0!0 Ins0!0 Clus0!0 Rb Zom Fin Arch",
            5 + d,
        ),
        Space::new(m14, "Ins0 Ups0 Ups0!0 Comp!0 Rb Zom Fin", 5 + d),
        Space::new(Cfg::cow(2), "Ins0 Ups0 Ins1!0 Ups0!0 Park Rb Fin", 5 + d),
        Space::new(Cfg::mor(1), "Ins0 Ups0 Comp!0 Ups0!0 Park Rb Fin", 6 + d),
        Space::new(Cfg::mor(1), "Ins0 Ups0 Comp!0 Ups0!0 Park Fin", 7 + d),
        Space::new(
            Cfg::mor(2),
            "Ins0 Ups0 InsL0!0 InsL1!0 Ow0 Clean Clean!0 Rb Zom",
            4 + d,
        ),
        Space::new(
            Cfg::mor(1),
            "Ins0 Ups0 Ins0!0 Ups0!0 Comp!0 Tear0 Tear1 Tear2 Tear3 Tear4 Rb Comp",
            4 + d,
        ),
        Space::new(
            Cfg {
                avro_log: false,
                ..Cfg::mor(1)
            },
            "Ins0 Ups0 Ups0!0 Tear0 Tear1 Tear2 Tear3 Tear4 Rb Comp",
            4 + d,
        ),
        Space::new(
            Cfg::cow(2),
            "Ins0 Ups0 Ins1!0 Ups0!0 Ow0!0 Tear0 Tear2 Tear3 Rb",
            4 + d,
        ),
    ];
    if thorough {
        v.push(Space::new(
            Cfg::mor(1),
            "Ins0 Ups0 Ups0!0 Comp Comp!0 Rb Fin",
            7,
        ));
    }
    v
}

/// A read fails over a log file that ends within a block of an unfinished write.
const TORN: &str = "torn-log-block";

/// The reads of a table with such a log file: wrong rows are a violation in any case.
fn torn(c: &Ck, w: &World, url: &str) {
    let eq = |what: &str, got: Rows, want: &[String]| match &got {
        Err(x) if !x.starts_with("PANIC") => c.rep.known(TORN),
        _ => {
            c.eq(what, got, want);
        }
    };
    let r = q(async {
        let t = open(url).await?;
        eq("snapshot", snap(&t).await, &w.shown(&w.snap()));
        let s = t.get_file_slices(&[]).await.map_err(e)?;
        let ro = ("hoodie.read.use.read_optimized.mode", "true");
        c.eq(
            "the base files of the listed file slices",
            read_slices(&t, &s, &[ro]).await,
            &w.shown(&w.base_snap()),
        );
        for h in w.hist.iter().skip(w.from) {
            let want = w.shown(&w.as_of(&h.ts));
            eq(&format!("as of {}", h.ts), as_of(&t, &h.ts).await, &want);
        }
        for (s, e) in ranges(w, false) {
            if s < e {
                let want = w.shown(&w.between(&s, &e));
                eq(&format!("changes in ({s}, {e}]"), inc(&t, &s, Some(&e)).await, &want);
            }
        }
        Ok(())
    });
    if let Err(x) = r {
        c.bad("table with a cut off log file", &x);
    }
}

pub fn c04(rep: &Arc<Report>) {
    explore(rep, crashing(rep.thorough), 60, |rep, w| {
        let c = Ck::new(rep, w);
        let want = w.shown(&w.snap());
        let m = Mounted::new(w.mounted());
        if w.torn.as_ref().is_some_and(|p| w.files.contains_key(p)) {
            return torn(&c, w, &m.url());
        }
        let mut ts: Vec<String> = w.hist.iter().skip(w.from).map(|h| h.ts.clone()).collect();
        let mut rs: Vec<(String, String)> = ranges(w, false);
        for f in w.failed.iter().chain(&w.parked) {
            // the instant of the unfinished write itself
            if w.hist.is_empty() {
                ts.push(f.ts.clone());
                ts.push(nudge(w, &f.ts, 1));
            } else if w.hist[0].ts < f.ts && w.archived.is_empty() && w.from == 0 {
                ts.push(f.ts.clone());
                ts.push(nudge(w, &f.ts, 1));
                rs.push((nudge(w, &f.ts, -1), f.ts.clone()));
                rs.push((w.hist[0].ts.clone(), f.ts.clone()));
                rs.push((f.ts.clone(), nudge(w, w.latest().unwrap(), 1)));
            }
        }
        rs.retain(|(s, e)| !w.ahead.iter().any(|a| a > s && a <= e));
        let r = q(async {
            let t = open(&m.url()).await?;
            c.is(
                "latest commit",
                t.get_timeline().get_latest_commit_timestamp().ok(),
                w.latest().map(|s| s.to_string()),
            );
            c.eq("snapshot", snap(&t).await, &want);
            filtered(&c, w, &t, "snapshot", None, &w.snap(), 2).await;
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            c.eq(
                "the listed file slices, read one by one",
                read_slices(&t, &s, &[]).await,
                &want,
            );
            let mut got: Vec<String> = s
                .iter()
                .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
                .collect();
            got.sort();
            c.is("file slices", got, w.live_slices());
            for ts in &ts {
                filtered(&c, w, &t, &format!("as of {ts}"), Some(ts), &w.as_of(ts), 1).await;
                c.eq(
                    &format!("as of {ts}"),
                    as_of(&t, ts).await,
                    &w.shown(&w.as_of(ts)),
                );
            }
            if !w.hist.is_empty() && !w.trace.iter().any(|o| o.starts_with("Late")) {
                for (s, e) in &rs {
                    changes(&c, w, &t, s, Some(e)).await;
                }
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("table with an unfinished write", &x);
        }
        if w.failed.is_some() && w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "files": w.files.keys().collect::<Vec<_>>()}));
        }
    });
}

/// Histories that replace file groups in every way.
fn replacing(thorough: bool) -> Vec<Space> {
    let d = 1 + usize::from(thorough);
    let same = |c: Cfg| Cfg {
        same_ids: true,
        ..c
    };
    let o = "Ins0 Ins1 Ups0 Ow0 Ow1 DelP0 Clus0 Clean Arch";
    vec![
        Space::new(same(Cfg::cow(2)), o, 4 + d),
        Space::new(Cfg::cow(3), "Ins0 Ins1 Ins2 Ow0 DelP1 Clus2 Ow0!0", 4 + d),
        Space::new(
            same(Cfg::mor(2)),
            "Ins0 Ins1 Ups0 Ow0 DelP0 Clus1 Comp",
            5 + d,
        ),
        Space::new(
            Cfg::nonpart(false),
            "Ins0 Ups0 Ow0 DelP0 Clus0 Clus0!0",
            5 + d,
        ),
        Space::new(
            Cfg {
                hive: false,
                parts: vec![("x/1".into(), "a".into()), ("y/1".into(), "b".into())],
                ..same(Cfg::cow(2))
            },
            "Ins0 Ins1 Ow0 DelP0 Clus1 Ups0",
            5,
        ),
    ]
}

pub fn c17(rep: &Arc<Report>) {
    let mut spaces = replacing(rep.thorough);
    spaces.extend(sizes(if rep.thorough { 40 } else { 18 }, false));
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let r = q(async {
            let t = open(&m.url()).await?;
            c.eq("snapshot", snap(&t).await, &w.shown(&w.snap()));
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            let mut got: Vec<String> = s
                .iter()
                .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
                .collect();
            got.sort();
            c.is("file slices", got, w.live_slices());
            let low = w.hist.get(w.from).map(|h| h.ts.clone()).unwrap_or_default();
            for h in &w.hist {
                if h.ts < low {
                    continue;
                }
                for d in [-1, 0] {
                    let ts = nudge(w, &h.ts, d);
                    if ts < low && w.from > 0 || !w.archived.is_empty() && ts < low {
                        continue;
                    }
                    let s = t.get_file_slices_as_of(&ts, &[]).await.map_err(e)?;
                    let mut got: Vec<String> = s
                        .iter()
                        .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
                        .collect();
                    got.sort();
                    c.is(&format!("file slices as of {ts}"), got, slices_at(w, &ts));
                    c.eq(
                        &format!("as of {ts}"),
                        as_of(&t, &ts).await,
                        &w.shown(&w.as_of(&ts)),
                    );
                }
            }
            if w.archived.is_empty() {
                let s = t.get_file_slices_between(None, None).await.map_err(e)?;
                let mut got: Vec<String> = s
                    .iter()
                    .map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name()))
                    .collect();
                got.sort();
                c.is(
                    "file slices changed since the beginning",
                    got,
                    w.live_slices(),
                );
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("replaced file groups", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "slices": w.live_slices()}));
        }
    });
}

/// The base files a reader uses as of `ts`.
pub fn slices_at(w: &World, ts: &str) -> Vec<String> {
    let mut v: Vec<String> = w
        .fgs
        .iter()
        .filter(|f| !f.replaced.as_ref().is_some_and(|r| r.as_str() <= ts))
        .filter_map(|f| {
            let s = f.slices.iter().rev().find(|s| s.ts.as_str() <= ts)?;
            Some(format!("{}/{}", w.cfg.parts[f.part].0, s.base))
        })
        .collect();
    v.sort();
    v
}

pub fn c18(rep: &Arc<Report>) {
    let d = usize::from(rep.thorough);
    let mut spaces = vec![
        Space::new(Cfg::cow(3), "Ins0 Ins1 Ins2 Ow0", 6 + d),
        Space::new(Cfg::nonpart(true), "Ins0 Ups0 Comp", 8 + d),
    ];
    spaces.extend(sizes(if rep.thorough { 130 } else { 80 }, false));
    explore(rep, spaces, 60, |rep, w| {
        if w.hist.is_empty() {
            let m = Mounted::new(w.mounted());
            let c = Ck::new(rep, w);
            let r = q(async {
                let t = open(&m.url()).await?;
                for n in [0, 1, 2] {
                    c.is(
                        "splits of an empty table",
                        t.get_file_slices_splits(n, &[]).await.map_err(e)?.len(),
                        0,
                    );
                }
                Ok(())
            });
            if let Err(x) = r {
                c.bad("splits", &x);
            }
            return;
        }
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let r = q(async {
            let t = open(&m.url()).await?;
            let part = [("part", "=", "a")];
            let mut asked: Vec<(String, &[(&str, &str, &str)])> = vec![(String::new(), &[])];
            if w.cfg.partitioned {
                asked.push((String::new(), &part));
            }
            for h in &w.hist {
                asked.push((h.ts.clone(), &[]));
            }
            for (ts, f) in asked {
                let all = if ts.is_empty() {
                    t.get_file_slices(f).await
                } else {
                    t.get_file_slices_as_of(&ts, f).await
                }
                .map_err(e)?;
                let mut want: Vec<String> = all.iter().map(slice_id).collect();
                want.sort();
                let len = want.len();
                for n in (0..=len + 2).chain([1000, usize::MAX]) {
                    let splits = if ts.is_empty() {
                        t.get_file_slices_splits(n, f).await
                    } else {
                        t.get_file_slices_splits_as_of(n, &ts, f).await
                    }
                    .map_err(e)?;
                    let what = format!(
                        "{n} splits of {len} slices{}",
                        if ts.is_empty() {
                            String::new()
                        } else {
                            format!(" as of {ts}")
                        }
                    );
                    let mut got: Vec<String> = splits.iter().flatten().map(slice_id).collect();
                    got.sort();
                    c.is(&format!("{what}: slices in the splits"), got, want.clone());
                    if splits.len() > n.max(1) {
                        c.bad(&what, &format!("{} splits", splits.len()));
                    }
                    if splits.iter().any(|s| s.is_empty()) {
                        c.bad(&what, "an empty split");
                    }
                    let widest = splits.iter().map(|s| s.len()).max().unwrap_or(0);
                    if widest > len.div_ceil(n.max(1)) {
                        c.bad(&what, &format!("a split of {widest} slices"));
                    }
                }
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("splits", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "slices": w.live_slices()}));
        }
    });
}

/// What a listing must say about the slice of a file group with this base file.
#[derive(Debug, PartialEq, Hash)]
struct Told {
    partition: String,
    id: String,
    created: String,
    base: String,
    size: usize,
    byte_size: i64,
    records: i64,
    populated: bool,
}

/// Size and rows of a Parquet file, from its own footer and by reading it.
fn facts(data: &bytes::Bytes) -> (i64, i64, String) {
    use parquet::file::reader::FileReader;
    let f = parquet::file::serialized_reader::SerializedFileReader::new(data.clone()).unwrap();
    let bytes = f.metadata().row_groups().iter().map(|g| g.columns().iter().map(|c| c.uncompressed_size()).sum::<i64>()).sum();
    let r = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(data.clone()).unwrap();
    let schema = show_schema(r.schema());
    let rows = r.build().unwrap().map(|b| b.unwrap().num_rows() as i64).sum();
    (rows, bytes, schema)
}

/// The listed slices against the files they name: those of `want` (file group, slice), with all log files
/// written after `from` up to `upto`, in the order of their versions, and no others than are there.
fn told(c: &Ck, w: &World, what: &str, got: &[hudi_core::file_group::file_slice::FileSlice], want: &[(usize, usize)], from: &str, upto: &str) {
    let mut left: Vec<&(usize, usize)> = want.iter().collect();
    for s in got {
        let name = s.base_file.file_name();
        let at = left.iter().position(|(f, i)| {
            let g = &w.fgs[*f];
            g.slices[*i].base == name && w.cfg.parts[g.part].0 == s.partition_path
        });
        let Some(at) = at else {
            c.bad(what, &format!("slice {} is none that belongs there, or is there twice", slice_id(s)));
            continue;
        };
        let (f, i) = *left.remove(at);
        let (g, sl) = (&w.fgs[f], &w.fgs[f].slices[i]);
        let dir = &w.cfg.parts[g.part].0;
        let path = if dir.is_empty() { name.clone() } else { format!("{dir}/{name}") };
        let data = &w.files[&path];
        let (rows, byte_size, _) = facts(data);
        if rows != sl.base_rows.len() as i64 {
            panic!("the writer's {path} has {rows} rows, {} in the model", sl.base_rows.len());
        }
        let m = s.base_file.file_metadata.clone().unwrap_or_default();
        c.is(
            &format!("{what}: {path}"),
            Told {
                partition: s.partition_path.clone(),
                id: s.file_id().into(),
                created: s.creation_instant_time().into(),
                base: m.name.clone(),
                size: m.size,
                byte_size: m.byte_size,
                records: m.num_records,
                populated: m.fully_populated,
            },
            Told {
                partition: dir.clone(),
                id: g.id.clone(),
                created: sl.ts.clone(),
                base: name.clone(),
                size: data.len(),
                byte_size,
                records: rows,
                populated: true,
            },
        );
        c.is(&format!("{what}: relative path of {name}"), s.base_file_relative_path().map_err(e), Ok(path));
        let there: Vec<String> = w.logs_on_storage(f, i).into_iter().map(|l| l.1).collect();
        let logs: Vec<String> = s
            .log_files
            .iter()
            .map(|l| s.log_file_relative_path(l).unwrap_or_else(|x| format!("{x:?}")))
            .collect();
        let mut sorted: Vec<&String> = there.iter().filter(|l| logs.contains(l)).collect();
        let written = |l: &str| w.instant(l.rsplit('-').nth(1).unwrap().parse().unwrap());
        for l in there.iter().filter(|l| !logs.contains(l)) {
            let t = written(l);
            if t.as_str() > from && t.as_str() <= upto {
                c.bad(what, &format!("log file {l} of {name} is missing from {logs:?}"));
                sorted.clear();
            }
        }
        c.is(&format!("{what}: log files of {name}"), logs.iter().collect::<Vec<_>>(), sorted);
    }
    for (f, i) in left {
        c.bad(what, &format!("the slice of {} is missing", w.fgs[*f].slices[*i].base));
    }
}

/// The slices (file group, slice) a reader uses as of `ts`.
fn at(w: &World, ts: &str) -> Vec<(usize, usize)> {
    w.fgs
        .iter()
        .enumerate()
        .filter(|(_, f)| !f.replaced.as_ref().is_some_and(|r| r.as_str() <= ts))
        .filter_map(|(n, f)| Some((n, f.slices.iter().rposition(|s| s.ts.as_str() <= ts)?)))
        .collect()
}

/// The slices as of `e` of the groups in which a base or log file was written in (s, e].
fn touched(w: &World, s: &str, e: &str) -> Vec<(usize, usize)> {
    let mut v = at(w, e);
    let within = |t: &str| t > s && t <= e;
    v.retain(|(f, i)| {
        within(&w.fgs[*f].slices[*i].ts)
            || w.logs_on_storage(*f, *i)
                .iter()
                .any(|l| within(&w.instant(l.1.rsplit('-').nth(1).unwrap().parse().unwrap())))
    });
    v
}

/// Their base files.
pub fn changed(w: &World, s: &str, e: &str) -> Vec<String> {
    let mut v: Vec<String> = touched(w, s, e)
        .into_iter()
        .map(|(f, i)| format!("{}/{}", w.cfg.parts[w.fgs[f].part].0, w.fgs[f].slices[i].base))
        .collect();
    v.sort();
    v
}

pub fn c24(rep: &Arc<Report>) {
    let d = usize::from(rep.thorough);
    let mut spaces = vec![];
    for (i, c) in cfgs().into_iter().enumerate() {
        let c = c.0;
        let o = if c.mor {
            "Ins0 Ups0 UpsAll Comp Clus0 Ow0 Clean Arch"
        } else {
            "Ins0 Ups0 Del0 Ow0 Clus0 UpsAll Clean Arch"
        };
        spaces.push(Space::new(c, o, if i < 6 { 5 + d } else { 4 + d }));
    }
    spaces.push(Space::new(Cfg { bulk: 3, row_group: 2, ..Cfg::mor(2) }, "Ins0 Ins1 UpsAll Comp Clus0 Empty", 4 + d));
    spaces.push(Space::new(Cfg { meta_fields: false, ..Cfg::cow(2) }, "Ins0 Ups0 Del0 Ow0 Clus0", 4 + d));
    spaces.extend(sizes(if rep.thorough { 40 } else { 12 }, true));
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let r = q(async {
            let t = open(&m.url()).await?;
            let Some(last) = w.latest() else {
                c.is("slices of an empty table", t.get_file_slices(&[]).await.map_err(e)?.len(), 0);
                return Ok(());
            };
            let want = at(w, last);
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            told(&c, w, "file slices", &s, &want, "", last);
            let n = t.get_file_slices_splits(3, &[]).await.map_err(e)?;
            told(&c, w, "slices of 3 splits", &n.concat(), &want, "", last);
            let low = w.hist.get(w.from).map(|h| h.ts.clone()).unwrap_or_default();
            for h in w.hist.iter().filter(|h| h.ts >= low) {
                let what = format!("file slices as of {}", h.ts);
                let s = t.get_file_slices_as_of(&h.ts, &[]).await.map_err(e)?;
                told(&c, w, &what, &s, &at(w, &h.ts), "", &h.ts);
            }
            for (s, e1) in ranges(w, false) {
                if s >= e1 || e1 < low {
                    continue;
                }
                let got = t.get_file_slices_between(Some(&s), Some(&e1)).await.map_err(e)?;
                let want = touched(w, &s, &e1);
                told(&c, w, &format!("file slices between {s} and {e1}"), &got, &want, &s, &e1);
            }
            // the files themselves
            let st = crate::paths::storage(&m.url()).await?;
            for (f, i) in want {
                let dir = &w.cfg.parts[w.fgs[f].part].0;
                let name = &w.fgs[f].slices[i].base;
                let path = if dir.is_empty() { name.clone() } else { format!("{dir}/{name}") };
                let data = &w.files[&path];
                let (rows, byte_size, schema) = facts(data);
                let x = st.get_file_metadata(&path).await.map_err(e)?;
                c.is(
                    &format!("metadata of {path}"),
                    (x.name, x.size, x.byte_size, x.num_records, x.fully_populated),
                    (name.clone(), data.len(), byte_size, rows, true),
                );
                let x = st.get_parquet_file_metadata(&path).await.map_err(e)?;
                c.is(&format!("Parquet metadata of {path}"), x.row_groups().iter().map(|g| g.num_rows()).sum(), rows);
                let x = st.get_parquet_file_schema(&path).await.map_err(e)?;
                c.is(&format!("schema of {path}"), show_schema(&x), schema.clone());
                let x = st.get_parquet_file_data(&path).await.map_err(e)?;
                c.is(&format!("rows of {path}"), (x.num_rows() as i64, show_schema(&x.schema())), (rows, schema));
                let x = st.get_file_data(&path).await.map_err(e)?;
                c.is(&format!("bytes of {path}"), x == *data, true);
            }
            Ok(())
        });
        if let Err(x) = r {
            c.bad("file slices", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "slices": w.live_slices()}));
        }
    });
}

pub fn c20(rep: &Arc<Report>) {
    let d = usize::from(rep.thorough);
    let m = Cfg::mor(1);
    let mut spaces = vec![
        Space::new(m.clone(), "Ins0 Ups0 Late0 Comp Clus0 Ow0 Clean", 5 + d),
        Space::new(Cfg::mor(2), "Ins0 Ins1 Ups0 UpsAll Comp DelP0", 5 + d),
        Space::new(m.clone(), "Ins0 Ups0 Comp Ups0!0 Comp!0 Rb Fin", 5 + d),
        Space::new(Cfg::nonpart(false), "Ins0 Ups0 Del0 Clus0 Ow0", 4 + d),
        Space::new(
            Cfg {
                avro_log: false,
                ts14: true,
                ..m
            },
            "Ins0 Ups0 Comp Clus0",
            6 + d,
        ),
    ];
    spaces.extend(sizes(12, true));
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let ro = [("hoodie.read.use.read_optimized.mode", "true")];
        let r = q(async {
            let t = open_with(&m.url(), &ro).await?;
            let base = w.shown(&w.base_snap());
            c.eq("read-optimized snapshot", snap(&t).await, &base);
            filtered(&c, w, &t, "read-optimized snapshot", None, &w.base_snap(), 2).await;
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            c.eq(
                "the listed file slices, read one by one",
                read_slices(&t, &s, &[]).await,
                &base,
            );
            for h in w.hist.iter().skip(w.from) {
                c.eq(
                    &format!("read-optimized as of {}", h.ts),
                    as_of(&t, &h.ts).await,
                    &w.shown(&w.base_as_of(&h.ts)),
                );
                let what = format!("read-optimized as of {}", h.ts);
                filtered(&c, w, &t, &what, Some(&h.ts), &w.base_as_of(&h.ts), 2).await;
            }
            for (s, e) in ranges(w, false) {
                if w.hist.is_empty() || w.ahead.iter().any(|a| *a > s && *a <= e) {
                    continue;
                }
                let mut want = if s >= e { vec![] } else { w.base_as_of(&e) };
                want.retain(|r| r.ct > s && r.ct <= e);
                c.eq(
                    &format!("read-optimized changes in ({s}, {e}]"),
                    inc(&t, &s, Some(&e)).await,
                    &w.shown(&want),
                );
            }
            // the mode is a choice of the reader: the same table without it, and one reader with it
            let t = open_with(
                &m.url(),
                &[("hoodie.read.use.read_optimized.mode", "false")],
            )
            .await?;
            c.eq(
                "snapshot with the mode off",
                snap(&t).await,
                &w.shown(&w.snap()),
            );
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            c.eq(
                "file slices read by a read-optimized reader",
                read_slices(&t, &s, &ro).await,
                &base,
            );
            Ok(())
        });
        if let Err(x) = r {
            c.bad("read-optimized", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "base rows": w.shown(&w.base_snap())}));
        }
    });
}

/// Field names and types, in order.
fn show_schema(s: &arrow_schema::Schema) -> String {
    s.fields()
        .iter()
        .map(|f| {
            format!(
                "{}:{}{}",
                f.name(),
                f.data_type(),
                if f.is_nullable() { "?" } else { "" }
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn c19(rep: &Arc<Report>) {
    let d = 1 + usize::from(rep.thorough);
    let ev = |c: Cfg| Cfg { evolve: true, ..c };
    let mut spaces = vec![
        Space::new(
            ev(Cfg::cow(2)),
            "Ins0 Ins1 Ups0 UpsAll Ow0 DelP0 Clus0 Empty Clean Arch",
            4 + d,
        ),
        Space::new(
            ev(Cfg::cow(1)),
            "Ins0 Ups0 Ups0!0 Ins0!0 Ow0!0 Empty DelP0 Rb Fin",
            4 + d,
        ),
        Space::new(
            ev(Cfg::nonpart(false)),
            "Ins0 Ups0 Del0 Clus0 Empty DelP0 Arch",
            5,
        ),
        Space::new(
            Cfg::mor(2),
            "Ins0 Ins1 Ups0 UpsAll Ow0 DelP0 Clus0 Comp Empty Clean Arch",
            4 + d,
        ),
        Space::new(Cfg::mor(1), "Ins0 Ups0 Comp!0 Ups0!0 Empty Rb Fin", 5 + d),
        Space::new(ev(Cfg::mor(2)), "Ins0 Ins1 Ups0 UpsAll Del0 Ow0 DelP0 Clus0 Comp Empty", 4 + d),
        Space::new(ev(Cfg::mor(1)), "Ins0 Ups0 Comp Comp!0 Ups0!0 Rb Fin Empty", 5 + d),
    ];
    spaces.push(Space::new(ev(like_files(Cfg::mor(3))), "Ins0 Ins1 Ins2 Ups0 UpsAll Comp Clus0 Empty", 3 + d));
    spaces.push(Space::new(ev(like_files(Cfg::cow(3))), "Ins0 Ins1 Ins2 Ups0 UpsAll Clus0 Empty", 3 + d));
    spaces.extend(sizes(12, false).into_iter().map(|s| Space { cfg: ev(s.cfg.clone()), ..s }));
    // every ordered choice of partition columns
    let cols = ["part", "ord", "val", "id"];
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..cols.len() {
        let mut more = vec![];
        for l in &lists {
            for c in cols {
                if !l.contains(&c) {
                    more.push(l.iter().copied().chain([c]).collect::<Vec<_>>());
                }
            }
        }
        lists.extend(more);
        lists.sort();
        lists.dedup();
    }
    for l in lists {
        let mut c = Cfg::cow(1);
        c.extra
            .push(("hoodie.table.partition.fields".into(), l.join(",")));
        spaces.push(Space::new(c, "Ins0", 1));
    }
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let r = q(async {
            let t = open(&m.url()).await?;
            let Some(last) = w.hist.last() else {
                if t.get_schema().await.is_ok() {
                    c.bad("schema", "an empty table has one");
                }
                return Ok(());
            };
            let want = show_schema(&crate::fmt::schema_with(last.column.as_deref()));
            let got = t.get_schema().await.map_err(e)?;
            c.is("schema", show_schema(&got), want.clone());
            let again = t.get_schema().await.map_err(e)?;
            c.is("schema, again", show_schema(&again), want);
            c.is(
                "Avro schema",
                t.get_avro_schema().await.map_err(e)?,
                crate::fmt::user_schema(last.column.as_deref()),
            );
            let p = w
                .cfg
                .extra
                .iter()
                .find(|x| x.0 == "hoodie.table.partition.fields")
                .map(|x| x.1.clone());
            let p = p.unwrap_or(if w.cfg.partitioned {
                "part".into()
            } else {
                String::new()
            });
            let want: Vec<String> = p
                .split(',')
                .map(|s| s.trim())
                .filter(|s| !s.is_empty())
                .map(|s| {
                    format!(
                        "{s}:{}?",
                        if s == "id" || s == "part" {
                            "Utf8"
                        } else {
                            "Int64"
                        }
                    )
                })
                .collect();
            c.is(
                "partition schema",
                show_schema(&t.get_partition_schema().await.map_err(e)?),
                want.join(" "),
            );
            Ok(())
        });
        if let Err(x) = r {
            c.bad("schema", &x);
        }
        if w.trace.len() == 3 {
            rep.sample(serde_json::json!({"table": w.cfg.show(), "history": w.trace, "latest column": w.hist.last().map(|h| h.column.clone())}));
        }
    });
}
