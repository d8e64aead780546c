//! C15: timestamps in time zones. C16: the timeline as loaded from its folder.
use crate::fmt::*;
use crate::names::{instant_parts, is_ts};
use crate::q::*;
use crate::report::Report;
use crate::run::{guard, pool};
use crate::store::{Files, Mounted};
use bytes::Bytes;
use hudi_core::timeline::instant::{Action, Instant, State};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---------------------------------------------------------------- C16

/// A universe of file names; every subset of them is a timeline folder.
struct Universe {
    name: &'static str,
    always: Vec<String>,
    some: Vec<String>,
}

fn universes(thorough: bool) -> Vec<Universe> {
    let v = |x: &[&str]| -> Vec<String> { x.iter().map(|s| s.to_string()).collect() };
    let t = ["20240101000000000", "20240101000000001", "20240102030405006"];
    let mut u = vec![];
    // every state of three instants of different kinds, in every order of the kinds
    let kinds = ["commit", "deltacommit", "replacecommit"];
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let mut some = vec![];
        for (i, k) in p.iter().enumerate() {
            let k = kinds[*k];
            some.push(format!("{}.{k}", t[i]));
            some.push(format!("{}.{k}.requested", t[i]));
            some.push(if k == "commit" { format!("{}.inflight", t[i]) } else { format!("{}.{k}.inflight", t[i]) });
        }
        some.extend(v(&["20240101000000002.clean", "20240102030405007.rollback", "20240101000000000.compaction.requested"]));
        u.push(Universe { name: "states", always: vec![], some });
    }
    // many completed instants, over boundaries of the calendar and in both widths
    u.push(Universe {
        name: "many",
        always: vec![],
        some: v(&[
            "19700101000000000.commit",
            "19991231235959999.replacecommit",
            "20000101000000000.commit",
            "20231231235959.deltacommit",
            "20240229000000.commit",
            "20240229000000001.replacecommit",
            "20240229235959999.commit",
            "20240301000000.deltacommit",
            "20240301000000001.commit",
            "20241231235959999.replacecommit",
            "20250101000000000.commit",
            "99991231235959999.deltacommit",
        ]),
    });
    // files that are no completed commits
    u.push(Universe {
        name: "noise",
        always: v(&["20240101000000001.commit"]),
        some: v(&[
            "20240101000000002.commit.",
            "20240101000000002.commit.tmp",
            "20240101000000002.commit.crc",
            ".20240101000000002.commit.crc",
            "20240101000000002.Commit",
            "20240101.commit",
            "20240230000000000.commit",
            "2024010100000000é.commit",
            "20240101000000002_20240101000000003.commit",
            "20240101000000002.commit.inflight.tmp",
            "20240101000000002",
            "archived/20240101000000002.commit",
        ]),
    });
    u.push(Universe {
        name: "actions",
        always: v(&["20240101000000001.deltacommit", "20240101000000003.replacecommit"]),
        some: v(&[
            "20240101000000002.clean",
            "20240101000000002.clean.inflight",
            "20240101000000002.rollback",
            "20240101000000002.savepoint",
            "20240101000000001.savepoint",
            "20240101000000002.restore",
            "20240101000000002.compaction.requested",
            "20240101000000002.compaction.inflight",
            "20240101000000002.logcompaction",
            "20240101000000002.indexing",
            "20240101000000002.schemacommit",
            ".heartbeat/20240101000000002",
        ]),
    });
    if thorough {
        u.push(Universe {
            name: "mixture",
            always: vec![],
            some: v(&[
                "20240101000000000.commit",
                "20240101000000000.commit.requested",
                "20240101000000001.replacecommit",
                "20240101000000001.replacecommit.inflight",
                "20240101000000002.deltacommit",
                "20240101000000002.deltacommit.requested",
                "20240101000000003.inflight",
                "20240101000000003.commit.requested",
                "20240101000000004.rollback",
                "20240101000000004.rollback.inflight",
                "20240101000000005.commit",
                "20240101000000005.commit.crc",
                "20240101000000006.replacecommit",
                "20240101000000006.savepoint",
                "20240101000000007.deltacommit.inflight",
                ".aux/20240101000000008.commit",
            ]),
        });
    }
    u
}

/// What an instant's file holds: replacements are clustering or overwriting, by the parity of their name.
fn content(name: &str) -> String {
    let n = name.rsplit('/').next().unwrap();
    let h: u32 = n.bytes().take(17).map(|b| b as u32).sum();
    let op = match () {
        _ if n.contains("replacecommit") && h % 2 == 0 => "cluster",
        _ if n.contains("replacecommit") => "insert_overwrite",
        _ => "upsert",
    };
    json!({"partitionToWriteStats": {}, "compacted": false, "operationType": op, "partitionToReplaceFileIds": {},
        "extraMetadata": {"schema": format!("{{\"type\":\"record\",\"name\":\"r{h}\",\"fields\":[]}}")}, "of": name})
    .to_string()
}

type Seen = Vec<(String, String, String)>;
fn seen(v: &[Instant]) -> Result<Seen, String> {
    let mut out = vec![];
    for i in v {
        let d = Instant::parse_datetime(&i.timestamp, "utc").map_err(e)?.timestamp_millis();
        if i.epoch_millis != d {
            return Err(format!("{i:?} is at {d}"));
        }
        out.push((i.timestamp.clone(), i.action.as_ref().to_string(), format!("{:?}", i.state)));
    }
    Ok(out)
}

fn timeline_case(names: &[String], reverse: bool) -> Result<usize, String> {
    let mut f = Files::new();
    f.insert(".hoodie/hoodie.properties".into(), crate::world::properties(&crate::world::Cfg::mor(1)).into());
    for n in names {
        f.insert(format!(".hoodie/{n}"), Bytes::from(content(n)));
    }
    let s = Mounted::new(crate::mini::prefixed("t", f));
    s.0.inner.lock().unwrap().reverse_list = reverse;
    // the reference: by file name, in order of the time
    let mut want: BTreeMap<(String, usize), (Action, String)> = BTreeMap::new();
    for n in names {
        if let Ok(Some((ts, a, State::Completed))) = instant_parts(n) {
            let full = if ts.len() == 14 { format!("{ts}000") } else { ts.to_string() };
            want.insert((full, want.len()), (a, n.clone()));
        }
    }
    let want: Vec<(Action, String)> = want.into_values().collect();
    let pick = |f: &dyn Fn(&Action, &str) -> bool| -> Seen {
        want.iter()
            .filter(|(a, n)| f(a, n))
            .map(|(a, n)| (n.split('.').next().unwrap().to_string(), a.as_ref().to_string(), "Completed".to_string()))
            .collect()
    };
    let r = q(async {
        let t = open(&s.url()).await?;
        let tl = t.get_timeline();
        let mut out: Vec<(String, Seen, Seen)> = vec![];
        out.push(("loaded".into(), seen(&tl.completed_commits)?, pick(&|_, _| true)));
        for desc in [false, true] {
            let kinds: [(&str, Vec<Instant>, Seen); 4] = [
                ("commits", tl.get_completed_commits(desc).await.map_err(e)?, pick(&|a, _| *a == Action::Commit)),
                ("deltacommits", tl.get_completed_deltacommits(desc).await.map_err(e)?, pick(&|a, _| *a == Action::DeltaCommit)),
                ("replacecommits", tl.get_completed_replacecommits(desc).await.map_err(e)?, pick(&|a, _| *a == Action::ReplaceCommit)),
                (
                    "clustering",
                    tl.get_completed_clustering_commits(desc).await.map_err(e)?,
                    pick(&|a, n| *a == Action::ReplaceCommit && content(n).contains("\"cluster\"")),
                ),
            ];
            for (n, got, mut want) in kinds {
                if desc {
                    want.reverse();
                }
                out.push((format!("{n} desc={desc}"), seen(&got)?, want));
            }
        }
        for (n, got, want) in out {
            if got != want {
                return Err(format!("{n}: {got:?}, expected {want:?}"));
            }
        }
        for (i, (_, n)) in tl.completed_commits.iter().zip(&want) {
            let m = tl.get_instant_metadata_in_json(i).await.map_err(e)?;
            if m != content(n) {
                return Err(format!("metadata of {i:?}: {m}"));
            }
        }
        let last = tl.get_latest_commit_timestamp().ok();
        let w = want.last().map(|x| x.1.split('.').next().unwrap().to_string());
        if last != w {
            return Err(format!("latest commit {last:?}, expected {w:?}"));
        }
        if let Some((_, n)) = want.last() {
            let schema = tl.get_latest_avro_schema().await.map_err(e)?;
            let c: serde_json::Value = serde_json::from_str(&content(n)).unwrap();
            if Some(schema.as_str()) != c["extraMetadata"]["schema"].as_str() {
                return Err(format!("latest schema {schema}"));
            }
        }
        Ok(())
    });
    r?;
    Ok(want.len())
}

pub fn c16(rep: &Arc<Report>) {
    use std::sync::atomic::Ordering::Relaxed;
    let us = Arc::new(universes(rep.thorough));
    let mut tasks = vec![];
    for (i, u) in us.iter().enumerate() {
        let n = 1usize << u.some.len();
        for c in 0..n.div_ceil(256) {
            tasks.push((i, c * 256, n.min(c * 256 + 256)));
        }
    }
    let r = rep.clone();
    pool(rep, tasks, 120, |t| format!("{t:?}"), move |(i, a, b)| {
        let u = &us[*i];
        for bits in *a..*b {
            let mut names = u.always.clone();
            names.extend(u.some.iter().enumerate().filter(|(j, _)| bits >> j & 1 == 1).map(|x| x.1.clone()));
            for reverse in [false, true] {
                let key = format!("{} {i} {bits:x} {reverse}", u.name);
                if !r.wants(&key) {
                    continue;
                }
                r.states.fetch_add(1, Relaxed);
                r.transitions.fetch_add(names.len() as u64, Relaxed);
                match timeline_case(&names, reverse) {
                    Ok(n) => {
                        r.validated.fetch_add(1, Relaxed);
                        r.evalv(n > 1 || u.name == "noise" && names.len() > 1, &key);
                    }
                    Err(x) => {
                        r.evalv(true, &key);
                        r.violation(format!("{names:?}, listed in {} order: {x}", if reverse { "reverse" } else { "lexical" }), key);
                    }
                }
                if r.stop() {
                    return;
                }
            }
        }
    });
    rep.note("every subset of twelve files of the timeline folder in each of nine universes (thorough: ten, one of sixteen files): all states of three instants of each kind in each order, completed instants at boundaries of the calendar in both widths, stray files, and other actions; both listing orders; the loaded instants, the four listings in both directions, each instant's metadata, the latest commit and its schema");
}

// ---------------------------------------------------------------- C15

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    wday: i32,
    yday: i32,
    isdst: i32,
    gmtoff: i64,
    zone: usize,
}
extern "C" {
    fn localtime_r(t: *const i64, out: *mut Tm) -> *mut Tm;
    fn tzset();
}
fn local(t: i64) -> Tm {
    let mut tm = Tm::default();
    unsafe { localtime_r(&t, &mut tm) };
    tm
}
fn stamp(tm: &Tm) -> String {
    format!("{:04}{:02}{:02}{:02}{:02}{:02}", tm.year + 1900, tm.mon + 1, tm.mday, tm.hour, tm.min, tm.sec)
}
/// Days since the epoch of a civil date.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn utc(ts: &str) -> i64 {
    let n = |a: usize, b: usize| ts[a..b].parse::<i64>().unwrap();
    days(n(0, 4), n(4, 6), n(6, 8)) * 86400 + n(8, 10) * 3600 + n(10, 12) * 60 + n(12, 14)
}
fn millis(ts: &str, tz: &str) -> Result<Option<i64>, String> {
    let a = guard(|| Instant::parse_datetime(ts, tz).map(|d| d.timestamp_millis()).ok())?;
    let b = guard(|| Instant::try_from_file_name_and_timezone(&format!("{ts}.commit"), tz).ok())?;
    if b.as_ref().map(|i| i.epoch_millis) != a || b.is_some_and(|i| i.timestamp != ts) {
        return Err("the two ways to parse disagree".into());
    }
    Ok(a)
}

/// Seconds at which the zone's offset changes, by the C library.
fn transitions(from: i64, to: i64) -> Vec<i64> {
    let mut out = vec![];
    let mut t = from;
    while t < to {
        let n = t + 3600;
        if local(t).gmtoff != local(n).gmtoff {
            let (mut a, mut b) = (t, n);
            while b - a > 1 {
                let m = (a + b) / 2;
                if local(m).gmtoff == local(a).gmtoff {
                    a = m
                } else {
                    b = m
                }
            }
            out.push(b);
        }
        t = n;
    }
    out
}

/// The work of one zone, in a process of its own whose TZ is set. Prints what it finds.
pub fn zone(thorough: bool, only: Option<&str>) {
    unsafe { tzset() };
    let tz = std::env::var("TZ").unwrap_or_default();
    let (mut n, mut nontrivial) = (0u64, 0u64);
    let found = |key: String, what: String| println!("V\t{key}\t{what}");
    let years = if thorough { (1975, 2037) } else { (2008, 2030) };
    let (from, to) = (days(years.0, 1, 1) * 86400, days(years.1, 1, 1) * 86400);
    let tr = transitions(from, to);
    println!("T\t{}", tr.len());
    // the times that are looked at: around every transition and in the quiet
    let mut grids: Vec<Vec<i64>> = vec![];
    for t in &tr {
        let mut g = vec![];
        let step = if thorough { 300 } else { 1800 };
        let mut x = -5 * 3600;
        while x <= 5 * 3600 {
            g.push(t + x);
            g.push(t + x - 1);
            g.push(t + x + 1);
            x += step;
        }
        g.sort();
        g.dedup();
        grids.push(g);
    }
    grids.push((0..(to - from) / 86400).map(|d| from + d * 86400 + (d % 24) * 3600 + 17).collect());
    for (gi, g) in grids.iter().enumerate() {
        // local wall clock -> the instants it stands for
        let mut wall: BTreeMap<String, BTreeSet<i64>> = BTreeMap::new();
        for t in g {
            wall.entry(stamp(&local(*t))).or_default().insert(*t);
        }
        // a wall clock may stand for instants outside the grid
        let offs: BTreeSet<i64> = g.iter().map(|t| local(*t).gmtoff).collect();
        let mut walls: BTreeSet<String> = wall.keys().cloned().collect();
        // and the wall clock times of either offset that may not exist
        for t in g {
            for o in &offs {
                walls.insert(utc_stamp(t + o));
            }
        }
        let mut seq: Vec<(String, i64)> = vec![];
        for w in &walls {
            let means: BTreeSet<i64> = offs.iter().map(|o| utc(w) - o).filter(|t| stamp(&local(*t)) == *w).collect();
            for ms in ["", "000", "001", "999"] {
                let ts = format!("{w}{ms}");
                let key = format!("{tz} {ts}");
                if only.is_some_and(|o| o != key) {
                    continue;
                }
                n += 1;
                if gi < tr.len() {
                    nontrivial += 1;
                }
                let add = ms.parse::<i64>().unwrap_or(0);
                match millis(&ts, "local") {
                    Err(x) => found(key, x),
                    Ok(None) if means.is_empty() => {}
                    Ok(None) => found(key, "rejected, though the time exists in the zone".into()),
                    Ok(Some(v)) => {
                        if !means.is_empty() && !means.contains(&(v - add).div_euclid(1000)) || (v - add).rem_euclid(1000) != 0 {
                            found(key.clone(), format!("is taken as {v} ms, expected one of {means:?} s"));
                        }
                        if ms != "" && !means.is_empty() {
                            seq.push((ts.clone(), v));
                        }
                    }
                }
                match millis(&ts, "UTC") {
                    Ok(Some(v)) if v == utc(w) * 1000 + add => {}
                    x => found(format!("{tz} {ts}"), format!("in UTC is taken as {x:?}")),
                }
            }
        }
        seq.sort();
        for p in seq.windows(2) {
            n += 1;
            if p[0].1 > p[1].1 {
                found(format!("{tz} {}", p[1].0), format!("{:?} comes after {:?}", p[0], p[1]));
            }
        }
        // a table with a commit at each such time
        let existing: Vec<String> = wall.keys().cloned().collect();
        if gi < tr.len() && (thorough || gi + 4 > tr.len()) {
            let near: Vec<String> = existing.iter().filter(|w| {
                wall[*w].iter().any(|t| (t - tr[gi]).abs() <= 2 * 3600)
            }).cloned().collect();
            let pick: Vec<String> = near.iter().step_by(near.len().div_ceil(8).max(1)).cloned().collect();
            for wide in [true, false] {
                for zone in ["local", "LOCAL", "utc"] {
                    let key = format!("{tz} table {gi} {wide} {zone}");
                    if only.is_some_and(|o| o != key) {
                        continue;
                    }
                    n += 1;
                    nontrivial += 1;
                    let ts: Vec<String> = pick.iter().map(|w| if wide { format!("{w}500") } else { w.clone() }).collect();
                    if let Err(x) = table(&ts, zone)
                        .and_then(|_| log_table(&ts, zone, true))
                        .and_then(|_| log_table(&ts, zone, false))
                    {
                        found(key, format!("{ts:?}: {x}"));
                    }
                }
            }
        }
    }
    println!("N\t{n}\t{nontrivial}");
}
fn utc_stamp(t: i64) -> String {
    let (d, s) = (t.div_euclid(86400), t.rem_euclid(86400));
    // civil from days
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{y:04}{m:02}{day:02}{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60)
}

/// A table in the zone with a file group per commit: listings and queries between every two of them.
fn table_files(ts: &[String], zone: &str) -> Files {
    let mut f = Files::new();
    let mut p = crate::mini::base_props(false);
    p.push(("hoodie.table.timeline.timezone".into(), zone.into()));
    f.insert(".hoodie/hoodie.properties".into(), Bytes::from(crate::mini::props_text(&p)));
    for (i, t) in ts.iter().enumerate() {
        let id = format!("{i:08x}-0000-4000-8000-00000000abcd-0");
        let name = format!("{id}_0-1-{i}_{t}.parquet");
        let row = Row {
            key: format!("k{i}"),
            val: i as i64,
            ord: 1,
            part: "a".into(),
            ct: t.clone(),
            seq: format!("{t}_0_0"),
            ppath: "".into(),
            file: name.clone(),
        };
        f.insert(name.clone(), parquet(&[row], true));
        let c = json!({"partitionToWriteStats": {"": [{"fileId": id, "path": name, "prevCommit": "null"}]}, "compacted": false, "operationType": "INSERT", "extraMetadata": {}});
        f.insert(format!(".hoodie/{t}.commit"), Bytes::from(c.to_string()));
    }
    f
}
fn table(ts: &[String], zone: &str) -> Result<(), String> {
    let s = Mounted::new(crate::mini::prefixed("t", table_files(ts, zone)));
    s.0.inner.lock().unwrap().reverse_list = true;
    q(async {
        let t = open(&s.url()).await?;
        let got: Vec<String> = t.get_timeline().completed_commits.iter().map(|i| i.timestamp.clone()).collect();
        if got != ts {
            return Err(format!("timeline {got:?}"));
        }
        if t.timezone() != zone.to_ascii_lowercase() {
            return Err(format!("time zone {}", t.timezone()));
        }
        let all: Vec<i64> = (0..ts.len() as i64).collect();
        for (i, a) in ts.iter().enumerate() {
            let v = crate::mini::vals(&t.read_snapshot_as_of(a, &[]).await.map_err(e)?)?;
            if v != all[..=i] {
                return Err(format!("as of {a}: {v:?}"));
            }
            for (j, b) in ts.iter().enumerate() {
                if i > j {
                    continue;
                }
                let v = crate::mini::vals(&t.read_incremental_records(a, Some(b)).await.map_err(e)?)?;
                if v != all[i + 1..=j] {
                    return Err(format!("from {a} to {b}: {v:?}"));
                }
                let n = t.get_file_slices_between(Some(a), Some(b)).await.map_err(e)?.len();
                if n != j - i {
                    return Err(format!("slices from {a} to {b}: {n}"));
                }
            }
        }
        Ok(())
    })
}

/// A merge-on-read table in the zone: one record, changed in log blocks at each of the later times,
/// in log files of their own or all in one.
fn log_table(ts: &[String], zone: &str, one: bool) -> Result<(), String> {
    let mut f = Files::new();
    let mut p = crate::mini::base_props(true);
    p.push(("hoodie.table.timeline.timezone".into(), zone.into()));
    f.insert(".hoodie/hoodie.properties".into(), Bytes::from(crate::mini::props_text(&p)));
    let id = "00000000-0000-4000-8000-00000000abcd-0";
    let base = format!("{id}_0-1-0_{}.parquet", ts[0]);
    let row = |i: usize, file: &str| Row {
        key: "k".into(),
        val: i as i64,
        ord: i as i64,
        part: "a".into(),
        ct: ts[i].clone(),
        seq: format!("{}_0_0", ts[i]),
        ppath: "".into(),
        file: file.into(),
    };
    f.insert(base.clone(), parquet(&[row(0, &base)], true));
    let mut text: Vec<(String, Vec<u8>)> = vec![];
    for (i, t) in ts.iter().enumerate() {
        let stat = if i == 0 {
            json!({"fileId": id, "path": base, "prevCommit": "null"})
        } else {
            let log = format!(".{id}_{}.log.{}_0-1-1", ts[0], if one { 1 } else { i });
            let block = crate::fmt::data_block(t, &[row(i, &log)], true);
            match text.last_mut() {
                Some((n, b)) if *n == log => b.extend(block),
                _ => text.push((log.clone(), block)),
            }
            json!({"fileId": id, "path": log, "baseFile": base, "logFiles": [log], "prevCommit": ts[0]})
        };
        let c = json!({"partitionToWriteStats": {"": [stat]}, "compacted": false, "operationType": "UPSERT", "extraMetadata": {}});
        f.insert(format!(".hoodie/{t}.deltacommit"), Bytes::from(c.to_string()));
    }
    for (n, b) in text {
        f.insert(n, b.into());
    }
    let s = Mounted::new(crate::mini::prefixed("t", f));
    q(async {
        let t = open(&s.url()).await?;
        for (i, a) in ts.iter().enumerate() {
            let v = crate::mini::vals(&t.read_snapshot_as_of(a, &[]).await.map_err(e)?)?;
            if v != [i as i64] {
                return Err(format!("with logs, as of {a}: {v:?}"));
            }
            for (j, b) in ts.iter().enumerate().skip(i) {
                let v = crate::mini::vals(&t.read_incremental_records(a, Some(b)).await.map_err(e)?)?;
                let want: Vec<i64> = if j > i { vec![j as i64] } else { vec![] };
                if v != want {
                    return Err(format!("with logs, from {a} to {b}: {v:?}"));
                }
            }
        }
        let v = crate::mini::vals(&t.read_snapshot(&[]).await.map_err(e)?)?;
        if v != [ts.len() as i64 - 1] {
            return Err(format!("with logs: {v:?}"));
        }
        Ok(())
    })
}

const ZONES: &[&str] = &[
    "UTC",
    "America/New_York",
    "Europe/London",
    "Europe/Dublin",
    "Australia/Lord_Howe",
    "America/Santiago",
    "America/Havana",
    "America/Caracas",
    "Asia/Beirut",
    "Asia/Kolkata",
    "Asia/Kathmandu",
    "Asia/Pyongyang",
    "Pacific/Apia",
    "Pacific/Chatham",
    "Africa/Casablanca",
    "Antarctica/Troll",
    "America/St_Johns",
    "Asia/Tehran",
];

pub fn c15(rep: &Arc<Report>) {
    let exe = std::env::current_exe().unwrap();
    let zones: Vec<&'static str> = ZONES.iter().filter(|z| std::path::Path::new("/usr/share/zoneinfo").join(z).exists()).copied().collect();
    if zones.len() < ZONES.len() {
        rep.incomplete("some zones are not in the zone data here");
    }
    let r = rep.clone();
    pool(rep, zones, 800, |z| z.to_string(), move |z| {
        if r.only.as_ref().is_some_and(|o| !o.starts_with(&format!("{z} "))) {
            return;
        }
        let mut c = std::process::Command::new(&exe);
        c.arg("zone").arg(if r.thorough { "thorough" } else { "quick" }).env("TZ", z);
        if let Some(o) = &r.only {
            c.arg(o);
        }
        let out = c.output().expect("spawn");
        let text = String::from_utf8_lossy(&out.stdout);
        let mut done = false;
        for l in text.lines() {
            match l.split('\t').collect::<Vec<_>>()[..] {
                ["V", key, what] => r.violation(format!("{key}: {what}"), key),
                ["T", n] => r.count("transitions_of_zones", n.parse().unwrap()),
                ["N", n, m] => {
                    let (n, m): (u64, u64) = (n.parse().unwrap(), m.parse().unwrap());
                    for i in 0..n {
                        r.evalv(i < m, (z, i));
                    }
                    done = true;
                }
                _ => {}
            }
        }
        if !done {
            r.violation(format!("{z}: the process of the zone ended early: {} {}", out.status, String::from_utf8_lossy(&out.stderr)), format!("{z} "));
        }
    });
    // shapes of timestamps and of the setting
    let ts: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for base in ["20240102030405", "20240102030405006"] {
            v.push(base.into());
            for i in 0..base.len() {
                for x in ["", "a", " ", "-", "+", ".", "é", "٣", "０", ":", "T", "Z", "0", "9", "99"] {
                    v.push(format!("{}{x}{}", &base[..i], &base[i + 1..]));
                    v.push(format!("{}{x}{}", &base[..i], &base[i..]));
                }
                v.push(base[..i].into());
            }
        }
        v.extend(["2024-01-02", "2024-01-02 03:04:05", "2024-01-02T03:04:05Z", "1704164645006", "1704164645", "now", "", "0", "20240102"].map(String::from));
        v.sort();
        v.dedup();
        v
    };
    let zones = ["utc", "UTC", "Utc", "local", "LOCAL", "", " utc", "utc ", "gmt", "Z", "UTC+1", "+00:00", "Europe/London", "locale", "loc", "null"];
    for t in &ts {
        for z in zones {
            let key = format!("shape {t:?} {z:?}");
            if !rep.wants(&key) {
                continue;
            }
            rep.evalv(true, &key);
            let known = ["utc", "local"].contains(&z.to_ascii_lowercase().as_str());
            let want = if known { is_ts(t) } else { Some(false) };
            match (millis(t, z), want) {
                (Err(x), _) => rep.violation(format!("{key}: {x}"), key),
                (Ok(None), Some(true)) => rep.violation(format!("{key}: rejected"), key),
                (Ok(Some(v)), Some(false)) => rep.violation(format!("{key}: taken as {v}"), key),
                _ => {}
            }
        }
    }
    // the same for queries of a table
    let tt = ["20240101000000000", "20240102000000000", "20240103000000000"].map(String::from);
    for z in ["utc", "local"] {
        if let Err(x) = table(&tt, z)
            .and_then(|_| log_table(&tt, z, true))
            .and_then(|_| log_table(&tt, z, false))
        {
            rep.violation(format!("table in {z}: {x}"), format!("table {z}"));
        }
    }
    let s = Mounted::new(crate::mini::prefixed("t", table_files(&tt, "utc")));
    let r = rep.clone();
    let url = s.url();
    pool(rep, ts, 60, |t| t.clone(), move |t| {
        let key = format!("query {t:?}");
        if !r.wants(&key) || is_ts(t).is_none() {
            return;
        }
        r.evalv(true, &key);
        let ok = is_ts(t) == Some(true);
        let x = q(async {
            let tb = open(&url).await?;
            Ok([
                tb.read_incremental_records(t, None).await.is_ok(),
                tb.read_incremental_records("20240101000000000", Some(t)).await.is_ok(),
                tb.get_file_slices_between(Some(t), None).await.is_ok(),
                tb.get_file_slices_between(None, Some(t)).await.is_ok(),
                tb.read_snapshot_as_of(t, &[]).await.is_ok(),
                tb.get_file_slices_as_of(t, &[]).await.is_ok(),
                tb.get_file_slices_splits_as_of(2, t, &[]).await.is_ok(),
            ])
        });
        match x {
            Ok(v) if v == [ok; 7] => {}
            x => r.violation(format!("{key}: {x:?}"), key),
        }
    });
    drop(s);
    rep.note("18 time zones, one process each: every change of offset from 2008 to 2029 (thorough: 1975 to 2036), every half hour (thorough: five minutes) of the ten hours around it and a second to either side, every wall clock time of either offset, with no, 000, 001 and 999 milliseconds, in the zone and in UTC, against the C library; one time of every day; tables with eight commits around a change, as of and between every two; 900 shapes of timestamp times 16 settings");
}
