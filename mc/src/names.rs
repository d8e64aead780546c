//! C14: names of base files, log files and instants.
use crate::fmt::*;
use crate::q::*;
use crate::report::Report;
use crate::run::{guard, pool};
use crate::store::{Files, Mounted};
use bytes::Bytes;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use hudi_core::storage::file_metadata::FileMetadata;
use hudi_core::timeline::instant::{Action, Instant, State};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::str::FromStr;
use std::sync::Arc;

// ---- the reference grammar ----

fn is_id(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
}
/// A date and time that exists in the proleptic calendar, in 14 or 17 digits. None: may be either (second 60).
pub fn is_ts(s: &str) -> Option<bool> {
    if !(s.len() == 14 || s.len() == 17) || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Some(false);
    }
    let n = |a: usize, b: usize| s[a..b].parse::<u32>().unwrap();
    let (y, mo, d, h, mi, se) = (n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let day_ok = (1..=12).contains(&mo) && d >= 1 && d <= days[mo as usize - 1];
    if !day_ok || h > 23 || mi > 59 || se > 60 {
        return Some(false);
    }
    if se == 60 {
        None
    } else {
        Some(true)
    }
}
fn digits(s: &str) -> bool {
    (s.len() == 14 || s.len() == 17) && s.bytes().all(|b| b.is_ascii_digit())
}
/// id_token_ts.parquet
pub fn base_parts(n: &str) -> Option<[&str; 4]> {
    let (stem, ext) = n.rsplit_once('.')?;
    let p: Vec<&str> = stem.split('_').collect();
    (p.len() == 3 && is_id(p[0]) && is_id(p[1]) && digits(p[2]) && is_id(ext)).then(|| [p[0], p[1], p[2], ext])
}
/// .id_ts.log.version_token
pub fn log_parts(n: &str) -> Option<[&str; 5]> {
    let n = n.strip_prefix('.')?;
    let (id, rest) = n.split_once('_')?;
    let (mid, token) = rest.split_once('_')?;
    let m: Vec<&str> = mid.split('.').collect();
    (m.len() == 3
        && is_id(id)
        && digits(m[0])
        && is_id(m[1])
        && !m[2].is_empty()
        && m[2].len() < 10
        && m[2].bytes().all(|b| b.is_ascii_digit())
        && is_id(token))
    .then(|| [id, m[0], m[1], m[2], token])
}
/// The documented shape of a base or log file name, whatever is in its parts:
/// a log file may have any extension, version and token.
fn shape(n: &str) -> bool {
    let base = n.rsplit_once('.').is_some_and(|(s, x)| !x.is_empty() && s.split('_').count() == 3 && s.split('_').all(|p| !p.is_empty()));
    let log = || {
        let (id, rest) = n.strip_prefix('.')?.split_once('_')?;
        let (mid, token) = rest.rsplit_once('_')?;
        let m: Vec<&str> = mid.split('.').collect();
        Some(!id.is_empty() && !token.is_empty() && m.len() == 3 && m.iter().all(|p| !p.is_empty()))
    };
    base || log() == Some(true)
}
/// Some((ts, action, state)) if it must be an instant, Err(()) if it may be either.
pub fn instant_parts(n: &str) -> Result<Option<(&str, Action, State)>, ()> {
    use Action::*;
    use State::*;
    let Some((ts, rest)) = n.split_once('.') else { return Ok(None) };
    let (a, s) = match rest {
        "commit" => (Commit, Completed),
        "commit.requested" => (Commit, Requested),
        "inflight" => (Commit, Inflight),
        // not written by Hudi, but the meaning is plain
        "commit.inflight" => return Err(()),
        "deltacommit" => (DeltaCommit, Completed),
        "deltacommit.requested" => (DeltaCommit, Requested),
        "deltacommit.inflight" => (DeltaCommit, Inflight),
        "replacecommit" => (ReplaceCommit, Completed),
        "replacecommit.requested" => (ReplaceCommit, Requested),
        "replacecommit.inflight" => (ReplaceCommit, Inflight),
        _ => return Ok(None),
    };
    match is_ts(ts) {
        Some(true) => Ok(Some((ts, a, s))),
        Some(false) => Ok(None),
        None => Err(()),
    }
}

// ---- one name, all parsers ----

pub fn judge(name: &str) -> Result<(), String> {
    let g = |what: &str, r: Result<(), String>| r.map_err(|x| format!("{what}: {x}"));
    g("base file", guard(|| judge_base(name)).and_then(|x| x))?;
    g("log file", guard(|| judge_log(name)).and_then(|x| x))?;
    g("instant", guard(|| judge_instant(name)).and_then(|x| x))?;
    g("file group", guard(|| judge_group(name)).and_then(|x| x))
}

fn judge_base(name: &str) -> Result<(), String> {
    let a = BaseFile::from_str(name);
    let b = BaseFile::try_from(FileMetadata::new(name.to_string(), 7));
    if a.is_ok() != b.is_ok() {
        return Err("the two ways to parse disagree".into());
    }
    let want = base_parts(name);
    if want.is_some() && a.is_err() {
        return Err("rejected".into());
    }
    if a.is_ok() && !shape(name) {
        return Err(format!("accepted as {a:?}"));
    }
    for (f, meta) in [(a, false), (b, true)] {
        let Ok(f) = f else { continue };
        if f.file_name() != name {
            return Err(format!("comes back as {:?}", f.file_name()));
        }
        let got = [f.file_id.as_str(), &f.write_token, &f.commit_timestamp, &f.extension];
        if got.iter().any(|p| p.is_empty()) {
            return Err(format!("accepted with an empty part: {got:?}"));
        }
        if want.is_some_and(|w| w != got) {
            return Err(format!("parts {got:?}"));
        }
        match &f.file_metadata {
            None if !meta => {}
            Some(m) if meta && m.name == name && m.size == 7 => {}
            x => return Err(format!("file metadata {x:?}")),
        }
    }
    Ok(())
}
fn judge_log(name: &str) -> Result<(), String> {
    let a = LogFile::from_str(name);
    let b = LogFile::try_from(FileMetadata::new(name.to_string(), 7));
    if a.is_ok() != b.is_ok() {
        return Err("the two ways to parse disagree".into());
    }
    let want = log_parts(name);
    if want.is_some() && a.is_err() {
        return Err("rejected".into());
    }
    if a.is_ok() && !shape(name) {
        return Err(format!("accepted as {a:?}"));
    }
    for (f, meta) in [(a, false), (b, true)] {
        let Ok(f) = f else { continue };
        if f.file_name() != name {
            return Err(format!("comes back as {:?}", f.file_name()));
        }
        let got = [f.file_id.as_str(), &f.base_commit_timestamp, &f.extension, &f.version, &f.write_token];
        if got.iter().any(|p| p.is_empty()) {
            return Err(format!("accepted with an empty part: {got:?}"));
        }
        if want.is_some_and(|w| w != got) {
            return Err(format!("parts {got:?}"));
        }
        match &f.file_metadata {
            None if !meta => {}
            Some(m) if meta && m.name == name && m.size == 7 => {}
            x => return Err(format!("file metadata {x:?}")),
        }
    }
    Ok(())
}
fn judge_instant(name: &str) -> Result<(), String> {
    let r = Instant::from_str(name);
    for tz in ["UTC", "utc"] {
        let t = Instant::try_from_file_name_and_timezone(name, tz);
        if t.as_ref().ok() != r.as_ref().ok() {
            return Err(format!("{r:?} but with {tz} {t:?}"));
        }
    }
    match (instant_parts(name), r) {
        (Ok(None), Ok(i)) => Err(format!("accepted as {i:?}")),
        (Ok(Some(_)), Err(x)) => Err(format!("rejected: {x}")),
        (Ok(Some((ts, a, s))), Ok(i)) => {
            if (i.timestamp.as_str(), &i.action, &i.state) != (ts, &a, &s) {
                return Err(format!("parsed as {i:?}"));
            }
            if i.file_name() != name {
                return Err(format!("comes back as {:?}", i.file_name()));
            }
            if i.relative_path().map_err(e)? != format!(".hoodie/{name}") {
                return Err(format!("path {:?}", i.relative_path()));
            }
            if i.is_replacecommit() != (a == Action::ReplaceCommit) {
                return Err("kind".into());
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
const ID: &str = "f-0";
const T17: &str = "20240102030405006";
fn judge_group(name: &str) -> Result<(), String> {
    let mut g = FileGroup::new_with_base_file_name(ID.into(), "p".into(), &format!("{ID}_0-1-1_{T17}.parquet")).map_err(e)?;
    let before = format!("{:?}", g.file_slices);
    let base = base_parts(name);
    let r = g.add_base_file_from_name(name).is_ok();
    match base {
        Some(p) if p[2] == T17 && r => return Err("second base file of the same commit accepted".into()),
        Some(p) if p[2] != T17 => {
            if !r || g.file_slices.get(p[2]).map(|s| s.base_file.file_name()) != Some(name.into()) {
                return Err("base file not added".into());
            }
        }
        _ => {}
    }
    if !r && format!("{:?}", g.file_slices) != before {
        return Err("changed although the base file is rejected".into());
    }
    let mut g = FileGroup::new_with_base_file_name(ID.into(), "p".into(), &format!("{ID}_0-1-1_{T17}.parquet")).map_err(e)?;
    let r = g.add_log_file_from_name(name).is_ok();
    if let Some(p) = log_parts(name) {
        if r != (p[1] == T17) {
            return Err(format!("log file accepted: {r}"));
        }
    }
    if r {
        let l: Vec<String> = g.file_slices.values().flat_map(|s| s.log_files.iter().map(|l| l.file_name())).collect();
        if l != [name] {
            return Err(format!("log files {l:?}"));
        }
    } else if format!("{:?}", g.file_slices) != before {
        return Err("changed although the log file is rejected".into());
    }
    Ok(())
}

// ---- the names ----

const SEEDS: &[&[&str]] = &[
    &[ID, "_", "0-1-1", "_", T17, ".", "parquet"],
    &["01234567-89ab-cdef-0123-456789abcdef-12", "_", "10-200-3000", "_", "20240102030405", ".", "orc"],
    &[".", ID, "_", T17, ".", "log", ".", "1", "_", "0-1-1"],
    &[".", ID, "_", "20240102030405", ".", "log", ".", "12", "_", "1-0-1"],
    &[T17, ".", "commit"],
    &[T17, ".", "deltacommit", ".", "inflight"],
    &["20240229235959", ".", "replacecommit", ".", "requested"],
    &[T17, ".", "inflight"],
];
const EDITS: &[&str] = &[
    "_", ".", "-", "", " ", "é", "０", "/", "%2E", "0", "00", "-1", "1a", "log", "parquet", "commit", "inflight", "requested", "crc",
    "20240102030405", "2024010203040500", "202401020304050067", "2024010203040é", "20240230000000", "20241301000000", "20240101240000",
    "20240101006000", "20240101000060", "2024010100000000a", "+2240101000000", " 0240101000000", "00000000000000", "99991231235959999",
    "deltacommit", "rollback", "Commit", "18446744073709551616", "cdc", "\n", "\u{0}",
];
fn edits(t: &[&'static str]) -> Vec<Vec<&'static str>> {
    let mut out = vec![];
    for i in 0..=t.len() {
        for x in EDITS {
            let mut v = t.to_vec();
            v.insert(i, x);
            out.push(v);
            if i < t.len() {
                let mut v = t.to_vec();
                v[i] = x;
                out.push(v);
            }
        }
        if i < t.len() {
            let mut v = t.to_vec();
            v.remove(i);
            out.push(v);
            let mut v = t.to_vec();
            v.insert(i, t[i]);
            out.push(v);
            for j in i + 1..t.len() {
                let mut v = t.to_vec();
                v.swap(i, j);
                out.push(v);
            }
        }
    }
    out
}
/// Every way to cut one character out of a name, double it, or cut the name off there.
fn chars(name: &str) -> Vec<String> {
    let c: Vec<char> = name.chars().collect();
    let mut out = vec![];
    for i in 0..c.len() {
        let mut a = c.clone();
        a.remove(i);
        out.push(a.iter().collect());
        let mut a = c.clone();
        a.insert(i, c[i]);
        out.push(a.iter().collect());
        out.push(c[..i].iter().collect());
        out.push(c[i..].iter().collect());
        for x in ['_', '.', '-', '0', '9', 'a', 'é', '\u{660}', ' '] {
            let mut a = c.clone();
            a[i] = x;
            out.push(a.iter().collect());
            let mut a = c.clone();
            a.insert(i, x);
            out.push(a.iter().collect());
        }
    }
    out
}
const TOKENS: &[&str] = &[ID, "_", ".", T17, "log", "1", "commit", "é"];

fn names(rep: &Arc<Report>) {
    // every string of tokens
    let max = if rep.thorough { 8 } else { 6 };
    let heads: Vec<usize> = (0..TOKENS.len() * TOKENS.len()).collect();
    let r = rep.clone();
    pool(rep, heads, 120, |h| format!("names of tokens from {h}"), move |h| {
        let mut v = vec![h / TOKENS.len(), h % TOKENS.len()];
        let one = |v: &[usize]| {
            let n: String = v.iter().map(|i| TOKENS[*i]).collect();
            each(&r, &n);
        };
        if *h == 0 {
            one(&[]);
        }
        if h % TOKENS.len() == 0 {
            one(&v[..1]);
        }
        // odometer over the rest, shorter ones first
        for len in 2..=max {
            v.truncate(2);
            v.resize(len, 0);
            loop {
                one(&v);
                if r.stop() {
                    return;
                }
                let mut i = len;
                loop {
                    if i == 2 {
                        break;
                    }
                    i -= 1;
                    v[i] += 1;
                    if v[i] < TOKENS.len() {
                        break;
                    }
                    v[i] = 0;
                    if i == 2 {
                        i = 0;
                        break;
                    }
                }
                if len == 2 || i == 0 {
                    break;
                }
            }
        }
    });
    // every well-formed name within some edits
    let mut work: Vec<Vec<&'static str>> = vec![];
    for s in SEEDS {
        work.push(s.to_vec());
        work.extend(edits(s));
    }
    let work: Vec<Vec<&'static str>> = work.into_iter().collect::<HashSet<_>>().into_iter().collect();
    let r = rep.clone();
    pool(rep, work, 300, |w| format!("edits of {w:?}"), move |w| {
        each(&r, &w.concat());
        for x in edits(w) {
            each(&r, &x.concat());
            if r.thorough {
                // cut off at every character
                let n = x.concat();
                for (i, _) in n.char_indices() {
                    each(&r, &n[..i]);
                    each(&r, &n[i..]);
                }
            }
            if r.stop() {
                return;
            }
        }
        for y in chars(&w.concat()) {
            each(&r, &y);
        }
    });
    // every date and time, field by field
    let f: [&[&str]; 7] = [
        &["0000", "0001", "1969", "1970", "1900", "2000", "2023", "2024", "2100", "9999"],
        &["00", "01", "02", "04", "12", "13"],
        &["00", "01", "28", "29", "30", "31", "32"],
        &["00", "23", "24", "99"],
        &["00", "59", "60"],
        &["00", "59", "60", "61"],
        &["", "000", "001", "999", "0", "0000", "00a"],
    ];
    let mut all = vec![String::new()];
    for vals in f {
        all = all.iter().flat_map(|p| vals.iter().map(move |v| format!("{p}{v}"))).collect();
    }
    for ts in all {
        for s in [".commit", ".replacecommit.requested", ".inflight", ".commit.", ".commit.x"] {
            each(rep, &format!("{ts}{s}"));
        }
        each(rep, &format!("{ID}_0-1-1_{ts}.parquet"));
        each(rep, &format!(".{ID}_{ts}.log.1_0-1-1"));
        if rep.stop() {
            return;
        }
    }
}
fn each(rep: &Report, name: &str) {
    if !rep.wants(name) {
        return;
    }
    let known = base_parts(name).is_some() || log_parts(name).is_some() || instant_parts(name) != Ok(None);
    rep.eval(known.then_some(&|h: &mut std::collections::hash_map::DefaultHasher| std::hash::Hash::hash(name, h)));
    if let Err(x) = judge(name) {
        rep.violation(format!("{name:?}: {x}"), name);
    }
}

/// Log files sort by the commit of their base file, then their version as a number, then their token;
/// slices sort by their commit.
fn order(rep: &Report) {
    let ts = ["20240101000000", "20240101000000000", T17, "20241231235959999"];
    let versions = ["1", "2", "9", "10", "11", "99", "100", "1000000000"];
    let tokens = ["0-1-1", "0-1-2", "1-0-1"];
    let mut all = vec![];
    for t in ts {
        for v in versions {
            for k in tokens {
                all.push((t, v, k));
            }
        }
    }
    let file = |x: &(&str, &str, &str)| LogFile::from_str(&format!(".{ID}_{}.log.{}_{}", x.0, x.1, x.2)).unwrap();
    for a in &all {
        for b in &all {
            let key = format!("order {a:?} {b:?}");
            if !rep.wants(&key) {
                continue;
            }
            rep.evalv(a != b, (a, b));
            let want = a.0.cmp(b.0).then(a.1.parse::<u64>().unwrap().cmp(&b.1.parse().unwrap())).then(a.2.cmp(b.2));
            let (x, y) = (file(a), file(b));
            if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) || (x == y) != (want == Ordering::Equal) {
                rep.violation(format!("{key}: {:?}, expected {want:?}", x.cmp(&y)), key);
            }
        }
    }
    // insertion in any order into a file group
    let names: Vec<(usize, &str, &str)> = vec![(0, "1", "0-1-1"), (0, "2", "0-1-1"), (0, "10", "0-1-1"), (0, "10", "0-1-2"), (1, "1", "0-1-1"), (1, "2", "0-0-1")];
    let t = ["20240101000000001", "20240101000000010"];
    let want: Vec<String> = names.iter().map(|(i, v, k)| format!(".{ID}_{}.log.{v}_{k}", t[*i])).collect();
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..names.len() {
        let mut next = vec![];
        for p in &perms {
            for i in 0..names.len() {
                if !p.contains(&i) {
                    let mut q: Vec<usize> = p.clone();
                    q.push(i);
                    next.push(q);
                }
            }
        }
        perms = next;
    }
    for p in perms {
        for swap in [false, true] {
            let key = format!("insert {p:?} {swap}");
            if !rep.wants(&key) {
                continue;
            }
            rep.evalv(true, &key);
            let mut g = FileGroup::new(ID.into(), "p".into());
            let mut tt = t;
            if swap {
                tt.reverse();
            }
            let mut ok = tt.iter().all(|x| g.add_base_file_from_name(&format!("{ID}_0-1-1_{x}.parquet")).is_ok());
            for i in &p {
                ok &= g.add_log_file_from_name(&want[*i]).is_ok();
            }
            let got: Vec<String> = g.file_slices.values().flat_map(|s| s.log_files.iter().map(|l| l.file_name())).collect();
            let slices: Vec<&str> = g.file_slices.keys().map(|s| s.as_str()).collect();
            let last = g.get_file_slice_as_of(t[1]).map(|s| s.base_file.commit_timestamp.clone());
            let first = g.get_file_slice_as_of("20240101000000009").map(|s| s.base_file.commit_timestamp.clone());
            let none = g.get_file_slice_as_of("20240101000000000").is_none();
            if !ok || got != want || slices != t || last.as_deref() != Some(t[1]) || first.as_deref() != Some(t[0]) || !none {
                rep.violation(format!("{key}: {got:?} in {slices:?}, as of: {first:?} {last:?}"), key);
            }
        }
    }
}

/// A stray file in a partition or in the timeline folder changes no answer.
fn stray(rep: &Arc<Report>) {
    let id = "f-0";
    let ts = |i: usize| format!("2024010203040500{i}");
    let base = format!("{id}_0-1-1_{}.parquet", ts(1));
    let log = format!(".{id}_{}.log.1_0-1-1", ts(1));
    let row = |i: usize, key: &str, val: i64, file: &str| Row {
        key: key.into(),
        val,
        ord: i as i64,
        part: "a".into(),
        ct: ts(i),
        seq: format!("{}_0_0", ts(i)),
        ppath: "part=a".into(),
        file: file.into(),
    };
    let cfg = crate::world::Cfg::mor(1);
    let mut f = Files::new();
    f.insert(".hoodie/hoodie.properties".into(), crate::world::properties(&cfg).into());
    f.insert(format!("part=a/{base}"), parquet(&[row(1, "k", 1, "b"), row(1, "l", 1, "b")], true));
    f.insert(format!("part=a/{log}"), data_block(&ts(2), &[row(2, "k", 2, id)], true).into());
    f.insert("part=a/.hoodie_partition_metadata".into(), Bytes::from_static(b"commitTime=1\npartitionDepth=1\n"));
    let commit = |stat: serde_json::Value| Bytes::from(json!({"partitionToWriteStats": {"part=a": [stat]}, "compacted": false, "extraMetadata": {}, "operationType": "UPSERT"}).to_string());
    f.insert(format!(".hoodie/{}.deltacommit", ts(1)), commit(json!({"fileId": id, "path": format!("part=a/{base}"), "prevCommit": "null"})));
    f.insert(format!(".hoodie/{}.deltacommit", ts(2)), commit(json!({"fileId": id, "path": format!("part=a/{log}"), "prevCommit": ts(1), "baseFile": base, "logFiles": [log]})));
    // the stray file's content would be seen
    let other = parquet(&[row(1, "k", 9, "x"), row(1, "m", 9, "x")], true);
    let other_log: Bytes = data_block(&ts(2), &[row(9, "k", 9, id), row(9, "m", 9, id)], true).into();
    let other_commit = commit(json!({"fileId": id, "path": format!("part=a/{base}"), "prevCommit": "null"}));
    let mut work: Vec<(String, String)> = vec![];
    fn pieces(n: &str) -> Vec<&'static str> {
        // cut at the separators
        let mut out: Vec<&'static str> = vec![];
        let mut cur = String::new();
        for c in n.chars() {
            if c == '_' || c == '.' {
                if !cur.is_empty() {
                    out.push(Box::leak(std::mem::take(&mut cur).into_boxed_str()));
                }
                out.push(if c == '_' { "_" } else { "." });
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            out.push(Box::leak(cur.into_boxed_str()));
        }
        out
    }
    let mut names = HashSet::new();
    for n in [base.as_str(), log.as_str()] {
        for x in edits(&pieces(n)) {
            names.insert(("part=a", x.concat()));
            if rep.thorough {
                for y in edits(&x) {
                    names.insert(("part=a", y.concat()));
                }
            }
        }
        names.extend(chars(n).into_iter().map(|x| ("part=a", x)));
    }
    for s in SEEDS[4..].iter().chain([&[T17, ".", "replacecommit"][..]].iter()) {
        for x in edits(s) {
            names.insert((".hoodie", x.concat()));
        }
        names.extend(chars(&s.concat()).into_iter().map(|x| (".hoodie", x)));
    }
    for (dir, n) in names {
        let ok = !n.is_empty() && !n.contains(['/', '\0', '\n', '%']) && n != "." && n != "..";
        // names that are well-formed are another table's business, and so are the two markers of Hudi itself
        let real = if dir == "part=a" {
            shape(&n) || n.starts_with(".hoodie_partition_metadata") || n.ends_with(".crc")
        } else {
            instant_parts(&n) != Ok(None)
        };
        if ok && !real {
            work.push((dir.into(), n));
        }
    }
    work.sort();
    let f = Arc::new(f);
    let want = vec![2i64, 1];
    let r = rep.clone();
    pool(rep, work, 60, |w| format!("stray {w:?}"), move |(dir, n)| {
        let key = format!("stray {dir}/{n}");
        if !r.wants(&key) {
            return;
        }
        r.evalv(true, &key);
        let mut files = (*f).clone();
        let content = match dir.as_str() {
            ".hoodie" => &other_commit,
            _ if n.contains(".log.") || n.starts_with('.') => &other_log,
            _ => &other,
        };
        files.insert(format!("{dir}/{n}"), content.clone());
        let s = Mounted::new(crate::mini::prefixed("t", files));
        let got = q(async {
            let t = open(&s.url()).await?;
            let l = t.get_timeline().completed_commits.len();
            let a = t.read_snapshot(&[]).await.map_err(e)?;
            let b = t.read_incremental_records("20240101000000000", None).await.map_err(e)?;
            let sl = t.get_file_slices(&[]).await.map_err(e)?;
            Ok((crate::mini::vals(&a)?, crate::mini::vals(&b)?, sl.len(), l))
        });
        let mut w = want.clone();
        w.sort();
        let fine = match &got {
            Ok((a, b, n, l)) => *a == w && *b == w && *n == 1 && *l == 2,
            // a stray file in the timeline is no reason to fail
            Err(x) => !x.starts_with("PANIC") && dir != ".hoodie",
        };
        if !fine {
            r.violation(format!("{key}: {got:?}"), key);
        }
    });
}

/// Files with unusual but well-formed names are listed and read.
fn unusual(rep: &Arc<Report>) {
    let ids = [
        "crc", "x-crc", "crc-0", "log-0", "parquet-0", "hoodie", "commit-0", "inflight", "0", "-1", "-", "é", "a b", "a=b",
        "00000000000000000", "20240102030405001", "files-0000-0", "record-index-0001-0", "LOG", "metadata", "tmp", "~", "#1", "a+b", "a&b",
    ];
    let tokens = ["0-1-1", "1-0-1", "0", "crc", "x", "123-456-7890123"];
    let work: Vec<(String, String)> =
        ids.iter().flat_map(|i| tokens.iter().map(move |t| (i.to_string(), t.to_string()))).collect();
    let r = rep.clone();
    pool(rep, work, 60, |w| format!("unusual {w:?}"), move |(id, token)| {
        let key = format!("unusual {id} {token}");
        if !r.wants(&key) {
            return;
        }
        r.evalv(true, &key);
        let ts = |i: usize| format!("2024010203040500{i}");
        let base = format!("{id}_{token}_{}.parquet", ts(1));
        let log = format!(".{id}_{}.log.1_{token}", ts(1));
        let row = |i: usize, val: i64| Row {
            key: "k".into(), val, ord: i as i64, part: "a".into(), ct: ts(i), seq: format!("{}_0_0", ts(i)),
            ppath: "part=a".into(), file: base.clone(),
        };
        let mut f = Files::new();
        f.insert(".hoodie/hoodie.properties".into(), crate::world::properties(&crate::world::Cfg::mor(1)).into());
        f.insert(format!("part=a/{base}"), parquet(&[row(1, 1)], true));
        f.insert(format!("part=a/{log}"), data_block(&ts(2), &[row(2, 2)], true).into());
        let commit = |stat: serde_json::Value| Bytes::from(json!({"partitionToWriteStats": {"part=a": [stat]}, "compacted": false, "extraMetadata": {}, "operationType": "UPSERT"}).to_string());
        f.insert(format!(".hoodie/{}.deltacommit", ts(1)), commit(json!({"fileId": id, "path": format!("part=a/{base}"), "prevCommit": "null"})));
        f.insert(format!(".hoodie/{}.deltacommit", ts(2)), commit(json!({"fileId": id, "path": format!("part=a/{log}"), "prevCommit": ts(1), "baseFile": base, "logFiles": [log]})));
        let s = Mounted::new(crate::mini::prefixed("t", f));
        let got = q(async {
            let t = open(&s.url()).await?;
            let mut out = vec![];
            let sl = t.get_file_slices(&[]).await.map_err(e)?;
            for x in &sl {
                out.push(format!("{} {} {:?}", x.file_id(), x.base_file.file_name(), x.log_files.iter().map(|l| l.file_name()).collect::<Vec<_>>()));
            }
            out.push(format!("{:?}", crate::mini::vals(&t.read_snapshot(&[]).await.map_err(e)?)?));
            out.push(format!("{:?}", crate::mini::vals(&t.read_snapshot_as_of(&ts(1), &[]).await.map_err(e)?)?));
            out.push(format!("{:?}", crate::mini::vals(&t.read_incremental_records(&ts(1), None).await.map_err(e)?)?));
            Ok(out)
        });
        let want = vec![format!("{id} {base} {:?}", vec![&log]), "[2]".into(), "[1]".into(), "[2]".into()];
        if got.as_ref() != Ok(&want) {
            r.violation(format!("{key}: {got:?}, expected {want:?}"), key);
        }
    });
    rep.note("tables whose files have each of 25 file ids and 6 write tokens");
}

pub fn c14(rep: &Arc<Report>) {
    names(rep);
    unusual(rep);
    order(rep);
    stray(rep);
    rep.note("every string of up to six (thorough: eight) of eight tokens; every name within two edits (of 40 insertions or replacements, deletion, doubling, swap) of eight well-formed names, and every change of one character of the names within one edit (thorough: and every head and tail of those within two); 141120 timestamps by field; every pair of 96 log files and every order of adding six log files; a stray file of every such name (one edit; thorough: two) in a partition and in the timeline folder");
}
