//! The Rust library's answers to every query of the Python binding, over bounded table histories written
//! to local files: `mc pyref <dir> quick|thorough`. The binding is then asked the same (py/drive.py).
use crate::exec::run_free;
use crate::hist::*;
use crate::run::guard;
use crate::world::*;
use arrow_array::RecordBatch;
use arrow_schema::Schema;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use hudi_core::timeline::instant::Instant;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fmt::Display;
use std::future::Future;
use std::path::Path;
use std::sync::Arc;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn schema_hex(s: &Schema) -> String {
    let mut b = vec![];
    let mut w = arrow::ipc::writer::StreamWriter::try_new(&mut b, s).unwrap();
    w.finish().unwrap();
    drop(w);
    hex(&b)
}
fn batch_hex(r: &RecordBatch) -> String {
    let mut b = vec![];
    let mut w = arrow::ipc::writer::StreamWriter::try_new(&mut b, &r.schema()).unwrap();
    w.write(r).unwrap();
    w.finish().unwrap();
    drop(w);
    hex(&b)
}

trait Show {
    const KIND: &'static str;
    fn show(&self) -> Value;
}
impl Show for Vec<RecordBatch> {
    const KIND: &'static str = "batches";
    fn show(&self) -> Value {
        self.iter().map(batch_hex).collect::<Vec<_>>().into()
    }
}
impl Show for RecordBatch {
    const KIND: &'static str = "batch";
    fn show(&self) -> Value {
        batch_hex(self).into()
    }
}
impl Show for Schema {
    const KIND: &'static str = "schema";
    fn show(&self) -> Value {
        schema_hex(self).into()
    }
}
impl Show for String {
    const KIND: &'static str = "value";
    fn show(&self) -> Value {
        self.clone().into()
    }
}
impl Show for Value {
    const KIND: &'static str = "value";
    fn show(&self) -> Value {
        self.clone()
    }
}
fn slice(s: &FileSlice) -> Value {
    let m = s.base_file.file_metadata.clone().unwrap_or_default();
    let join = |n: &str| {
        if s.partition_path.is_empty() {
            n.to_string()
        } else {
            format!("{}/{n}", s.partition_path)
        }
    };
    let logs: Vec<String> = s.log_files.iter().map(|l| l.file_name()).collect();
    json!({
        "file_id": s.file_id(), "partition_path": s.partition_path,
        "creation_instant_time": s.creation_instant_time(), "base_file_name": s.base_file.file_name(),
        "base_file_size": m.size, "base_file_byte_size": m.byte_size, "num_records": m.num_records,
        "log_file_names": logs,
        "base_file_relative_path": join(&s.base_file.file_name()),
        "log_files_relative_paths": logs.iter().map(|l| join(l)).collect::<Vec<_>>(),
    })
}
impl Show for Vec<FileSlice> {
    const KIND: &'static str = "slices";
    fn show(&self) -> Value {
        self.iter().map(slice).collect::<Vec<_>>().into()
    }
}
impl Show for Vec<Vec<FileSlice>> {
    const KIND: &'static str = "splits";
    fn show(&self) -> Value {
        self.iter().map(|v| v.show()).collect::<Vec<_>>().into()
    }
}
impl Show for Vec<Instant> {
    const KIND: &'static str = "instants";
    fn show(&self) -> Value {
        self.iter()
            .map(|i| json!([i.timestamp, i.action.as_ref(), i.state.as_ref(), i.epoch_millis]))
            .collect::<Vec<_>>()
            .into()
    }
}

fn settled<T: Show>(r: Result<Result<T, String>, String>) -> Value {
    match r {
        Ok(Ok(v)) => json!({"kind": T::KIND, "ok": v.show()}),
        Ok(Err(e)) => json!({"kind": T::KIND, "err": e}),
        Err(p) => json!({"kind": T::KIND, "panic": p}),
    }
}
fn ask<T: Show, E: Display>(f: impl Future<Output = Result<T, E>>) -> Value {
    settled(guard(|| run_free(f).map_err(|e| e.to_string())))
}

type Opts = Vec<(&'static str, String)>;

/// Every call of one table object, with the library's answer.
fn calls(t: &Table, times: &[String], wide: bool) -> (Vec<Value>, Vec<FileSlice>) {
    let mut v = vec![];
    let mut slices: BTreeMap<String, FileSlice> = BTreeMap::new();
    let mut put = |obj: &str, m: &str, args: Value, want: Value| {
        v.push(json!({"obj": obj, "m": m, "args": args, "want": want}));
    };
    put("table", "hudi_options", json!([]), json!({"kind": "value", "ok": t.hudi_options()}));
    put("table", "storage_options", json!([]), json!({"kind": "value", "ok": t.storage_options()}));
    put("table", "table_name", Value::Null, json!({"kind": "value", "ok": t.table_name()}));
    put("table", "table_type", Value::Null, json!({"kind": "value", "ok": t.table_type()}));
    put("table", "is_mor", Value::Null, json!({"kind": "value", "ok": t.is_mor()}));
    put("table", "timezone", Value::Null, json!({"kind": "value", "ok": t.timezone()}));
    put("table", "get_avro_schema", json!([]), ask(t.get_avro_schema()));
    put("table", "get_schema", json!([]), ask(t.get_schema()));
    put("table", "get_partition_schema", json!([]), ask(t.get_partition_schema()));
    let tl = t.get_timeline();
    for desc in [None, Some(false), Some(true)] {
        let a = match desc {
            None => json!([]),
            Some(d) => json!([["desc", d]]),
        };
        let d = desc.unwrap_or(false);
        put("timeline", "get_completed_commits", a.clone(), ask(tl.get_completed_commits(d)));
        put("timeline", "get_completed_deltacommits", a.clone(), ask(tl.get_completed_deltacommits(d)));
        put("timeline", "get_completed_replacecommits", a.clone(), ask(tl.get_completed_replacecommits(d)));
        put("timeline", "get_completed_clustering_commits", a.clone(), ask(tl.get_completed_clustering_commits(d)));
    }
    for i in run_free(tl.get_completed_commits(false)).unwrap_or_default() {
        // the argument is the instant at this time
        put("timeline", "get_instant_metadata_in_json", json!([["instant", i.timestamp]]), ask(tl.get_instant_metadata_in_json(&i)));
    }
    put("timeline", "get_latest_commit_timestamp", json!([]), ask(async { tl.get_latest_commit_timestamp() }));
    put("timeline", "get_latest_avro_schema", json!([]), ask(tl.get_latest_avro_schema()));
    put("timeline", "get_latest_schema", json!([]), ask(tl.get_latest_schema()));

    let mut filters: Vec<Option<Vec<(&str, &str, &str)>>> = vec![
        None,
        Some(vec![]),
        Some(vec![("part", "=", "a")]),
        Some(vec![("part", "!=", "a")]),
        Some(vec![("part", "~", "a")]),
    ];
    if wide {
        filters.push(Some(vec![("part", ">", "a"), ("part", "<", "c")]));
        filters.push(Some(vec![("part", ">=", "b")]));
        filters.push(Some(vec![("nope", "=", "a")]));
    }
    let keep = |slices: &mut BTreeMap<String, FileSlice>, x: &[FileSlice]| {
        for s in x {
            slices.insert(crate::q::slice_id(s), s.clone());
        }
    };
    for f in &filters {
        let g = f.clone().unwrap_or_default();
        let fa = |mut a: Vec<Value>| {
            if let Some(f) = f {
                a.push(json!(["filters", f]));
            }
            Value::from(a)
        };
        if let Ok(x) = run_free(t.get_file_slices(&g)) {
            keep(&mut slices, &x);
        }
        put("table", "get_file_slices", fa(vec![]), ask(t.get_file_slices(&g)));
        put("table", "read_snapshot", fa(vec![]), ask(t.read_snapshot(&g)));
        for n in [0usize, 1, 2, 3] {
            put("table", "get_file_slices_splits", fa(vec![json!(["n", n])]), ask(t.get_file_slices_splits(n, &g)));
        }
        for ts in times {
            if let Ok(x) = run_free(t.get_file_slices_as_of(ts, &g)) {
                keep(&mut slices, &x);
            }
            let a = || vec![json!(["timestamp", ts])];
            put("table", "get_file_slices_as_of", fa(a()), ask(t.get_file_slices_as_of(ts, &g)));
            put("table", "read_snapshot_as_of", fa(a()), ask(t.read_snapshot_as_of(ts, &g)));
            for n in [1usize, 2] {
                put(
                    "table",
                    "get_file_slices_splits_as_of",
                    fa(vec![json!(["n", n]), json!(["timestamp", ts])]),
                    ask(t.get_file_slices_splits_as_of(n, ts, &g)),
                );
            }
        }
    }
    let ends: Vec<Option<&String>> = std::iter::once(None).chain(times.iter().map(Some)).collect();
    for s in &ends {
        for e in &ends {
            let s = s.map(|s| s.as_str());
            let e = e.map(|e| e.as_str());
            for explicit in [false, true] {
                // None left out, and None given
                let mut a = vec![];
                if explicit || s.is_some() {
                    a.push(json!(["start_timestamp", s]));
                }
                if explicit || e.is_some() {
                    a.push(json!(["end_timestamp", e]));
                }
                if explicit && s.is_some() && e.is_some() {
                    continue;
                }
                put("table", "get_file_slices_between", a.clone().into(), ask(t.get_file_slices_between(s, e)));
                if let Some(s) = s {
                    put("table", "read_incremental_records", a.into(), ask(t.read_incremental_records(s, e)));
                }
            }
        }
    }
    (v, slices.into_values().collect())
}

fn table(dir: &Path, name: &str, files: &crate::store::Files, times: &[String], wide: bool) {
    let base = dir.join("table");
    std::fs::create_dir_all(&base).unwrap();
    for (k, b) in files {
        let p = base.join(k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    let uri = base.to_str().unwrap().to_string();
    let ro = || vec![("hoodie.read.use.read_optimized.mode", "true".to_string())];
    let mut opens: Vec<(&str, Opts, Opts, Opts)> = vec![
        ("new", vec![], vec![], vec![]),
        ("new", ro(), vec![], vec![]),
        ("new", vec![("hoodie.read.input.partitions", "2".into()), ("Some.Other", "x".into())], vec![], vec![]),
        ("build", vec![], ro(), vec![]),
    ];
    if wide {
        // the same keys at several places
        let k = |v: &str| vec![("hoodie.read.input.partitions", v.to_string())];
        let s = |v: &str| vec![("aws_region", v.to_string())];
        for a in 0..2 {
            for b in 0..2 {
                for c in 0..2 {
                    let w = |o: i32, x: Opts| if o == 1 { x } else { vec![] };
                    opens.push(("build", w(a, k("3")), w(b, k("4")), w(c, s("u"))));
                    opens.push(("build", w(a, s("w")), w(b, k("4")), w(c, k("5"))));
                    opens.push(("build", w(a, vec![("AWS_REGION", "v".to_string())]), w(b, s("q")), w(c, s("u"))));
                }
            }
        }
        for bad in [
            ("hoodie.read.input.partitions", "x"),
            ("hoodie.table.type", "NOPE"),
            ("hoodie.internal.skip.config.validation", "maybe"),
            ("hoodie.timeline.layout.version", "9"),
        ] {
            opens.push(("new", vec![(bad.0, bad.1.into())], vec![], vec![]));
        }
    }
    let mut out = vec![];
    for (how, generic, hudi, storage) in opens {
        let full = out.len() < 2;
        let opened = guard(|| {
            run_free(async {
                match how {
                    "new" => Table::new_with_options(&uri, generic.clone()).await,
                    _ => {
                        TableBuilder::from_base_uri(&uri)
                            .with_hudi_options(hudi.clone())
                            .with_storage_options(storage.clone())
                            .with_options(generic.clone())
                            .build()
                            .await
                    }
                }
                .map_err(|e| e.to_string())
            })
        });
        let o = |x: &Opts| x.iter().map(|(k, v)| (k.to_string(), v.clone().into())).collect::<Map<String, Value>>();
        let mut case = json!({"how": how, "options": o(&generic), "hudi": o(&hudi), "storage": o(&storage)});
        match opened {
            Err(p) => case["want"] = json!({"panic": p}),
            Ok(Err(e)) => case["want"] = json!({"err": e}),
            Ok(Ok(t)) => {
                case["want"] = json!({"ok": true});
                let (mut calls, slices) = calls(&t, times, wide && full);
                if !full {
                    calls.truncate(6);
                }
                case["calls"] = calls.into();
                if full {
                    let mut readers: Vec<(bool, Opts)> = vec![
                        (true, vec![]),
                        (true, ro()),
                        (false, vec![("hoodie.table.precombine.field", "ord".into()), ("hoodie.table.recordkey.fields", "id".into())]),
                    ];
                    for ts in times.iter().take(3) {
                        readers.push((true, vec![("hoodie.read.file_group.start_timestamp", ts.clone())]));
                        readers.push((true, vec![("hoodie.read.file_group.end_timestamp", ts.clone())]));
                    }
                    let mut rs = vec![];
                    for (of_table, ro) in readers {
                        let r = guard(|| {
                            match of_table {
                                true => t.create_file_group_reader_with_options(ro.clone()),
                                false => FileGroupReader::new_with_options(&uri, ro.clone()),
                            }
                            .map_err(|e| e.to_string())
                        });
                        let mut c = json!({"of_table": of_table, "options": o(&ro)});
                        match r {
                            Err(p) => c["want"] = json!({"panic": p}),
                            Ok(Err(e)) => c["want"] = json!({"err": e}),
                            Ok(Ok(r)) => {
                                c["want"] = json!({"ok": true});
                                c["reads"] = slices
                                    .iter()
                                    .map(|s| {
                                        let p = s.base_file_relative_path().unwrap();
                                        json!({"slice": slice(s), "read": ask(r.read_file_slice(s)), "base": ask(r.read_file_slice_by_base_file_path(&p))})
                                    })
                                    .collect::<Vec<_>>()
                                    .into();
                                c["missing"] = ask(r.read_file_slice_by_base_file_path("part=a/none.parquet"));
                            }
                        }
                        rs.push(c);
                    }
                    case["readers"] = rs.into();
                }
            }
        }
        out.push(case);
    }
    let v = json!({"name": name, "uri": uri, "opens": out});
    std::fs::write(dir.join("case.json"), v.to_string()).unwrap();
}

pub fn main(dir: &str, thorough: bool) -> i32 {
    let rep = Arc::new(crate::report::Report::new("C23", "exploration", thorough, 1));
    let mut spaces = vec![
        (Space::new(Cfg::cow(2), "Ins0 Ins1 Ups0 Ow0 DelP1 Clus0", 3), false),
        (Space::new(Cfg::mor(2), "Ins0 Ins1 Ups0 Late0 Comp", 3), false),
        (Space::new(Cfg { ts14: true, ..Cfg::nonpart(true) }, "Ins0 Ups0 Comp", 4), false),
    ];
    if thorough {
        spaces[0].0.depth = 4;
        spaces[1].0.depth = 4;
        spaces[2].0.depth = 6;
        spaces.push((Space::new(Cfg { meta_fields: false, ..Cfg::mor(2) }, "Ins0 Ups0 Comp Empty Ow0", 3), false));
    }
    let mut worlds: Vec<(World, bool)> = vec![];
    for (s, wide) in &spaces {
        let mut level = vec![World::new(s.cfg.clone())];
        for d in 0..=s.depth {
            let mut next = vec![];
            for w in &level {
                if d == s.depth || d == 0 {
                    worlds.push((w.clone(), *wide));
                }
                for o in &s.ops {
                    next.extend(succ(w, o));
                }
            }
            level = next;
        }
    }
    // a few longer ones, asked more
    for (cfg, ops) in [
        (Cfg::cow(3), "Ins0 Ins1 Ins2 Ups0 Ow1 Clus0"),
        (Cfg::mor(3), "Ins0 Ins1 Ups0 Ups0 Comp Ups1 Late0 Ins2"),
        (Cfg { avro_log: false, ..Cfg::mor(1) }, "Ins0 Ups0 Late0 Ups0"),
        (Cfg { evolve: true, ..Cfg::cow(2) }, "Ins0 Ins1 Ups0"),
        (Cfg { extra: vec![("hoodie.timeline.layout.version".into(), "1".into()), ("hoodie.table.timeline.timezone".into(), "local".into())], ..Cfg::cow(1) }, "Ins0 Ins0"),
    ] {
        let mut w = World::new(cfg);
        for o in crate::hist::ops(ops) {
            w = w.step(&o).unwrap_or(w);
        }
        worlds.push((w, true));
    }
    let n = worlds.len();
    let dir = dir.to_string();
    let tasks: Vec<(usize, World, bool)> = worlds.into_iter().enumerate().map(|(i, (w, b))| (i, w, b)).collect();
    let d2 = dir.clone();
    crate::run::pool(
        &rep,
        tasks,
        300,
        |t| key(&t.1),
        move |(i, w, wide)| {
            let mut times: Vec<String> = w.hist.iter().map(|h| h.ts.clone()).collect();
            if *wide || times.is_empty() {
                times.push(if w.cfg.ts14 { "20200101000000" } else { "20200101000000000" }.into());
                times.push("nonsense".into());
            }
            times.truncate(5);
            table(&Path::new(&d2).join(i.to_string()), &key(w), &w.files, &times, *wide);
        },
    );
    // folders that are not tables
    for (i, files) in [
        BTreeMap::new(),
        BTreeMap::from([("x".to_string(), bytes::Bytes::from_static(b"x"))]),
        BTreeMap::from([(".hoodie/hoodie.properties".to_string(), bytes::Bytes::from_static(b"hoodie.table.name=t\n"))]),
        BTreeMap::from([(".hoodie/hoodie.properties".to_string(), bytes::Bytes::from_static(b"no properties"))]),
    ]
    .into_iter()
    .enumerate()
    {
        table(&Path::new(&dir).join((n + i).to_string()), &format!("not a table {i}"), &files, &["20200101000000000".into()], true);
    }
    i32::from(rep.violations() > 0)
}
