//! C09: merging the versions of records.
use crate::q::*;
use crate::report::Report;
use crate::run::{guard, pool};
use arrow_array::*;
use arrow_schema::{DataType, Field, Schema, SchemaRef, TimeUnit};
use hudi_core::config::HudiConfigs;
use hudi_core::merge::record_merger::RecordMerger;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Ordering values of a type, ascending; `None` is null and ranks below all.
fn column(ty: usize, v: &[Option<usize>]) -> ArrayRef {
    macro_rules! col {
        ($a:ty, $vals:expr) => {
            Arc::new(v.iter().map(|x| x.map(|i| $vals[i])).collect::<$a>())
        };
    }
    match ty {
        0 => col!(Int64Array, [-1i64, 0, i64::MAX]),
        1 => col!(Int32Array, [i32::MIN, -1, 7]),
        2 => col!(Float64Array, [-2.5f64, -1.5, 1e300]),
        3 => col!(StringArray, ["10", "9", "a"]),
        4 => col!(Date32Array, [-1i32, 0, 19000]),
        5 => col!(TimestampMicrosecondArray, [-1i64, 1, 1_700_000_000_000_000]),
        6 => Arc::new(
            v.iter()
                .map(|x| x.map(|i| [-150i128, 0, 99999][i]))
                .collect::<Decimal128Array>()
                .with_precision_and_scale(10, 2)
                .unwrap(),
        ),
        7 => col!(Float32Array, [-2.5f32, 0.5, 3.0]),
        8 => col!(Int16Array, [-300i16, 2, 10]),
        9 => Arc::new(
            v.iter()
                .map(|x| x.map(|i| [false, true, true][i]))
                .collect::<BooleanArray>(),
        ),
        10 => Arc::new(
            v.iter()
                .map(|x| x.map(|i| [-1i64, 1, 1_700_000_000_000][i]))
                .collect::<TimestampMillisecondArray>()
                .with_timezone("UTC"),
        ),
        _ => unreachable!(),
    }
}
const TYPES: usize = 11;
fn rank(ty: usize, v: Option<usize>) -> i32 {
    match (ty, v) {
        (_, None) => -1,
        (9, Some(2)) => 1,
        (_, Some(i)) => i as i32,
    }
}
fn data_type(ty: usize) -> DataType {
    match ty {
        5 => DataType::Timestamp(TimeUnit::Microsecond, None),
        _ => column(ty, &[]).data_type().clone(),
    }
}

/// A version of a record.
#[derive(Clone, Copy, Debug, PartialEq)]
struct V {
    key: usize,
    ord: Option<usize>,
    commit: usize,
}
const KEYS: [&str; 3] = ["k1", "k10", "K1"];
const COMMITS: [&str; 3] = ["20240101000000999", "20240101000001000", "20250101000000000"];

/// Task ids and row numbers that order otherwise than the commits do.
fn seqno(v: &V) -> String {
    format!("{}_{}_{}", COMMITS[v.commit], 9 - v.commit, 9 - 3 * v.commit)
}

const LAYOUTS: [&[&str]; 4] = [
    &["_hoodie_commit_time", "_hoodie_commit_seqno", "_hoodie_record_key", "_hoodie_partition_path", "_hoodie_file_name", "id", "ord2", "ord", "uid"],
    &["uid", "ord", "_hoodie_record_key", "ord2", "_hoodie_commit_seqno", "id", "_hoodie_partition_path", "_hoodie_commit_time", "_hoodie_file_name"],
    &["ord", "ord2", "id", "uid", "_hoodie_commit_time", "_hoodie_commit_seqno", "_hoodie_record_key", "_hoodie_partition_path", "_hoodie_file_name"],
    &["_hoodie_file_name", "_hoodie_partition_path", "_hoodie_record_key", "_hoodie_commit_seqno", "_hoodie_commit_time", "uid", "ord2", "id", "ord"],
];

fn schema(ty: usize, layout: usize) -> SchemaRef {
    Arc::new(Schema::new(
        LAYOUTS[layout]
            .iter()
            .map(|n| {
                let t = match *n {
                    "ord" => data_type(ty),
                    "ord2" | "uid" => DataType::Int64,
                    _ => DataType::Utf8,
                };
                Field::new(*n, t, true)
            })
            .collect::<Vec<_>>(),
    ))
}

fn batch(ty: usize, layout: usize, vs: &[V], first: usize) -> RecordBatch {
    let s = |f: &dyn Fn(&V) -> String| -> ArrayRef {
        Arc::new(StringArray::from_iter_values(vs.iter().map(f)))
    };
    let cols = LAYOUTS[layout]
        .iter()
        .map(|n| match *n {
            "ord" => column(ty, &vs.iter().map(|v| v.ord).collect::<Vec<_>>()),
            // orders the other way round
            "ord2" => Arc::new(Int64Array::from_iter_values(
                vs.iter().map(|v| 9 - rank(ty, v.ord) as i64),
            )) as ArrayRef,
            "uid" => Arc::new(Int64Array::from_iter_values(
                (first..first + vs.len()).map(|i| i as i64),
            )),
            "_hoodie_commit_seqno" => s(&|v| seqno(v)),
            "_hoodie_commit_time" => s(&|v| COMMITS[v.commit].into()),
            "_hoodie_record_key" => s(&|v| KEYS[v.key].into()),
            _ => s(&|v| format!("{n}{}", v.key)),
        })
        .collect();
    RecordBatch::try_new(schema(ty, layout), cols).unwrap()
}

#[derive(Clone, Debug)]
struct Case {
    ty: usize,
    layout: usize,
    n: usize,
    append: bool,
    /// every batch has its columns in another order
    mixed: bool,
    /// the first version, so that cases divide evenly
    head: Option<V>,
    keys: usize,
    commits: usize,
}

impl Case {
    fn show(&self) -> String {
        format!(
            "type {} layout {}{} rows {} append {} first {:?}",
            data_type(self.ty),
            self.layout,
            if self.mixed { " mixed" } else { "" },
            self.n,
            self.append,
            self.head
        )
    }
}

fn versions(keys: usize, commits: usize) -> Vec<V> {
    let mut v = vec![];
    for key in 0..keys {
        for ord in [None, Some(0), Some(1), Some(2)] {
            for commit in 0..commits {
                v.push(V { key, ord, commit });
            }
        }
    }
    v
}

fn configs(append: bool) -> Arc<HudiConfigs> {
    Arc::new(HudiConfigs::new([
        ("hoodie.table.precombine.field", "ord"),
        (
            "hoodie.table.record.merge.strategy",
            if append {
                "append_only"
            } else {
                "overwrite_with_latest"
            },
        ),
    ]))
}

fn judge(ty: usize, append: bool, vs: &[V], out: &RecordBatch) -> Result<(), String> {
    let uid = out
        .column_by_name("uid")
        .and_then(|c| c.as_any().downcast_ref::<Int64Array>().cloned())
        .ok_or("no uid")?;
    let mut got: Vec<usize> = vec![];
    for i in 0..out.num_rows() {
        let u = uid.value(i) as usize;
        if u >= vs.len() {
            return Err(format!("uid {u}"));
        }
        got.push(u);
        // the whole row belongs together
        let layout = (0..LAYOUTS.len())
            .find(|l| *schema(ty, *l) == *out.schema())
            .ok_or("other schema")?;
        let want = batch(ty, layout, &vs[u..u + 1], u);
        for c in 0..want.num_columns() {
            if out.column(c).slice(i, 1).to_data() != want.column(c).to_data() {
                return Err(format!(
                    "row {u}: column {} is {:?}",
                    want.schema().field(c).name(),
                    out.column(c).slice(i, 1)
                ));
            }
        }
    }
    if append {
        got.sort();
        if got != (0..vs.len()).collect::<Vec<_>>() {
            return Err(format!("append-only kept rows {got:?}"));
        }
        return Ok(());
    }
    let mut best: BTreeMap<usize, (i32, usize)> = BTreeMap::new();
    for v in vs {
        let r = (rank(ty, v.ord), v.commit);
        let b = best.entry(v.key).or_insert(r);
        *b = (*b).max(r);
    }
    let mut seen = vec![];
    for u in got {
        let v = vs[u];
        if seen.contains(&v.key) {
            return Err(format!("key {} twice", KEYS[v.key]));
        }
        seen.push(v.key);
        if best[&v.key] != (rank(ty, v.ord), v.commit) {
            return Err(format!("key {}: version {v:?} kept", KEYS[v.key]));
        }
    }
    if seen.len() != best.len() {
        return Err(format!("keys {seen:?} only"));
    }
    Ok(())
}

fn run(rep: &Report, c: &Case) {
    let all = versions(c.keys, c.commits);
    let merger = RecordMerger::new(configs(c.append));
    let sch = schema(c.ty, c.layout);
    let rest = c.n - usize::from(c.head.is_some());
    let mut ix = vec![0usize; rest];
    let mut tick = 0u64;
    loop {
        let mut vs: Vec<V> = c.head.into_iter().collect();
        vs.extend(ix.iter().map(|i| all[*i]));
        // every division into consecutive batches; an empty batch in front, between and behind
        let cuts = if vs.is_empty() { 1 } else { 1 << (vs.len() - 1) };
        for cut in 0..cuts {
            let mut batches = vec![];
            let mut from = 0;
            for i in 0..vs.len() {
                if i + 1 == vs.len() || cut >> i & 1 == 1 {
                    let layout = c.layout + if c.mixed { batches.len() + 1 } else { 0 };
                    batches.push(batch(c.ty, layout % LAYOUTS.len(), &vs[from..=i], from));
                    from = i + 1;
                }
            }
            for empty in 0..if c.n <= 2 { 4 } else { 1 } {
                let mut bs = batches.clone();
                match empty {
                    1 => bs.insert(0, batch(c.ty, c.layout, &[], 0)),
                    2 => bs.push(batch(c.ty, c.layout, &[], 0)),
                    3 => bs.insert(bs.len() / 2, batch(c.ty, c.layout, &[], 0)),
                    _ => {}
                }
                let got = guard(|| merger.merge_record_batches(&sch, &bs).map_err(e))
                    .and_then(|x| x)
                    .and_then(|b| judge(c.ty, c.append, &vs, &b));
                rep.evalv(
                    vs.len() > 1,
                    (c.ty, c.layout, c.append, cut, empty, format!("{vs:?}")),
                );
                if let Err(x) = got {
                    rep.violation(
                        format!("{}: {vs:?} divided {cut:b}: {x}", c.show()),
                        c.show(),
                    );
                    if rep.stop() {
                        return;
                    }
                }
            }
        }
        tick += 1;
        if tick % 4096 == 0 {
            crate::run::beat(rep, || c.show());
        }
        let mut i = 0;
        while i < rest {
            ix[i] += 1;
            if ix[i] < all.len() {
                break;
            }
            ix[i] = 0;
            i += 1;
        }
        if i == rest {
            return;
        }
    }
}

// ---- through file slices ----

#[derive(Clone, Debug)]
struct Slice {
    /// base rows: for each of two keys, whether it is there
    base: usize,
    nlog: usize,
    avro: bool,
    precombine: bool,
}

fn slices(rep: &Report, c: &Slice) {
    use crate::fmt::Row;
    use crate::world::{Cfg, World};
    // versions in the log: key, ordering value relative to the base row's, and how the row is put:
    // into the block before, into a block of its own, or into a file of its own
    let mut cfg = Cfg::mor(1);
    cfg.avro_log = c.avro;
    if !c.precombine {
        // an empty value still is a value
        cfg.extra.push(("hoodie.table.record.merge.strategy".into(), "append_only".into()));
    }
    let mut w = World::new(cfg);
    for _ in 0..c.base {
        w = w.step(&crate::world::Op::Ins(0)).unwrap();
    }
    let _ = &w;
    let opts = 2 * 3 * 3;
    let total = (opts as usize).pow(c.nlog as u32);
    for n in 0..total {
        let mut x = n;
        let mut files = crate::store::Files::new();
        let ts = |i: usize| format!("2024010100000{i}000");
        let id = "00000001-0000-4000-8000-00000000abcd-0";
        let base = format!("{id}_0-1-1_{}.parquet", ts(0));
        let mk = |key: &str, ord: i64, i: usize, seq: usize, val: i64, file: &str| Row {
            key: key.into(),
            val,
            ord,
            part: "a".into(),
            ct: ts(i),
            seq: format!("{}_0_{seq}", ts(i)),
            ppath: "part=a".into(),
            file: file.into(),
        };
        let mut all: Vec<Row> = (0..c.base)
            .map(|k| mk(&format!("k{k}"), 1, 0, k, k as i64, &base))
            .collect();
        files.insert(
            ".hoodie/hoodie.properties".into(),
            crate::world::properties(&w.cfg).into(),
        );
        let commit = |files: &mut crate::store::Files, i: usize, action: &str, stat: serde_json::Value| {
            let v = serde_json::json!({"partitionToWriteStats": {"part=a": [stat]}, "compacted": false,
                "extraMetadata": {"schema": crate::fmt::user_schema(None)}, "operationType": "UPSERT"});
            files.insert(format!(".hoodie/{}.{action}", ts(i)), v.to_string().into());
        };
        files.insert(format!("part=a/{base}"), crate::fmt::parquet(&all, true));
        commit(&mut files, 0, "deltacommit", serde_json::json!({"fileId": id, "path": format!("part=a/{base}"), "prevCommit": "null"}));
        // commits of the log: a new commit whenever a new block starts
        let mut blocks: Vec<(usize, Vec<Row>)> = vec![];
        let mut shape = vec![];
        for j in 0..c.nlog {
            let (k, o, how) = (x % 2, x / 2 % 3, x / 6 % 3);
            x /= opts;
            shape.push((k, o, how));
            // the first row opens a block and a file in any case
            let file = match (blocks.last(), how) {
                (None, _) => 0,
                (Some(b), 2) => b.0 + 1,
                (Some(b), _) => b.0,
            };
            if how > 0 || blocks.is_empty() {
                blocks.push((file, vec![]));
            }
            let i = blocks.len();
            let r = mk(&format!("k{k}"), o as i64, i, j, 100 + j as i64, id);
            blocks.last_mut().unwrap().1.push(r);
        }
        let mut bytes: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for (i, (f, rows)) in blocks.iter().enumerate() {
            bytes
                .entry(*f)
                .or_default()
                .extend(crate::fmt::data_block(&ts(i + 1), rows, c.avro));
            let name = format!(".{id}_{}.log.{}_0-1-1", ts(0), f + 1);
            commit(&mut files, i + 1, "deltacommit", serde_json::json!({"fileId": id, "path": format!("part=a/{name}"),
                "baseFile": base, "logFiles": [name], "prevCommit": ts(0)}));
            all.extend(rows.iter().cloned());
        }
        for (f, b) in bytes {
            let name = format!(".{id}_{}.log.{}_0-1-1", ts(0), f + 1);
            files.insert(format!("part=a/{name}"), b.into());
        }
        // the versions that win
        let want: Vec<String> = if c.precombine {
            let mut best: BTreeMap<String, Row> = BTreeMap::new();
            for r in &all {
                match best.get(&r.key) {
                    Some(b) if (b.ord, &b.seq) >= (r.ord, &r.seq) => {}
                    _ => {
                        best.insert(r.key.clone(), r.clone());
                    }
                }
            }
            let mut v: Vec<String> = best.values().map(|r| r.show()).collect();
            v.sort();
            v
        } else {
            let mut v: Vec<String> = all.iter().map(|r| r.show()).collect();
            v.sort();
            v
        };
        let store = crate::store::Mounted::new(crate::mini::prefixed("t", files));
        let url = store.url();
        let got = q(async {
            let t = open(&url).await?;
            snap(&t).await
        });
        rep.evalv(c.nlog > 0, format!("{c:?} {shape:?}"));
        if got.as_ref() != Ok(&want) {
            rep.violation(
                format!("{c:?} log (key, ordering, place) {shape:?}: {got:?}, expected {want:?}"),
                format!("{c:?}"),
            );
        }
        if rep.stop() {
            return;
        }
    }
}

#[derive(Clone, Debug)]
enum Task {
    Direct(Case),
    Slices(Slice),
}

pub fn c09(rep: &Arc<Report>) {
    let mut t = vec![];
    for ty in 0..TYPES {
        for layout in 0..LAYOUTS.len() {
            for append in [false, true] {
                for n in 0..=2 {
                    t.push(Task::Direct(Case { ty, layout, n, append, mixed: false, head: None, keys: 3, commits: 3 }));
                    t.push(Task::Direct(Case { ty, layout, n, append, mixed: true, head: None, keys: 2, commits: 2 }));
                }
            }
            for v in versions(2, 2) {
                if layout == ty % 4 || rep.thorough {
                    t.push(Task::Direct(Case { ty, layout, n: 3, append: false, mixed: false, head: Some(v), keys: 2, commits: 2 }));
                }
            }
        }
    }
    for v in versions(2, 2) {
        t.push(Task::Direct(Case { ty: 0, layout: 0, n: 4, append: false, mixed: false, head: Some(v), keys: 2, commits: 2 }));
        if rep.thorough {
            t.push(Task::Direct(Case { ty: 3, layout: 1, n: 4, append: false, mixed: false, head: Some(v), keys: 2, commits: 2 }));
            t.push(Task::Direct(Case { ty: 0, layout: 0, n: 4, append: true, mixed: false, head: Some(v), keys: 2, commits: 2 }));
        }
    }
    for base in 0..=2 {
        for nlog in 0..=if rep.thorough { 4 } else { 3 } {
            for avro in [true, false] {
                for precombine in [true, false] {
                    if base == 0 || (!precombine || !avro) && nlog > 2 + usize::from(rep.thorough) {
                        continue;
                    }
                    t.push(Task::Slices(Slice { base, nlog, avro, precombine }));
                }
            }
        }
    }
    let show = |t: &Task| match t {
        Task::Direct(c) => c.show(),
        Task::Slices(c) => format!("{c:?}"),
    };
    t.retain(|x| rep.wants(&show(x)));
    rep.note("merger: all sequences of up to 2 versions of 3 keys, 3 ordering values and null, 3 commits; of 3 versions (thorough: in every column layout) and 4 versions of 2 keys, 2 commits; all divisions into batches; 11 ordering types, 4 column layouts, and batches whose columns are in different orders; both strategies. File slices: base files of 1 or 2 rows and all logs of up to 3 (thorough: 4) versions, each in the block before, a block or a file of its own");
    let r = rep.clone();
    pool(rep, t, 200, show, move |t| match t {
        Task::Direct(c) => run(&r, c),
        Task::Slices(c) => slices(&r, c),
    });
}
