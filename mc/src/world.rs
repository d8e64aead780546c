//! A writer of Hudi v6 tables and, beside it, the reference model: what a reader must see.
//!
//! The reference (`state`, `hist`) is a plain map of rows updated per logical operation. It never looks
//! at file groups, slices or log blocks; those exist only to produce the files.
use crate::fmt::*;
use crate::store::{Files, Mutation};
use bytes::Bytes;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mor: bool,
    /// partition paths and the value of the partition column in each
    pub parts: Vec<(String, String)>,
    pub partitioned: bool,
    pub hive: bool,
    pub ts14: bool,
    /// so many of the first instants have 14 digits: the table was written by an older release before
    pub upgrade: u32,
    pub avro_log: bool,
    pub meta_fields: bool,
    /// the n-th file group of every partition has the same id
    pub same_ids: bool,
    /// every commit writes with a column of its own
    pub evolve: bool,
    /// the commits write a column whose type is promoted, from int to long, float and double
    pub promote: bool,
    pub extra: Vec<(String, String)>,
    /// rows of an insert
    pub bulk: usize,
    /// rows of a row group in base files; 0: all
    pub row_group: usize,
}

impl Cfg {
    pub fn cow(nparts: usize) -> Self {
        let parts = (0..nparts.max(1))
            .map(|i| if i < 26 { ((b'a' + i as u8) as char).to_string() } else { format!("p{i}") })
            .map(|p| (format!("part={p}"), p))
            .collect();
        Cfg {
            mor: false,
            parts,
            partitioned: true,
            hive: true,
            ts14: false,
            upgrade: 0,
            avro_log: true,
            meta_fields: true,
            same_ids: false,
            evolve: false,
            promote: false,
            extra: vec![],
            bulk: 1,
            row_group: 0,
        }
    }
    pub fn nonpart(mor: bool) -> Self {
        Cfg {
            mor,
            parts: vec![("".into(), "a".into())],
            partitioned: false,
            ..Cfg::cow(1)
        }
    }
    pub fn mor(nparts: usize) -> Self {
        Cfg {
            mor: true,
            ..Cfg::cow(nparts)
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{}{}{}{}{}{}{}{}{}{}{}",
            if self.mor { "MOR" } else { "COW" },
            if self.partitioned {
                format!("/{}p", self.parts.len())
            } else {
                "/nonpart".into()
            },
            if self.ts14 { "/ts14" } else { "" },
            if self.upgrade == 0 { String::new() } else { format!("/upgraded{}", self.upgrade) },
            if self.mor && !self.avro_log {
                "/parquetlog"
            } else {
                ""
            },
            if self.meta_fields { "" } else { "/nometa" },
            if self.same_ids { "/sameids" } else { "" },
            if self.evolve { "/evolve" } else if self.promote { "/promote" } else { "" },
            if self.bulk == 1 { String::new() } else { format!("/{}rows", self.bulk) },
            if self.row_group == 0 { String::new() } else { format!("/rg{}", self.row_group) },
            self.extra
                .iter()
                .map(|(k, v)| format!("/{k}={v}"))
                .collect::<String>()
        )
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    /// insert one row into a new file group of a partition
    Ins(usize),
    /// insert one row into a log file of a new file group that has no base file (MOR); this is only
    /// attempted, as such file groups are not supported
    InsL(usize),
    /// update one row (and on COW insert one) in the first live file group of a partition
    Ups(usize),
    /// update the first live file group of every partition, in one commit
    UpsAll,
    /// delete one row from the first live file group of a partition (COW)
    Del(usize),
    /// a late update: its ordering value is lower than the stored one (MOR)
    Late(usize),
    /// insert_overwrite of a partition
    Ow(usize),
    /// delete_partition
    DelP(usize),
    /// clustering of a partition
    Clus(usize),
    /// compaction of every file group with log files (MOR)
    Comp,
    /// a commit that wrote nothing
    Empty,
    /// remove all files of superseded slices and replaced file groups
    Clean,
    /// drop all but the latest instant from the active timeline
    Arch,
    /// the operation crashes after k of its storage mutations
    Fail(Box<Op>, usize),
    /// roll the failed write back
    Rb,
    /// the failed (slow) insert or compaction completes after all
    Fin,
    /// the failed write is left as it is, so that another may fail besides; one left before is
    /// taken up again
    Park,
    /// the last data file of the write that just failed is there in part only: it is empty (0), has
    /// its first 5 bytes (1) or half (2) of it, or lacks its last byte (3) or last 8 bytes (4)
    Tear(usize),
    /// the data files of a write that was rolled back appear after all: a straggling task wrote them
    Zom,
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Fail(o, k) => format!("{}!{k}", o.show()),
            Op::Ins(p) => format!("Ins{p}"),
            Op::InsL(p) => format!("InsL{p}"),
            Op::Ups(p) => format!("Ups{p}"),
            Op::Del(p) => format!("Del{p}"),
            Op::Late(p) => format!("Late{p}"),
            Op::Tear(p) => format!("Tear{p}"),
            Op::Ow(p) => format!("Ow{p}"),
            Op::DelP(p) => format!("DelP{p}"),
            Op::Clus(p) => format!("Clus{p}"),
            o => format!("{o:?}"),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        if let Some((o, k)) = s.split_once('!') {
            return Some(Op::Fail(Box::new(Op::parse(o)?), k.parse().ok()?));
        }
        let cut = s.find(|c: char| c.is_ascii_digit()).unwrap_or(s.len());
        let n = s[cut..].parse::<usize>();
        Some(match (&s[..cut], n) {
            ("Ins", Ok(p)) => Op::Ins(p),
            ("InsL", Ok(p)) => Op::InsL(p),
            ("Ups", Ok(p)) => Op::Ups(p),
            ("Del", Ok(p)) => Op::Del(p),
            ("Late", Ok(p)) => Op::Late(p),
            ("Tear", Ok(p)) => Op::Tear(p),
            ("Ow", Ok(p)) => Op::Ow(p),
            ("DelP", Ok(p)) => Op::DelP(p),
            ("Clus", Ok(p)) => Op::Clus(p),
            ("UpsAll", _) => Op::UpsAll,
            ("Comp", _) => Op::Comp,
            ("Empty", _) => Op::Empty,
            ("Clean", _) => Op::Clean,
            ("Arch", _) => Op::Arch,
            ("Rb", _) => Op::Rb,
            ("Fin", _) => Op::Fin,
            ("Zom", _) => Op::Zom,
            ("Park", _) => Op::Park,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Slice {
    pub ts: String,
    pub base: String,
    /// rows of the base file
    pub base_rows: Vec<Row>,
    /// rows of the slice as merged so far (base and committed log blocks)
    pub rows: Vec<Row>,
    pub has_logs: bool,
}

#[derive(Clone, Debug)]
pub struct Fg {
    pub id: String,
    pub part: usize,
    pub slices: Vec<Slice>,
    pub replaced: Option<String>,
    pub cleaned: bool,
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub ts: String,
    pub action: &'static str,
    pub op_type: &'static str,
    pub snap: Vec<Row>,
    /// the column only this commit wrote
    pub column: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Failed {
    pub ts: String,
    pub action: &'static str,
    pub op_type: &'static str,
    /// mutations that happened, and those that did not
    pub muts: Vec<Mutation>,
    pub rest: Vec<Mutation>,
    pub column: Option<String>,
    /// slices the write would add: the file group it extends, or none, and the group with the slice
    pub slices: Vec<(Option<usize>, Fg)>,
    /// file groups the write would replace, as they were when it began
    pub replaces: Vec<(usize, Fg)>,
    /// a rollback of it has begun
    pub rolling: bool,
    /// its last file is cut off
    pub torn: bool,
}

#[derive(Clone)]
pub struct World {
    pub cfg: Cfg,
    pub files: Files,
    pub fgs: Vec<Fg>,
    pub clock: u32,
    pub nkeys: u32,
    pub hist: Vec<Hist>,
    /// index into hist from which time travel is supported (older versions were cleaned)
    pub from: usize,
    /// instants dropped from the active timeline
    pub archived: Vec<String>,
    pub failed: Option<Failed>,
    /// writes that failed before, and were left
    pub parked: Vec<Failed>,
    /// the last write that was rolled back
    pub rolled: Option<Failed>,
    /// the storage mutations of the last operation, in order
    pub last: Vec<Mutation>,
    /// delta commits that wrote log files of a slice whose compaction was pending
    pub ahead: Vec<String>,
    /// a log file that ends within a block of an unfinished write
    pub torn: Option<String>,
    pub trace: Vec<String>,
}

struct Txn {
    ts: String,
    action: &'static str,
    op_type: &'static str,
    data: Vec<Mutation>,
    stats: BTreeMap<String, Vec<Value>>,
    replaced: BTreeMap<String, Vec<String>>,
    seq: u32,
}

pub fn properties(cfg: &Cfg) -> String {
    let mut p = vec![
        ("hoodie.table.name".to_string(), "t".to_string()),
        (
            "hoodie.table.type".into(),
            if cfg.mor {
                "MERGE_ON_READ"
            } else {
                "COPY_ON_WRITE"
            }
            .into(),
        ),
        ("hoodie.table.version".into(), "6".into()),
        ("hoodie.timeline.layout.version".into(), "1".into()),
        ("hoodie.table.base.file.format".into(), "PARQUET".into()),
        ("hoodie.table.recordkey.fields".into(), "id".into()),
        ("hoodie.table.precombine.field".into(), "ord".into()),
        (
            "hoodie.datasource.write.drop.partition.columns".into(),
            "false".into(),
        ),
        (
            "hoodie.datasource.write.hive_style_partitioning".into(),
            cfg.hive.to_string(),
        ),
        (
            "hoodie.datasource.write.partitionpath.urlencode".into(),
            "false".into(),
        ),
        (
            "hoodie.table.keygenerator.class".into(),
            if cfg.partitioned {
                "org.apache.hudi.keygen.SimpleKeyGenerator"
            } else {
                "org.apache.hudi.keygen.NonpartitionedKeyGenerator"
            }
            .into(),
        ),
    ];
    if cfg.partitioned {
        p.push(("hoodie.table.partition.fields".into(), "part".into()));
    }
    if !cfg.meta_fields {
        p.push(("hoodie.populate.meta.fields".into(), "false".into()));
    }
    for (k, v) in &cfg.extra {
        p.retain(|(a, _)| a != k);
        p.push((k.clone(), v.clone()));
    }
    let mut s = String::from("#Properties\n#Mon Jan 01 00:00:00 UTC 2024\n");
    for (k, v) in p {
        s.push_str(&format!("{k}={v}\n"));
    }
    s
}

fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else {
        format!("{dir}/{name}")
    }
}

impl World {
    pub fn new(cfg: Cfg) -> Self {
        let mut files = Files::new();
        files.insert(
            ".hoodie/hoodie.properties".into(),
            Bytes::from(properties(&cfg)),
        );
        World {
            cfg,
            files,
            fgs: vec![],
            clock: 0,
            nkeys: 0,
            hist: vec![],
            from: 0,
            archived: vec![],
            failed: None,
            parked: vec![],
            rolled: None,
            last: vec![],
            ahead: vec![],
            torn: None,
            trace: vec![],
        }
    }

    pub fn instant(&self, n: u32) -> String {
        // every 37 s, so that minutes and the count of digits that differ vary
        let t = chrono::DateTime::from_timestamp(1_704_067_180 + 37 * n as i64, 0).unwrap();
        if self.cfg.ts14 || n < self.cfg.upgrade {
            t.format("%Y%m%d%H%M%S").to_string()
        } else {
            format!("{}{:03}", t.format("%Y%m%d%H%M%S"), (n * 331 + 5) % 1000)
        }
    }

    pub fn snap(&self) -> Vec<Row> {
        self.hist.last().map(|h| h.snap.clone()).unwrap_or_default()
    }
    pub fn latest(&self) -> Option<&str> {
        self.hist.last().map(|h| h.ts.as_str())
    }

    /// Rows a reader must see as of `ts`.
    pub fn as_of(&self, ts: &str) -> Vec<Row> {
        self.hist
            .iter()
            .rev()
            .find(|h| h.ts.as_str() <= ts)
            .map(|h| h.snap.clone())
            .unwrap_or_default()
    }
    /// Rows inserted or updated in (s, e], in their state as of `e`.
    pub fn between(&self, s: &str, e: &str) -> Vec<Row> {
        self.as_of(e)
            .into_iter()
            .filter(|r| r.ct.as_str() > s && r.ct.as_str() <= e)
            .collect()
    }

    /// The column that only the write at this point has.
    pub fn column(&self) -> Option<String> {
        if self.cfg.promote {
            // its type is promoted
            let t = ["int", "int", "long", "float", "double"];
            return Some(format!("p/{}", t[(self.clock as usize).min(4)]));
        }
        self.cfg.evolve.then(|| format!("v{}", self.clock))
    }

    fn live(&self, p: usize) -> Vec<usize> {
        (0..self.fgs.len())
            .filter(|i| self.fgs[*i].part == p && self.fgs[*i].replaced.is_none())
            .collect()
    }

    /// The instant of a pending compaction that has this file group in its plan.
    fn compacting(&self, fg: usize) -> Option<&str> {
        let f = self.parked.iter().chain(&self.failed).find(|f| {
            f.op_type == "COMPACT"
                && !f.muts.is_empty()
                && f.slices.iter().any(|(i, _)| *i == Some(fg))
        })?;
        Some(f.ts.as_str())
    }

    fn begin(&self, action: &'static str, op_type: &'static str) -> Txn {
        Txn {
            ts: self.instant(self.clock),
            action,
            op_type,
            data: vec![],
            stats: BTreeMap::new(),
            replaced: BTreeMap::new(),
            seq: 0,
        }
    }

    fn row(&mut self, t: &mut Txn, p: usize, key: Option<String>, ord: i64, val: i64) -> Row {
        let key = key.unwrap_or_else(|| {
            self.nkeys += 1;
            format!("k{}", self.nkeys)
        });
        t.seq += 1;
        Row {
            key,
            val,
            ord,
            part: self.cfg.parts[p].1.clone(),
            ct: t.ts.clone(),
            seq: format!("{}_0_{}", t.ts, t.seq),
            ppath: self.cfg.parts[p].0.clone(),
            file: String::new(),
        }
    }

    fn put_base(&mut self, t: &mut Txn, p: usize, fg: Option<usize>, mut rows: Vec<Row>) -> usize {
        let dir = self.cfg.parts[p].0.clone();
        let n = self.fgs.len() as u32 + 1 + self.clock * 100;
        let id = match fg {
            Some(i) => self.fgs[i].id.clone(),
            None if self.cfg.same_ids => {
                let n = self.fgs.iter().filter(|f| f.part == p).count();
                format!("{n:08x}-0000-4000-8000-00000000abcd-0")
            }
            None => format!("{n:08x}-0000-4000-8000-00000000abcd-0"),
        };
        // one task writes the file groups of the same id in all partitions of a commit
        let task = if self.cfg.same_ids { 1 } else { n };
        let base = format!("{id}_0-{}-{task}_{}.parquet", self.clock, t.ts);
        for r in &mut rows {
            r.file = base.clone();
        }
        let prev = fg
            .and_then(|i| self.fgs[i].slices.last().map(|s| s.ts.clone()))
            .unwrap_or("null".into());
        if self.cfg.partitioned {
            let m = join(&dir, ".hoodie_partition_metadata");
            if !self.files.contains_key(&m) {
                t.data.push(Mutation::Put(
                    m,
                    Bytes::from(format!("commitTime={}\npartitionDepth=1\n", t.ts)),
                ));
            }
        }
        let path = join(&dir, &base);
        t.data.push(Mutation::Put(
            path.clone(),
            parquet_with(&rows, self.cfg.meta_fields, self.column().as_deref(), self.cfg.row_group),
        ));
        t.stats.entry(dir.clone()).or_default().push(json!({
            "fileId": id, "path": path, "cdcStats": null, "prevCommit": prev,
            "numWrites": rows.len(), "numDeletes": 0, "partitionPath": dir,
        }));
        let s = Slice {
            ts: t.ts.clone(),
            base,
            base_rows: rows.clone(),
            rows,
            has_logs: false,
        };
        match fg {
            Some(i) => {
                self.fgs[i].slices.push(s);
                i
            }
            None => {
                self.fgs.push(Fg {
                    id,
                    part: p,
                    slices: vec![s],
                    replaced: None,
                    cleaned: false,
                });
                self.fgs.len() - 1
            }
        }
    }

    /// Log files of a slice that exist on storage, in version order.
    pub fn logs_on_storage(&self, fg: usize, slice: usize) -> Vec<(u32, String)> {
        self.logs_of(fg, &self.fgs[fg].slices[slice].ts)
    }
    pub fn logs_of(&self, fg: usize, base_ts: &str) -> Vec<(u32, String)> {
        let f = &self.fgs[fg];
        let pre = join(
            &self.cfg.parts[f.part].0,
            &format!(".{}_{base_ts}.log.", f.id),
        );
        let mut v: Vec<(u32, String)> = self
            .files
            .keys()
            .filter_map(|k| {
                let rest = k.strip_prefix(&pre)?;
                let v = rest.split('_').next()?.parse().ok()?;
                Some((v, k.clone()))
            })
            .collect();
        v.sort();
        v
    }

    fn put_log(&mut self, t: &mut Txn, fg: usize, block: Vec<u8>, stat: bool) {
        let si = self.fgs[fg].slices.len() - 1;
        // while a compaction of the group is pending, log files belong to the slice it will produce
        let (base_ts, base) = match self.compacting(fg) {
            Some(ts) => (ts.to_string(), String::new()),
            None => {
                let s = &self.fgs[fg].slices[si];
                (s.ts.clone(), s.base.clone())
            }
        };
        let logs = self.logs_of(fg, &base_ts);
        let v = logs.last().map(|l| l.0).unwrap_or(0) + 1;
        let f = &self.fgs[fg];
        let dir = self.cfg.parts[f.part].0.clone();
        let name = format!(".{}_{base_ts}.log.{v}_0-{}-{}", f.id, self.clock, v);
        let path = join(&dir, &name);
        t.data.push(Mutation::Put(path.clone(), Bytes::from(block)));
        if stat {
            let mut all: Vec<String> = logs
                .iter()
                .map(|l| l.1.rsplit('/').next().unwrap().to_string())
                .collect();
            all.push(name);
            t.stats.entry(dir.clone()).or_default().push(json!({
                "fileId": f.id, "path": path, "cdcStats": null, "prevCommit": base_ts,
                "partitionPath": dir, "logVersion": v, "logOffset": 0,
                "baseFile": base, "logFiles": all,
            }));
        }
    }

    fn finish(self, before: &World, t: Txn, state: Vec<Row>, k: Option<usize>) -> Option<World> {
        let logged_ahead = t
            .stats
            .values()
            .flatten()
            .any(|s| s["baseFile"].as_str() == Some(""));
        let mut muts = vec![];
        let hd = |s: &str| format!(".hoodie/{}.{s}", t.ts);
        let empty = || Bytes::from_static(b"{}");
        match t.action {
            "commit" if t.op_type == "COMPACT" => {
                muts.push(Mutation::Put(hd("compaction.requested"), empty()));
                muts.push(Mutation::Put(hd("compaction.inflight"), empty()));
            }
            "commit" => {
                muts.push(Mutation::Put(hd("commit.requested"), empty()));
                muts.push(Mutation::Put(hd("inflight"), empty()));
            }
            a => {
                muts.push(Mutation::Put(hd(&format!("{a}.requested")), empty()));
                muts.push(Mutation::Put(hd(&format!("{a}.inflight")), empty()));
            }
        }
        muts.extend(t.data.iter().cloned());
        let mut meta = json!({
            "partitionToWriteStats": t.stats,
            "compacted": t.op_type == "COMPACT",
            "extraMetadata": {"schema": user_schema(before.column().as_deref())},
            "operationType": t.op_type,
        });
        if t.action == "replacecommit" {
            meta["partitionToReplaceFileIds"] = json!(t.replaced);
        }
        muts.push(Mutation::Put(hd(t.action), Bytes::from(meta.to_string())));
        match k {
            Some(k) => {
                // all but the completing mutation may have happened
                if k >= muts.len() {
                    return None;
                }
                let mut w = before.clone();
                for m in &muts[..k] {
                    m.apply(&mut w.files);
                }
                w.clock += 1;
                w.last = muts[..k].to_vec();
                w.nkeys = self.nkeys;
                w.failed = Some(Failed {
                    ts: t.ts,
                    action: t.action,
                    op_type: t.op_type,
                    muts: muts[..k].to_vec(),
                    rest: muts[k..].to_vec(),
                    column: before.column(),
                    slices: self.new_slices(before),
                    replaces: before
                        .fgs
                        .iter()
                        .enumerate()
                        .filter(|(i, f)| f.replaced.is_none() && self.fgs[*i].replaced.is_some())
                        .map(|(i, f)| (i, f.clone()))
                        .collect(),
                    rolling: false,
                    torn: false,
                });
                Some(w)
            }
            None => {
                let mut w = self;
                for m in &muts {
                    m.apply(&mut w.files);
                }
                w.clock += 1;
                w.last = muts.clone();
                let mut snap = state;
                snap.sort();
                if logged_ahead {
                    w.ahead.push(t.ts.clone());
                }
                w.hist.push(Hist {
                    ts: t.ts,
                    action: t.action,
                    op_type: t.op_type,
                    snap,
                    column: before.column(),
                });
                Some(w)
            }
        }
    }

    fn new_slices(&self, before: &World) -> Vec<(Option<usize>, Fg)> {
        let mut v = vec![];
        for (i, f) in self.fgs.iter().enumerate() {
            let had = before.fgs.get(i).map(|b| b.slices.len()).unwrap_or(0);
            if f.slices.len() > had {
                let mut f = f.clone();
                f.slices.drain(..had);
                v.push(((i < before.fgs.len()).then_some(i), f));
            }
        }
        v
    }

    pub fn step(&self, op: &Op) -> Option<World> {
        let mut w = match op {
            Op::Fail(o, k) => {
                if self.failed.is_some() && **o != Op::Rb {
                    return None; // one failed write at a time
                }
                self.do_op(o, Some(*k))?
            }
            o => self.do_op(o, None)?,
        };
        w.trace.push(op.show());
        Some(w)
    }

    fn do_op(&self, op: &Op, k: Option<usize>) -> Option<World> {
        let mut w = self.clone();
        let mut state = self.snap();
        let write = if self.cfg.mor {
            "deltacommit"
        } else {
            "commit"
        };
        let np = self.cfg.parts.len();
        match op {
            Op::Ins(p) => {
                if *p >= np {
                    return None;
                }
                let mut t = w.begin(write, "INSERT");
                let rows = (0..w.cfg.bulk).map(|i| w.row(&mut t, *p, None, 10, 100 + i as i64)).collect();
                let i = w.put_base(&mut t, *p, None, rows);
                state.extend(w.fgs[i].slices[0].rows.clone());
                w.finish(self, t, state, k)
            }
            Op::InsL(p) => {
                if *p >= np || !w.cfg.mor || k.is_none() {
                    return None;
                }
                let mut t = w.begin(write, "UPSERT");
                let mut r = w.row(&mut t, *p, None, 10, 100);
                let id = format!("{:08x}-0000-4000-8000-00000000109f-0", w.clock);
                r.file = id.clone();
                let dir = w.cfg.parts[*p].0.clone();
                let name = format!(".{id}_{}.log.1_0-{}-1", t.ts, w.clock);
                let blk = data_block_with(&t.ts, &[r], w.cfg.avro_log, w.column().as_deref());
                t.data.push(Mutation::Put(join(&dir, &name), Bytes::from(blk)));
                w.finish(self, t, state, k)
            }
            Op::Ups(_) | Op::UpsAll | Op::Late(_) => {
                let ps: Vec<usize> = match op {
                    Op::Ups(p) | Op::Late(p) => vec![*p],
                    _ => (0..np).collect(),
                };
                let late = matches!(op, Op::Late(_));
                if late && !w.cfg.mor || (ps.len() == 1 && matches!(op, Op::UpsAll)) {
                    return None;
                }
                let mut t = w.begin(write, "UPSERT");
                for p in ps {
                    let Some(&i) = w.live(p).first() else {
                        if matches!(op, Op::UpsAll) {
                            continue;
                        }
                        return None;
                    };
                    let old = w.fgs[i].slices.last().unwrap().rows.clone();
                    let Some(victim) = old.first().cloned() else {
                        return None;
                    };
                    let d = if late { -5 } else { 10 };
                    let mut r = w.row(
                        &mut t,
                        p,
                        Some(victim.key.clone()),
                        victim.ord + d,
                        victim.val + d,
                    );
                    if w.cfg.mor {
                        r.file = w.fgs[i].id.clone();
                        let blk = data_block_with(&t.ts, std::slice::from_ref(&r), w.cfg.avro_log, w.column().as_deref());
                        w.put_log(&mut t, i, blk, true);
                        let s = w.fgs[i].slices.last_mut().unwrap();
                        s.has_logs = true;
                        if !late {
                            for x in &mut s.rows {
                                if x.key == r.key {
                                    *x = r.clone();
                                }
                            }
                            for x in &mut state {
                                if x.key == r.key {
                                    *x = r.clone();
                                }
                            }
                        }
                    } else {
                        let extra = w.row(&mut t, p, None, 10, 100);
                        let mut rows: Vec<Row> = old
                            .iter()
                            .map(|x| if x.key == r.key { r.clone() } else { x.clone() })
                            .collect();
                        rows.push(extra);
                        w.put_base(&mut t, p, Some(i), rows);
                        let rows = &w.fgs[i].slices.last().unwrap().rows;
                        state.retain(|x| !rows.iter().any(|y| y.key == x.key));
                        state.extend(rows.clone());
                    }
                }
                if t.stats.is_empty() {
                    return None;
                }
                w.finish(self, t, state, k)
            }
            Op::Del(p) => {
                if w.cfg.mor {
                    return None;
                }
                let &i = w.live(*p).first()?;
                let mut rows = w.fgs[i].slices.last().unwrap().rows.clone();
                let gone = rows.pop()?;
                let mut t = w.begin(write, "DELETE");
                w.put_base(&mut t, *p, Some(i), rows);
                let rows = &w.fgs[i].slices.last().unwrap().rows;
                state.retain(|x| x.key != gone.key && !rows.iter().any(|y| y.key == x.key));
                state.extend(rows.clone());
                w.finish(self, t, state, k)
            }
            Op::Ow(p) | Op::DelP(p) | Op::Clus(p) => {
                if *p >= np {
                    return None;
                }
                let old = w.live(*p);
                if old.is_empty() || old.iter().any(|i| w.compacting(*i).is_some()) {
                    return None;
                }
                let (ty, del) = match op {
                    Op::Ow(_) => ("INSERT_OVERWRITE", false),
                    Op::DelP(_) => ("DELETE_PARTITION", true),
                    _ => ("cluster", false),
                };
                let mut t = w.begin("replacecommit", ty);
                let mut rows: Vec<Row> = vec![];
                if matches!(op, Op::Clus(_)) {
                    for i in &old {
                        rows.extend(w.fgs[*i].slices.last().unwrap().rows.clone());
                    }
                } else if !del {
                    rows.push(w.row(&mut t, *p, None, 10, 200));
                }
                let path = w.cfg.parts[*p].0.clone();
                state.retain(|x| x.ppath != path);
                for i in &old {
                    w.fgs[*i].replaced = Some(t.ts.clone());
                    let id = w.fgs[*i].id.clone();
                    t.replaced.entry(path.clone()).or_default().push(id);
                }
                if !del {
                    let i = w.put_base(&mut t, *p, None, rows);
                    state.extend(w.fgs[i].slices[0].rows.clone());
                }
                w.finish(self, t, state, k)
            }
            Op::Comp => {
                // compaction is not scheduled while an earlier write is pending
                if !w.cfg.mor || w.failed.is_some() || !w.parked.is_empty() {
                    return None;
                }
                let todo: Vec<usize> = (0..w.fgs.len())
                    .filter(|i| {
                        w.fgs[*i].replaced.is_none() && w.fgs[*i].slices.last().unwrap().has_logs
                    })
                    .collect();
                if todo.is_empty() {
                    return None;
                }
                let mut t = w.begin("commit", "COMPACT");
                for i in todo {
                    let rows = w.fgs[i].slices.last().unwrap().rows.clone();
                    let p = w.fgs[i].part;
                    w.put_base(&mut t, p, Some(i), rows);
                    let rows = &w.fgs[i].slices.last().unwrap().rows;
                    state.retain(|x| !rows.iter().any(|y| y.key == x.key));
                    state.extend(rows.clone());
                }
                w.finish(self, t, state, k)
            }
            Op::Empty => {
                let t = w.begin(write, "UPSERT");
                w.finish(self, t, state, k)
            }
            Op::Clean => {
                if w.hist.is_empty() || w.failed.is_some() || w.parked.iter().any(|f| f.op_type == "COMPACT") {
                    return None;
                }
                let mut gone = vec![];
                for i in 0..w.fgs.len() {
                    let n = w.fgs[i].slices.len();
                    let keep = usize::from(w.fgs[i].replaced.is_none());
                    if w.fgs[i].cleaned || n <= keep {
                        continue;
                    }
                    let dir = w.cfg.parts[w.fgs[i].part].0.clone();
                    for s in 0..n - keep {
                        gone.push(join(&dir, &w.fgs[i].slices[s].base));
                        for (_, l) in w.logs_on_storage(i, s) {
                            gone.push(l);
                        }
                    }
                    w.fgs[i].slices.drain(..n - keep);
                    if keep == 0 {
                        w.fgs[i].cleaned = k.is_none();
                    }
                }
                if gone.is_empty() {
                    return None;
                }
                let ts = w.instant(w.clock);
                let mut muts = vec![
                    Mutation::Put(format!(".hoodie/{ts}.clean.requested"), Bytes::from("x")),
                    Mutation::Put(format!(".hoodie/{ts}.clean.inflight"), Bytes::from("x")),
                ];
                muts.extend(gone.into_iter().map(Mutation::Del));
                muts.push(Mutation::Put(
                    format!(".hoodie/{ts}.clean"),
                    Bytes::from("x"),
                ));
                let n = match k {
                    Some(k) if k >= muts.len() => return None,
                    Some(k) => k,
                    None => muts.len(),
                };
                for m in &muts[..n] {
                    m.apply(&mut w.files);
                }
                w.clock += 1;
                w.last = muts[..n].to_vec();
                w.from = w.hist.len() - 1;
                Some(w)
            }
            Op::Arch => {
                if w.hist.len() < 2 || w.failed.is_some() || !w.parked.is_empty() {
                    return None;
                }
                // replaced file groups must have been cleaned before their replacecommit is archived
                let keep = w.hist.last().unwrap().ts.clone();
                if w.fgs
                    .iter()
                    .any(|f| matches!(&f.replaced, Some(r) if *r < keep) && !f.cleaned)
                {
                    return None;
                }
                let gone: Vec<String> = w
                    .files
                    .keys()
                    .filter(|p| {
                        p.strip_prefix(".hoodie/")
                            .and_then(|n| n.split('.').next())
                            .is_some_and(|t| t.starts_with("20") && t < keep.as_str())
                    })
                    .cloned()
                    .collect();
                if gone.is_empty() {
                    return None;
                }
                // completed instants go last, as the archiver does
                let mut gone = gone;
                gone.sort_by_key(|p| {
                    (
                        !(p.ends_with(".requested") || p.ends_with(".inflight")),
                        p.clone(),
                    )
                });
                let n = match k {
                    Some(k) if k >= gone.len() => return None,
                    Some(k) => k,
                    None => gone.len(),
                };
                w.last = gone[..n].iter().cloned().map(Mutation::Del).collect();
                for p in &gone[..n] {
                    w.files.remove(p);
                    w.archived.push(p.clone());
                }
                if n == gone.len() {
                    w.from = w.hist.len() - 1;
                }
                Some(w)
            }
            Op::Rb => {
                let f = w.failed.clone()?;
                if f.slices.iter().any(|(i, _)| {
                    i.is_some_and(|i| f.op_type == "COMPACT" && !w.logs_of(i, &f.ts).is_empty())
                }) {
                    return None; // log files were written against the compaction
                }
                let mut t = w.begin("rollback", "");
                for m in &f.muts {
                    if let Mutation::Put(p, _) = m {
                        if p.starts_with(".hoodie/") || p.ends_with(".hoodie_partition_metadata") {
                            continue;
                        }
                        if p.ends_with(".parquet") {
                            t.data.push(Mutation::Del(p.clone()));
                        } else {
                            let fg = (0..w.fgs.len())
                                .find(|i| p.contains(&format!(".{}_", w.fgs[*i].id)));
                            let Some(fg) = fg else {
                                t.data.push(Mutation::Del(p.clone()));
                                continue;
                            };
                            let blk = rollback_block(&t.ts, &f.ts);
                            w.put_log(&mut t, fg, blk, false);
                        }
                    }
                }
                let ts = t.ts.clone();
                let mut muts = vec![
                    Mutation::Put(format!(".hoodie/{ts}.rollback.requested"), Bytes::from("x")),
                    Mutation::Put(format!(".hoodie/{ts}.rollback.inflight"), Bytes::from("x")),
                ];
                muts.extend(t.data);
                for m in f.muts.iter().rev() {
                    if let Mutation::Put(p, _) = m {
                        if p.starts_with(".hoodie/") {
                            muts.push(Mutation::Del(p.clone()));
                        }
                    }
                }
                muts.push(Mutation::Put(
                    format!(".hoodie/{ts}.rollback"),
                    Bytes::from("x"),
                ));
                let n = match k {
                    Some(k) if k >= muts.len() => return None,
                    Some(k) => k,
                    None => muts.len(),
                };
                for m in &muts[..n] {
                    m.apply(&mut w.files);
                }
                w.clock += 1;
                w.last = muts[..n].to_vec();
                if n == muts.len() {
                    w.rolled = w.failed.take();
                } else {
                    w.failed.as_mut().unwrap().rolling = true;
                }
                Some(w)
            }
            Op::Tear(c) => {
                let f = w.failed.as_mut()?;
                if k.is_some() || f.torn || f.rolling || !self.trace.last()?.contains('!') {
                    return None;
                }
                let Some(Mutation::Put(p, b)) = f.muts.last() else {
                    return None;
                };
                if p.starts_with(".hoodie/") || p.ends_with("_metadata") {
                    return None;
                }
                let n = [0, 5, b.len() / 2, b.len() - 1, b.len() - 8][*c];
                let m = Mutation::Put(p.clone(), b.slice(..n));
                if *c > 1 && p.contains(".log.") {
                    w.torn = Some(p.clone());
                }
                f.torn = true;
                m.apply(&mut w.files);
                w.last = vec![m];
                Some(w)
            }
            Op::Park => {
                if k.is_some() || self.trace.last()? == "Park" {
                    return None;
                }
                match w.failed.take() {
                    Some(f) if f.torn || f.rolling => return None,
                    Some(f) => {
                        w.failed = w.parked.pop();
                        w.parked.push(f);
                    }
                    None => w.failed = Some(w.parked.pop()?),
                }
                w.last = vec![];
                Some(w)
            }
            Op::Zom => {
                let f = w.rolled.take()?;
                if f.torn {
                    return None;
                }
                // from before the first instant of the timeline, it would count as committed
                if k.is_some() || !w.archived.is_empty() || w.hist.first().map_or(true, |h| h.ts > f.ts) {
                    return None;
                }
                w.last = f
                    .muts
                    .iter()
                    .chain(&f.rest)
                    .filter(|m| matches!(m, Mutation::Put(p, _) if !p.starts_with(".hoodie/") && !w.files.contains_key(p)))
                    .cloned()
                    .collect();
                if w.last.is_empty() {
                    return None;
                }
                for m in w.last.clone() {
                    m.apply(&mut w.files);
                }
                Some(w)
            }
            Op::Fin => {
                let f = w.failed.clone()?;
                if k.is_some()
                    || f.muts.is_empty()
                    || f.rolling
                    || f.torn
                    || !["INSERT", "COMPACT", "INSERT_OVERWRITE", "cluster", "DELETE_PARTITION"]
                        .contains(&f.op_type)
                {
                    return None;
                }
                // a replacement does not complete if what it replaces was written to since
                for (i, was) in &f.replaces {
                    let is = &w.fgs[*i];
                    let last = |f: &Fg| f.slices.last().map(|s| (s.ts.clone(), show(&s.rows)));
                    if is.replaced.is_some() || last(is) != last(was) {
                        return None;
                    }
                }
                for m in &f.rest {
                    m.apply(&mut w.files);
                }
                w.last = f.rest.clone();
                let mut new: Vec<Row> = vec![];
                let mut old: std::collections::BTreeSet<String> = Default::default();
                for (i, g) in &f.replaces {
                    old.extend(g.slices.last().unwrap().rows.iter().map(|r| r.key.clone()));
                    w.fgs[*i].replaced = Some(f.ts.clone());
                }
                for (i, g) in &f.slices {
                    let s = &g.slices[0];
                    new.extend(s.rows.clone());
                    match i {
                        None => w.fgs.push(g.clone()),
                        Some(i) => {
                            let mut rows = w.fgs[*i].slices.last().unwrap().rows.clone();
                            moved(&mut rows, &s.rows);
                            let mut s = s.clone();
                            s.rows = rows;
                            s.has_logs = !w.logs_of(*i, &f.ts).is_empty();
                            w.fgs[*i].slices.push(s);
                        }
                    }
                }
                let mut snap = self.as_of(&f.ts);
                let compaction = f.op_type == "COMPACT";
                let at = w.hist.iter().take_while(|h| h.ts < f.ts).count();
                for s in
                    std::iter::once(&mut snap).chain(w.hist[at..].iter_mut().map(|h| &mut h.snap))
                {
                    if compaction {
                        moved(s, &new);
                    } else {
                        s.retain(|r| !old.contains(&r.key));
                        s.extend(new.clone());
                    }
                    s.sort();
                }
                w.hist.insert(
                    at,
                    Hist {
                        ts: f.ts,
                        action: f.action,
                        op_type: f.op_type,
                        snap,
                        column: f.column,
                    },
                );
                w.failed = None;
                Some(w)
            }
            Op::Fail(..) => None,
        }
    }

    /// Rows as text; without meta fields those columns are null.
    pub fn shown(&self, rows: &[Row]) -> Vec<String> {
        if self.cfg.meta_fields {
            return show(rows);
        }
        let mut v: Vec<String> = rows
            .iter()
            .map(|r| format!("∅|∅|{}|∅|∅|{}|{}|{}", r.key, r.val, r.ord, r.part))
            .collect();
        v.sort();
        v
    }

    /// Rows as of an instant as the base files alone hold them.
    pub fn base_as_of(&self, ts: &str) -> Vec<Row> {
        self.fgs
            .iter()
            .filter(|f| !f.replaced.as_ref().is_some_and(|r| r.as_str() <= ts))
            .filter_map(|f| f.slices.iter().rev().find(|s| s.ts.as_str() <= ts))
            .flat_map(|s| s.base_rows.clone())
            .collect()
    }

    /// The base files of the latest snapshot.
    pub fn live_slices(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .fgs
            .iter()
            .filter(|f| f.replaced.is_none())
            .map(|f| {
                format!(
                    "{}/{}",
                    self.cfg.parts[f.part].0,
                    f.slices.last().unwrap().base
                )
            })
            .collect();
        v.sort();
        v
    }

    /// Rows of the latest snapshot as the base files alone hold them.
    pub fn base_snap(&self) -> Vec<Row> {
        self.fgs
            .iter()
            .filter(|f| f.replaced.is_none())
            .flat_map(|f| f.slices.last().unwrap().base_rows.clone())
            .collect()
    }

    /// The table's files under the store root `t/`.
    pub fn mounted(&self) -> Files {
        self.files
            .iter()
            .map(|(k, v)| (format!("t/{k}"), v.clone()))
            .collect()
    }
}

/// A compaction moved these versions of rows to new files.
fn moved(rows: &mut [Row], new: &[Row]) {
    for r in rows {
        if let Some(n) = new.iter().find(|n| n.key == r.key && n.seq == r.seq) {
            r.file = n.file.clone();
        }
    }
}

pub fn show(rows: &[Row]) -> Vec<String> {
    let mut v: Vec<String> = rows.iter().map(|r| r.show()).collect();
    v.sort();
    v
}
