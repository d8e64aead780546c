//! C10: which blocks of log files count; C11: damaged log files.
use crate::fmt::*;
use crate::mini::prefixed;
use crate::q::*;
use crate::report::Report;
use crate::run::pool;
use crate::store::{Files, Mounted};
use crate::world::{properties, Cfg};
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const ID: &str = "00000001-0000-4000-8000-00000000abcd-0";
fn ts(i: usize) -> String {
    format!("20240101{:02}0000{:03}", i, (i * 337) % 1000)
}
fn before(i: usize) -> String {
    format!("20240101{:02}0000{:03}", i, (i * 337) % 1000 - 1)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Data(usize),
    Rollback(usize),
}

#[derive(Clone, Debug)]
struct Seq {
    /// blocks, and whether each starts a new file
    blocks: Vec<(B, bool)>,
    /// data instants that completed
    done: BTreeSet<usize>,
    /// log version of the first file; 0: all have version 1, and write tokens that grow
    first: u32,
    avro: bool,
    ninst: usize,
    /// the rollback's instant is before (concurrent writers' clocks) or after the data
    rb_late: bool,
    /// rows that a data block inserts
    bulk: usize,
    /// the write stats name the log file that was written, not the ones before it as well
    own: bool,
}

fn row(key: &str, ord: i64, val: i64, i: usize, seq: usize, file: &str) -> Row {
    Row {
        key: key.into(),
        val,
        ord,
        part: "a".into(),
        ct: ts(i),
        seq: format!("{}_0_{seq}", ts(i)),
        ppath: "part=a".into(),
        file: file.into(),
    }
}

impl Seq {
    fn show(&self) -> String {
        let b: Vec<String> = self
            .blocks
            .iter()
            .map(|(b, n)| {
                let s = match b {
                    B::Data(i) => format!("d{i}"),
                    B::Rollback(i) => format!("r{i}"),
                };
                if *n {
                    format!("|{s}")
                } else {
                    s
                }
            })
            .collect();
        format!(
            "[{}] completed {:?} from version {} {} rollbacks {}{}",
            b.join(" "),
            self.done,
            self.first,
            if self.avro { "avro" } else { "parquet" },
            if self.rb_late { "late" } else { "early" },
            if self.bulk > 1 {
                format!(" {} rows", self.bulk)
            } else if self.own {
                " own files".into()
            } else {
                String::new()
            }
        )
    }
    fn base() -> String {
        format!("{ID}_0-1-1_{}.parquet", ts(0))
    }
    /// The rows that the j-th block holds: an insert and an update of the base row.
    fn rows(&self, j: usize, i: usize) -> Vec<Row> {
        let mut v = vec![row(&format!("n{j}"), 1, 100 + j as i64, i, 2 * j, ID)];
        for n in 1..self.bulk {
            v.push(row(&format!("n{j}-{n}"), 1, 1000 + n as i64, i, 1000 + n, ID));
        }
        // the update of the base row comes last
        v.push(row("k", 10 + j as i64, 200 + j as i64, i, 2 * j + 1, ID));
        v
    }
    fn base_row() -> Row {
        row("k", 1, 0, 0, 0, &Seq::base())
    }
    fn files(&self) -> Files {
        let mut cfg = Cfg::mor(1);
        cfg.avro_log = self.avro;
        let mut f = Files::new();
        f.insert(".hoodie/hoodie.properties".into(), properties(&cfg).into());
        f.insert(
            format!("part=a/{}", Seq::base()),
            parquet(&[Seq::base_row()], true),
        );
        let mut stats: BTreeMap<usize, Vec<serde_json::Value>> = BTreeMap::new();
        stats.entry(0).or_default().push(
            json!({"fileId": ID, "path": format!("part=a/{}", Seq::base()), "prevCommit": "null"}),
        );
        let mut version = self.first;
        let mut so_far: Vec<String> = vec![];
        let mut logs: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for (j, (b, new)) in self.blocks.iter().enumerate() {
            if *new && j > 0 {
                version += 1;
            }
            let name = self.name(version);
            if !so_far.contains(&name) {
                so_far.push(name.clone());
            }
            let bytes = match b {
                B::Data(i) => {
                    let s = stats.entry(*i).or_default();
                    let p = json!({"fileId": ID, "path": format!("part=a/{name}"), "baseFile": Seq::base(),
                        "logFiles": if self.own { std::slice::from_ref(&name) } else { &so_far[..] }, "prevCommit": ts(0)});
                    if !s.iter().any(|x| x["path"] == p["path"]) {
                        s.push(p);
                    }
                    data_block(&ts(*i), &self.rows(j, *i), self.avro)
                }
                B::Rollback(i) => {
                    let t = if self.rb_late { ts(20 + j) } else { before(*i) };
                    rollback_block(&t, &ts(*i))
                }
            };
            logs.entry(version).or_default().extend(bytes);
        }
        for (v, b) in logs {
            f.insert(format!("part=a/{}", self.name(v)), b.into());
        }
        for i in 0..=self.ninst {
            let Some(st) = stats.get(&i) else { continue };
            let c = json!({"partitionToWriteStats": {"part=a": st},
                "compacted": false, "extraMetadata": {"schema": user_schema(None)}, "operationType": "UPSERT"});
            f.insert(format!(".hoodie/{}.deltacommit.requested", ts(i)), "".into());
            f.insert(format!(".hoodie/{}.deltacommit.inflight", ts(i)), "".into());
            if i == 0 || self.done.contains(&i) {
                f.insert(
                    format!(".hoodie/{}.deltacommit", ts(i)),
                    c.to_string().into(),
                );
            }
        }
        f
    }
    fn name(&self, version: u32) -> String {
        if self.first == 0 {
            // files of one version, by several attempts of one task
            return format!(".{ID}_{}.log.1_0-{}-{}", ts(0), 20 + version, 30 + version);
        }
        // the write token need not grow with the version
        format!(".{ID}_{}.log.{version}_{}-1-1", ts(0), 40 - version)
    }
    /// Rows as of `e`, without the blocks `dropped` selects.
    fn merged(&self, keep: impl Fn(usize, usize) -> bool) -> Vec<Row> {
        let mut m: BTreeMap<String, Row> = BTreeMap::new();
        m.insert("k".into(), Seq::base_row());
        for (j, (b, _)) in self.blocks.iter().enumerate() {
            if let B::Data(i) = b {
                if keep(j, *i) {
                    for r in self.rows(j, *i) {
                        if m.get(&r.key).map_or(true, |x| x.ord < r.ord) {
                            m.insert(r.key.clone(), r);
                        }
                    }
                }
            }
        }
        m.into_values().collect()
    }
    fn ascending(&self) -> bool {
        let d: Vec<usize> = self
            .blocks
            .iter()
            .filter_map(|b| match b.0 {
                B::Data(i) => Some(i),
                _ => None,
            })
            .collect();
        d.windows(2).all(|w| w[0] <= w[1])
    }
    fn rolled(&self, i: usize) -> bool {
        self.blocks.iter().any(|b| b.0 == B::Rollback(i))
    }
}

fn shown(v: &[Row]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|r| r.show()).collect();
    v.sort();
    v
}

fn slice_of(s: &Seq, all: bool) -> Result<FileSlice, String> {
    let mut g = hudi_core::file_group::FileGroup::new(ID.into(), "part=a".into());
    g.add_base_file_from_name(&Seq::base()).map_err(e)?;
    if all {
        for f in s.files().keys() {
            if let Some(n) = f.strip_prefix("part=a/.") {
                g.add_log_file_from_name(&format!(".{n}")).map_err(e)?;
            }
        }
    }
    g.get_file_slice_as_of(&ts(90)).cloned().ok_or("no slice".into())
}

fn brief(r: &Result<Vec<String>, String>) -> String {
    match r {
        Ok(v) if v.len() > 20 => format!("{} rows, {:?} ...", v.len(), &v[..3]),
        r => format!("{r:?}"),
    }
}

fn scan(rep: &Report, s: &Seq) {
    let store = Mounted::new(prefixed("t", s.files()));
    let url = store.url();
    let mut windows: Vec<(Option<String>, Option<String>)> = vec![(None, None)];
    let mut marks = vec![];
    for i in 1..=s.ninst {
        marks.push(ts(i));
        if rep.thorough || s.blocks.len() < 3 {
            marks.push(before(i));
        }
    }
    for m in &marks {
        windows.push((None, Some(m.clone())));
    }
    let mut starts = vec![ts(0)];
    starts.extend(marks.iter().cloned());
    for a in &starts {
        for b in &marks {
            if a <= b {
                windows.push((Some(a.clone()), Some(b.clone())));
            }
        }
        windows.push((Some(a.clone()), None));
    }
    let latest = s.done.iter().max().map_or(ts(0), |i| ts(*i));
    let direct = slice_of(s, true);
    for (a, b) in windows {
        // through the table; an interval's file groups are those its commits name, and a commit names the log
        // files that were there when it wrote, so overtaken commits are left to the reader below
        if a.is_none() || s.ascending() {
        let end = b.clone().unwrap_or(latest.clone());
        let keep = |_: usize, i: usize| s.done.contains(&i) && !s.rolled(i) && ts(i) <= end;
        let mut want = s.merged(keep);
        if let Some(a) = &a {
            want.retain(|r| &r.ct > a && r.ct <= end);
        }
        let want = shown(&want);
        let got = q(async {
            let t = open(&url).await?;
            match (&a, &b) {
                (None, None) => snap(&t).await,
                (None, Some(b)) => as_of(&t, b).await,
                (Some(a), b) => inc(&t, a, b.as_deref()).await,
            }
        });
        rep.evalv(
            s.blocks.iter().any(|b| matches!(b.0, B::Data(_))),
            (s.show(), &a, &b),
        );
        if got.as_ref() != Ok(&want) {
            rep.violation(
                format!("{} window ({a:?}, {b:?}]: {}, expected {}", s.show(), brief(&got), brief(&Ok(want))),
                s.show(),
            );
        }
        }
        // through a reader of its own, which knows no timeline
        let keep = |_: usize, i: usize| {
            !s.rolled(i) && b.as_ref().map_or(true, |b| &ts(i) <= b)
        };
        let mut want = s.merged(keep);
        if let Some(a) = &a {
            want.retain(|r| &r.ct > a && b.as_ref().map_or(true, |b| &r.ct <= b));
        }
        let want = shown(&want);
        let mut opts = vec![("hoodie.table.precombine.field".to_string(), "ord".to_string())];
        if let Some(a) = &a {
            opts.push(("hoodie.read.file_group.start_timestamp".into(), a.clone()));
        }
        if let Some(b) = &b {
            opts.push(("hoodie.read.file_group.end_timestamp".into(), b.clone()));
        }
        let got = direct.clone().and_then(|sl| {
            q(async {
                let r = FileGroupReader::new_with_options(&url, opts).map_err(e)?;
                let b = r.read_file_slice(&sl).await.map_err(e)?;
                rows_of(&[b])
            })
        });
        if got.as_ref() != Ok(&want) {
            rep.violation(
                format!(
                    "{} reader, window ({a:?}, {b:?}]: {}, expected {}",
                    s.show(),
                    brief(&got),
                    brief(&Ok(want))
                ),
                s.show(),
            );
        }
        rep.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        rep.validated.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
    }
    rep.transitions
        .fetch_add(s.blocks.len() as u64, std::sync::atomic::Ordering::Relaxed);
}

/// All block sequences of a length: an instant's data does not follow its rollback.
fn seqs(n: usize, ninst: usize) -> Vec<Vec<B>> {
    let mut out: Vec<Vec<B>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &out {
            for i in 1..=ninst {
                if !s.contains(&B::Rollback(i)) {
                    let mut x = s.clone();
                    x.push(B::Data(i));
                    next.push(x);
                    let mut x = s.clone();
                    x.push(B::Rollback(i));
                    next.push(x);
                }
            }
        }
        out = next;
    }
    out
}

pub fn c10(rep: &Arc<Report>) {
    let mut cases = vec![];
    let maxn = if rep.thorough { 5 } else { 4 };
    for n in 0..=maxn {
        let ninst = if n < 4 || n < maxn && rep.thorough { 3 } else { 2 };
        for s in seqs(n, ninst) {
            let rolled: BTreeSet<usize> = s
                .iter()
                .filter_map(|b| match b {
                    B::Rollback(i) => Some(*i),
                    _ => None,
                })
                .collect();
            let used: Vec<usize> = (1..=ninst)
                .filter(|i| s.contains(&B::Data(*i)) && !rolled.contains(i))
                .collect();
            for d in 0..1usize << used.len() {
                let done: BTreeSet<usize> = used
                    .iter()
                    .enumerate()
                    .filter(|(k, _)| d >> k & 1 == 1)
                    .map(|(_, i)| *i)
                    .collect();
                for cut in 0..1usize << n.saturating_sub(1) {
                    let blocks: Vec<(B, bool)> = s
                        .iter()
                        .enumerate()
                        .map(|(j, b)| (*b, j == 0 || cut >> (j - 1) & 1 == 1))
                        .collect();
                    let files = blocks.iter().filter(|b| b.1).count();
                    for first in [1, 9, 0] {
                        // the names of the files matter with several of them only
                        if first != 1 && (files < 2 || n > 3 && !rep.thorough) {
                            continue;
                        }
                        for rb_late in [true, false] {
                            if !rb_late && (rolled.is_empty() || n > 3) {
                                continue;
                            }
                            for avro in [true, false] {
                                if !avro && n > 2 + usize::from(rep.thorough) {
                                    continue;
                                }
                                cases.push(Seq {
                                    blocks: blocks.clone(),
                                    done: done.clone(),
                                    first,
                                    avro,
                                    ninst,
                                    rb_late,
                                    bulk: 1,
                                    own: false,
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    // the same with write stats that name their own log file only
    for i in 0..cases.len() {
        let c = &cases[i];
        if c.ascending() && c.first == 1 && c.avro && c.rb_late && c.blocks.iter().filter(|b| b.1).count() > 1 {
            let mut c = c.clone();
            c.own = true;
            cases.push(c);
        }
    }
    // blocks of many rows: the update of the base row is the last of them
    let mut bulks = vec![1022, 1023, 1024, 2047, 2048, 17000];
    if rep.thorough {
        bulks.extend([10_000, 33_000, 66_000]);
    }
    for bulk in bulks {
        for avro in [true, false] {
            for two in [false, true] {
                cases.push(Seq {
                    blocks: vec![(B::Data(1), true), (B::Data(2), two)],
                    done: [1, 2].into_iter().collect(),
                    first: 1,
                    avro,
                    ninst: 2,
                    rb_late: true,
                    bulk,
                    own: false,
                });
            }
        }
    }
    cases.retain(|c| rep.wants(&c.show()));
    rep.count("block_sequences_in_files", cases.len() as u64);
    rep.note(&format!("all sequences of up to {maxn} data and rollback blocks (each data block inserts a row and updates the base row) over 3 instants (the longest: 2), every division into files, every set of completed instants, log versions from 1 and from 9, and one version with several write tokens, Avro and Parquet; every window of instants and (short sequences) the moments before them; read through the table and through a reader that knows no timeline; write stats that name all log files so far and (Avro) their own only; also two blocks of up to 17000 rows (thorough: 66000)"));
    let r = rep.clone();
    pool(rep, cases, 60, |c| c.show(), move |c| scan(&r, c));
}

// ---- C11 ----

#[derive(Clone, Debug)]
struct Damage {
    blocks: Vec<B>,
    avro: bool,
    /// first byte of the piece of the file that this case damages
    from: usize,
    to: usize,
    cut: bool,
    /// also damage each other byte of the fixed-width framing at the same time
    pairs: bool,
}

impl Damage {
    fn show(&self) -> String {
        format!(
            "{:?} {} {} {}..{}{}",
            self.blocks,
            if self.avro { "avro" } else { "parquet" },
            if self.cut { "cut" } else { "damage" },
            self.from,
            self.to,
            if self.pairs { " pairs" } else { "" }
        )
    }
    fn seq(&self) -> Seq {
        Seq {
            blocks: self.blocks.iter().map(|b| (*b, false)).collect(),
            done: (1..=3)
                .filter(|i| self.blocks.contains(&B::Data(*i)))
                .filter(|i| !self.blocks.contains(&B::Rollback(*i)))
                .collect(),
            first: 1,
            avro: self.avro,
            ninst: 3,
            rb_late: true,
            bulk: 1,
            own: false,
        }
    }
}

/// Where the pieces of the log file lie.
struct Layout {
    /// per block: its bytes
    block: Vec<(usize, usize)>,
    /// per block: its payload
    payload: Vec<(usize, usize)>,
    /// bytes of magic, lengths, version, type, counts, keys
    fixed: Vec<usize>,
}

fn layout(f: &[u8]) -> Layout {
    let u32_at = |p: usize| u32::from_be_bytes(f[p..p + 4].try_into().unwrap()) as usize;
    let mut l = Layout {
        block: vec![],
        payload: vec![],
        fixed: vec![],
    };
    let mut p = 0;
    while p < f.len() {
        let from = p;
        let mut fixed = |p: &mut usize, n: usize| {
            l.fixed.extend(*p..*p + n);
            *p += n;
        };
        fixed(&mut p, 6 + 8 + 4 + 4);
        let n = u32_at(p);
        fixed(&mut p, 4);
        for _ in 0..n {
            let len = u32_at(p + 4);
            fixed(&mut p, 8);
            p += len;
        }
        let len = u64::from_be_bytes(f[p..p + 8].try_into().unwrap()) as usize;
        fixed(&mut p, 8);
        l.payload.push((p, p + len));
        p += len;
        fixed(&mut p, 4 + 8);
        l.block.push((from, p));
    }
    l
}

fn damage(rep: &Report, c: &Damage) {
    let s = c.seq();
    let path = format!("t/part=a/{}", s.name(1));
    let files = prefixed("t", s.files());
    let whole = files[&path].to_vec();
    let lay = layout(&whole);
    let store = Mounted::new(files);
    let url = store.url();
    let open = q(async {
        let t = open(&url).await?;
        let sl = t.get_file_slices(&[]).await.map_err(e)?;
        let r = t
            .create_file_group_reader_with_options(Vec::<(String, String)>::new())
            .map_err(e)?;
        Ok((r, sl))
    });
    let (reader, slices) = match open {
        Ok(x) if x.1.len() == 1 => x,
        x => return rep.violation(format!("{}: open: {:?}", c.show(), x.err()), c.show()),
    };
    let read = |bytes: Vec<u8>| -> Rows {
        store.0.inner.lock().unwrap().files.insert(path.clone(), bytes.into());
        q(async {
            let b = reader.read_file_slice(&slices[0]).await.map_err(e)?;
            rows_of(&[b])
        })
    };
    // the instants that were rolled back never completed
    let kept = |j: usize, i: usize, without: &[usize]| !without.contains(&j) && s.done.contains(&i);
    let mut outcomes: BTreeMap<&'static str, u64> = BTreeMap::new();
    // where the known finding lies: in the text of a header
    let text = |hit: &[usize], p: Option<usize>| {
        hit.len() == 1 && p.is_some_and(|p| !lay.fixed.contains(&p) && !in_payload(&lay, p))
    };
    let mut judge = |what: String, got: Rows, hit: &[usize], payload: bool, at: Option<usize>| {
        rep.evalv(true, (&what, c.avro, format!("{:?}", c.blocks)));
        crate::run::beat(rep, || format!("{} {what}", c.show()));
        match &got {
            Err(x)
                if x.starts_with("PANIC")
                    && (x.contains("Invalid schema name") || x.contains("Invalid namespace"))
                    && text(hit, at) =>
            {
                rep.known("damaged-schema-name-panics")
            }
            Err(x) if x.starts_with("PANIC") => {
                rep.violation(format!("{}: {what}: {x}", c.show()), c.show())
            }
            Err(_) => *outcomes.entry("error").or_default() += 1,
            Ok(_) if payload => *outcomes.entry("payload or text accepted").or_default() += 1,
            Ok(g) => {
                // each of the damaged blocks counts wholly or not at all
                let ok = (0..1usize << hit.len()).any(|m| {
                    let without: Vec<usize> = hit
                        .iter()
                        .enumerate()
                        .filter(|(k, _)| m >> k & 1 == 1)
                        .map(|(_, j)| *j)
                        .collect();
                    &shown(&s.merged(|j, i| kept(j, i, &without))) == g
                });
                if !ok {
                    rep.violation(
                        format!("{}: {what}: garbage {g:?}", c.show()),
                        c.show(),
                    );
                }
                *outcomes.entry("rows").or_default() += 1;
            }
        }
    };
    let block_at = |p: usize| lay.block.iter().position(|b| b.0 <= p && p < b.1).unwrap();
    for p in c.from..c.to.min(whole.len()) {
        if c.cut {
            // the blocks from the cut on are gone
            let hit: Vec<usize> = (block_at(p)..lay.block.len()).collect();
            let got = read(whole[..p].to_vec());
            // what was cut off must not come back, so only the whole blocks before may be read
            let g2 = got.clone();
            judge(format!("cut at {p}"), got, &hit, false, None);
            if let Ok(g) = g2 {
                let want = shown(&s.merged(|j, i| kept(j, i, &hit)));
                if g != want {
                    rep.violation(format!("{}: cut at {p}: {g:?} and not {want:?}, blocks {:?}", c.show(), lay.block), c.show());
                }
            }
            continue;
        }
        if !c.avro && in_payload(&lay, p) {
            continue; // the parquet crate's business
        }
        let values: Vec<u8> = if rep.thorough && !in_payload(&lay, p) || lay.fixed.contains(&p) {
            (0..=255).filter(|v| *v != whole[p]).collect()
        } else {
            (0..8).map(|b| whole[p] ^ (1 << b)).collect()
        };
        if !c.pairs {
            for v in &values {
                let mut b = whole.clone();
                b[p] = *v;
                let got = read(b);
                judge(
                    format!("byte {p} {:#04x} to {v:#04x}", whole[p]),
                    got,
                    &[block_at(p)],
                    !lay.fixed.contains(&p),
                    Some(p),
                );
            }
        } else if lay.fixed.contains(&p) {
            for &p2 in lay.fixed.iter().filter(|x| **x > p) {
                for (v, v2) in [(0, 0), (0xff, 0xff), (0, 0xff), (0xff, 0), (1, 1), (3, 3), (5, 5)] {
                    let mut b = whole.clone();
                    b[p] = if v < 8 { b[p] ^ v | v } else { v };
                    b[p2] = if v2 < 8 { b[p2] ^ v2 | v2 } else { v2 };
                    let got = read(b);
                    let mut hit = vec![block_at(p), block_at(p2)];
                    hit.dedup();
                    judge(format!("bytes {p} to {v:#04x} and {p2} to {v2:#04x}"), got, &hit, false, None);
                }
            }
        }
        if rep.stop() {
            break;
        }
    }
    for (k, n) in outcomes {
        rep.count(k, n);
    }
}

fn in_payload(lay: &Layout, p: usize) -> bool {
    lay.payload.iter().any(|b| b.0 <= p && p < b.1)
}

pub fn c11(rep: &Arc<Report>) {
    use B::*;
    let mut cases = vec![];
    let mut seqs: Vec<(Vec<B>, bool)> = vec![
        (vec![Data(1)], true),
        (vec![Data(1), Data(2)], true),
        (vec![Data(1), Rollback(1), Data(2)], true),
        (vec![Data(1), Data(2)], false),
    ];
    if rep.thorough {
        seqs.push((vec![Data(1), Data(2), Rollback(2), Data(3)], true));
        seqs.push((vec![Data(1), Rollback(1), Data(2)], false));
        seqs.push((vec![Data(1), Data(2), Data(3)], true));
    }
    for (blocks, avro) in seqs {
        let d = Damage {
            blocks: blocks.clone(),
            avro,
            from: 0,
            to: 0,
            cut: false,
            pairs: false,
        };
        let n = d.seq().files()[&format!("part=a/{}", d.seq().name(1))].len();
        for cut in [true, false] {
            for from in (0..n).step_by(64) {
                cases.push(Damage { from, to: from + 64, cut, ..d.clone() });
            }
        }
        if rep.thorough && n < 4000 || blocks.len() == 1 {
            for from in (0..n).step_by(64) {
                cases.push(Damage { from, to: from + 64, pairs: true, ..d.clone() });
            }
        }
    }
    cases.retain(|c| rep.wants(&c.show()));
    rep.note("log files of one to three (thorough: four) blocks: cut at every byte; every value of every byte of the fixed-width framing; every single bit (thorough: every value) of header texts and every single bit of payloads; pairs of framing bytes. Damage of Avro payloads and of header texts is judged for panics, hangs and memory only");
    let r = rep.clone();
    pool(rep, cases, 60, |c| c.show(), move |c| damage(&r, c));
}
