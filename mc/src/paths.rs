//! C21: names on storage.
use crate::mini::{prefixed, vals, Mini};
use crate::q::*;
use crate::report::Report;
use crate::run::pool;
use crate::store::{Files, Mounted};
use arrow_schema::DataType;
use hudi_core::storage::{get_leaf_dirs, Storage};
use hudi_core::table::Table;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A scratch directory that is removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp".into());
        let p = PathBuf::from(format!(
            "{base}/verif-{tag}-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn write_to(dir: &Path, files: &Files) {
    for (k, v) in files {
        let p = dir.join(k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, v).unwrap();
    }
}

/// Pieces of names: plain and special characters, and sequences that look escaped.
const PIECES: [&str; 37] = [
    "a", "é", "日", "🜁", " ", "%", "%20", "%2F", "%25", "%zz", "+", "&", "?", "#", "=", ":", ";", "@", ",",
    ".", "~", "!", "$", "'", "(", "*", "\"", "<", "[", "{", "|", "^", "`", "\\", "-", "_", "..",
];

/// Names of up to `n` pieces.
fn names(n: usize) -> Vec<String> {
    let mut all = BTreeSet::new();
    let mut level = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for l in &level {
            for p in PIECES {
                next.push(format!("{l}{p}"));
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all.into_iter()
        .filter(|s| s != "." && s != ".." && !s.ends_with('/') && s.len() < 200)
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Mc,
    Local,
}

enum Place {
    #[allow(dead_code)]
    Mc(Mounted),
    #[allow(dead_code)]
    Local(Scratch),
}

/// Put the files somewhere; the url of the directory that holds them.
fn place(kind: Kind, files: Files) -> (Place, String) {
    match kind {
        Kind::Mc => {
            let m = Mounted::new(prefixed("t", files));
            let u = m.url();
            (Place::Mc(m), u)
        }
        Kind::Local => {
            let s = Scratch::new("c21");
            write_to(&s.0, &files);
            let u = s.0.to_str().unwrap().to_string();
            (Place::Local(s), u)
        }
    }
}

#[derive(Clone, Debug)]
enum Case {
    /// a folder of each name with a file of each name in it, through the storage layer
    Tree(Kind, Vec<String>, usize),
    /// a table partitioned by these values, at a nesting depth
    Part(Kind, Vec<String>, usize, bool),
    /// a table in a folder of this name
    Base(Kind, String),
    /// depth of nesting of folders
    Deep(Kind),
}

impl Case {
    fn show(&self) -> String {
        match self {
            Case::Tree(k, v, d) => format!("storage {k:?} depth {d} {:?}..", v[0]),
            Case::Part(k, v, d, h) => format!("table {k:?} depth {d} hive {h} {:?}..", v[0]),
            Case::Base(k, v) => format!("base {k:?} {v:?}"),
            Case::Deep(k) => format!("deep {k:?}"),
        }
    }
}

pub async fn storage(url: &str) -> Result<Arc<Storage>, String> {
    let u = hudi_core::storage::util::parse_uri(url).map_err(e)?;
    let c = hudi_core::config::HudiConfigs::new([("hoodie.base.path", u.as_str())]);
    Storage::new(Default::default(), Arc::new(c)).map_err(e)
}

/// The name of a file in the folder `n`. The url crate takes a last segment that ends with a letter and `:` or
/// `|` for a drive, and so LocalFileSystem cannot open such files; they get another name.
fn fname(n: &str) -> String {
    if n.ends_with([':', '|']) {
        format!("{n}.")
    } else {
        n.to_string()
    }
}

fn tree(rep: &Report, c: &Case, kind: Kind, names: &[String], depth: usize) {
    let mut files = Files::new();
    let pre = match depth {
        0 => String::new(),
        1 => format!("{}/", names[names.len() / 2]),
        _ => format!("{}/{}/", names[names.len() / 2], names[0]),
    };
    for n in names {
        files.insert(format!("{pre}{n}/{}", fname(n)), n.clone().into());
        files.insert(format!("{pre}{n}/x.parquet"), "x".into());
        files.insert(format!("{pre}{n}/empty.parquet"), "".into());
    }
    // files beside the folders, too
    let beside = [".top", "top.parquet"];
    for (i, f) in beside.iter().enumerate() {
        files.insert(format!("{pre}{f}"), "12"[..=i].into());
    }
    let (_p, url) = place(kind, files);
    let want: BTreeSet<String> = names.iter().cloned().collect();
    let bad = |what: String| rep.violation(format!("{}: {what}", c.show()), c.show());
    let st = match q(storage(&url)) {
        Ok(s) => s,
        Err(x) => return bad(format!("storage: {x}")),
    };
    let sub = pre.trim_end_matches('/');
    let sub = (!sub.is_empty()).then_some(sub);
    let got = q(async { st.list_dirs(sub).await.map_err(e) });
    rep.evalv(true, (c.show(), "list_dirs"));
    let mut sorted = got.clone();
    if let Ok(v) = &mut sorted {
        v.sort();
    }
    if sorted.as_ref() != Ok(&want.iter().cloned().collect::<Vec<_>>()) {
        let miss: Vec<&String> = match &got {
            Ok(g) => want.iter().filter(|w| !g.contains(w)).collect(),
            Err(_) => vec![],
        };
        let more: Vec<&String> = match &got {
            Ok(g) => g.iter().filter(|w| !want.contains(*w)).collect(),
            Err(_) => vec![],
        };
        return bad(format!(
            "list_dirs({sub:?}): missing {miss:?}, more {more:?} {:?}",
            got.as_ref().err()
        ));
    }
    let leaf = q(async { get_leaf_dirs(&st, sub).await.map_err(e) }).map(|mut v| {
        v.sort();
        v
    });
    let mut w: Vec<String> = names.iter().map(|n| format!("{pre}{n}")).collect();
    w.sort();
    rep.evalv(true, (c.show(), "leaf"));
    if leaf.as_ref() != Ok(&w) {
        bad(format!("get_leaf_dirs({sub:?}): {leaf:?}"));
    }
    let got = q(async { st.list_files(sub).await.map_err(e) }).map(|v| {
        let mut v: Vec<(String, usize)> = v.into_iter().map(|f| (f.name, f.size)).collect();
        v.sort();
        v
    });
    rep.evalv(true, (c.show(), "list_files beside"));
    let w: Vec<(String, usize)> = (1..).zip(beside).map(|(i, f)| (f.to_string(), i)).collect();
    if got.as_ref() != Ok(&w) {
        bad(format!("list_files({sub:?}): {got:?}"));
    }
    for n in names {
        let d = format!("{pre}{n}");
        let got = q(async { st.list_files(Some(&d)).await.map_err(e) }).map(|v| {
            let mut v: Vec<(String, usize)> = v.into_iter().map(|f| (f.name, f.size)).collect();
            v.sort();
            v
        });
        let mut w = vec![(fname(n), n.len()), ("x.parquet".to_string(), 1), ("empty.parquet".to_string(), 0)];
        w.sort();
        rep.evalv(true, (c.show(), "list_files", n));
        if got.as_ref() != Ok(&w) {
            bad(format!("list_files({d:?}): {got:?}"));
        }
        let own = fname(n);
        for (f, want) in [(own.as_str(), n.as_str()), ("x.parquet", "x"), ("empty.parquet", "")] {
            let got = q(async { st.get_file_data(&format!("{d}/{f}")).await.map_err(e) });
            rep.evalv(true, (c.show(), "get", n, f));
            if got.as_ref().map(|b| b.as_ref()) != Ok(want.as_bytes()) {
                bad(format!("get_file_data({d}/{f}): {got:?}"));
            }
        }
        let dirs = q(async { st.list_dirs(Some(&d)).await.map_err(e) });
        if dirs != Ok(vec![]) {
            bad(format!("list_dirs({d:?}): {dirs:?}"));
        }
        if rep.stop() {
            return;
        }
    }
}

fn check_table(rep: &Report, c: &Case, url: &str, m: &Mini, what: &str, filters: bool) {
    let all: Vec<i64> = (0..m.parts.len() as i64).collect();
    let bad = |what: String| rep.violation(format!("{}: {what}", c.show()), c.show());
    let t = match q(open(url)) {
        Ok(t) => t,
        Err(x) => return bad(format!("{what}: open {url:?}: {x}")),
    };
    let name = |r: &Result<Vec<i64>, String>| match r {
        Err(x) => x.clone(),
        Ok(v) => format!(
            "missing {:?} of {}",
            all.iter()
                .filter(|i| !v.contains(i))
                .map(|i| &m.parts[*i as usize].0)
                .collect::<Vec<_>>(),
            all.len()
        ),
    };
    for (k, got) in [
        ("snapshot", q(async { vals(&t.read_snapshot(&[]).await.map_err(e)?) })),
        (
            "incremental",
            q(async { vals(&t.read_incremental_records("20230101000000000", None).await.map_err(e)?) }),
        ),
        ("slices", q(async {
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            let r = t.create_file_group_reader_with_options(Vec::<(String, String)>::new()).map_err(e)?;
            let mut out = vec![];
            for x in &s {
                let p = x.base_file_relative_path().map_err(e)?;
                let want = format!("{}/{}", x.partition_path, x.base_file.file_name());
                if p != want && !x.partition_path.is_empty() {
                    return Err(format!("relative path {p:?} of {want:?}"));
                }
                out.push(r.read_file_slice_by_base_file_path(&p).await.map_err(e)?);
            }
            vals(&out)
        })),
        ("partitions of slices", q(async {
            let s = t.get_file_slices(&[]).await.map_err(e)?;
            let mut v = vec![];
            for x in &s {
                v.push(m.parts.iter().position(|p| p.0 == x.partition_path).ok_or_else(|| format!("partition {:?}", x.partition_path))? as i64);
            }
            v.sort();
            Ok(v)
        })),
    ] {
        rep.evalv(true, (c.show(), k, what.to_string()));
        if got.as_ref() != Ok(&all) {
            bad(format!("{what} at {url:?}: {k}: {}", name(&got)));
        }
    }
    if !filters {
        return;
    }
    for i in 0..m.parts.len() {
        let v = m.parts[i].1.last().unwrap().clone().unwrap();
        let col = &m.fields.last().unwrap().0;
        let got = q(async {
            vals(&t.read_snapshot(&[(col.as_str(), "=", v.as_str())]).await.map_err(e)?)
        });
        rep.evalv(true, (c.show(), "filter", i));
        if got.as_ref() != Ok(&vec![i as i64]) {
            bad(format!("{what}: filter {col} = {v:?}: {got:?}, expected row {i}"));
        }
    }
}

fn part(rep: &Report, c: &Case, kind: Kind, names: &[String], depth: usize, hive: bool) {
    let fields: Vec<(String, DataType)> = ["p", "q", "r"][..depth]
        .iter()
        .map(|s| (s.to_string(), DataType::Utf8))
        .collect();
    let parts = names
        .iter()
        .enumerate()
        .map(|(i, n)| {
            // the outer columns take other names of the list
            let vals: Vec<String> = (0..depth)
                .map(|d| {
                    if d + 1 == depth {
                        n.clone()
                    } else {
                        names[(i * 7 + d + 1) % names.len()].clone()
                    }
                })
                .collect();
            let segs: Vec<String> = vals
                .iter()
                .zip(&fields)
                .map(|(v, f)| if hive { format!("{}={v}", f.0) } else { v.clone() })
                .collect();
            (segs.join("/"), vals.into_iter().map(Some).collect())
        })
        .collect();
    let m = Mini {
        fields: fields.clone(),
        order: (0..depth).collect(),
        parts,
        props: vec![(
            "hoodie.datasource.write.hive_style_partitioning".into(),
            hive.to_string(),
        )],
        ts: "20240101000000000".into(),
    };
    let (_p, url) = place(kind, m.files());
    check_table(rep, c, &url, &m, "table", true);
}

fn plain(ts: &str) -> Mini {
    Mini {
        fields: vec![("p".into(), DataType::Utf8)],
        order: vec![0],
        parts: ["a", "b c", "d%2Fe"]
            .iter()
            .map(|s| (s.to_string(), vec![Some(s.to_string())]))
            .collect(),
        props: vec![],
        ts: ts.into(),
    }
}

/// Percent-encode everything but unreserved characters.
fn enc(s: &str, slash: bool) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) || slash && b == b'/' {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

fn base(rep: &Report, c: &Case, kind: Kind, name: &str) {
    let m = plain("20240101000000000");
    match kind {
        Kind::Mc => {
            // the object store's root, and folders below it
            for dir in [name.to_string(), format!("x/{name}"), format!("{name}/{name}")] {
                let s = Mounted::new(prefixed(&dir, m.files()));
                let root = s.url();
                let root = root.trim_end_matches("/t").to_string();
                let e = enc(&dir, true);
                for u in [format!("{root}/{e}"), format!("{root}/{e}/")] {
                    check_table(rep, c, &u, &m, "url", false);
                }
            }
            // the table is the store itself
            let s = Mounted::new(m.files());
            let root = s.url().trim_end_matches("/t").to_string();
            for u in [root.clone(), format!("{root}/")] {
                check_table(rep, c, &u, &m, "root", false);
            }
        }
        Kind::Local => {
            let s = Scratch::new("c21");
            let dir = s.0.join(name);
            write_to(&dir, &m.files());
            let p = dir.to_str().unwrap().to_string();
            let e = enc(&p, true);
            for u in [
                p.clone(),
                format!("{p}/"),
                format!("file://{e}"),
                format!("file://{e}/"),
                format!("file://localhost{e}"),
            ] {
                if u.starts_with("file://localhost") {
                    continue;
                }
                check_table(rep, c, &u, &m, "location", false);
            }
        }
    }
}

fn deep(rep: &Report, c: &Case, kind: Kind) {
    let bad = |what: String| rep.violation(format!("{}: {what}", c.show()), c.show());
    // every tree of folders in which each folder has up to two children, to depth 4
    fn trees(d: usize) -> Vec<Vec<String>> {
        if d == 0 {
            return vec![vec!["".into()]];
        }
        let sub = trees(d - 1);
        let mut out = vec![vec!["".to_string()]];
        let child = |n: &str, t: &Vec<String>| -> Vec<String> {
            t.iter()
                .map(|l| if l.is_empty() { n.to_string() } else { format!("{n}/{l}") })
                .collect()
        };
        for a in &sub {
            out.push(child("a", a));
            for b in &sub {
                let mut v = child("a", a);
                v.extend(child("b", b));
                out.push(v);
            }
        }
        out
    }
    let ts = trees(if rep.thorough && kind == Kind::Mc { 4 } else { 3 });
    for t in ts {
        crate::run::beat(rep, || c.show());
        // leaves only, files in leaves, and files in the folders above as well
        for above in [false, true] {
            let mut files = Files::new();
            for l in &t {
                let p = if l.is_empty() { "".into() } else { format!("{l}/") };
                files.insert(format!("{p}f"), "1".into());
                if above {
                    let mut at = String::new();
                    for s in l.split('/') {
                        files.insert(format!("{at}g"), "1".into());
                        at.push_str(&format!("{s}/"));
                    }
                }
            }
            if kind == Kind::Local && files.len() > 12 {
                continue;
            }
            let (_p, url) = place(kind, files);
            let got = q(async {
                let s = storage(&url).await?;
                get_leaf_dirs(&s, None).await.map_err(e)
            })
            .map(|mut v| {
                v.sort();
                v
            });
            let mut want = t.clone();
            want.sort();
            rep.evalv(true, (c.show(), t.join(","), above));
            if got.as_ref() != Ok(&want) {
                bad(format!("leaf folders of {t:?}: {got:?}"));
            }
        }
        if rep.stop() {
            return;
        }
    }
    // the folders of lake formats are no partitions at the top, and nothing else is left out
    for (dir, hidden) in [
        (".hoodie", true),
        ("_delta_log", true),
        ("metadata", true),
        (".hoodie2", false),
        ("_delta_log1", false),
        ("_x", false),
        (".x", false),
        ("metadata2", false),
        ("Metadata", false),
        ("_SUCCESS", false),
    ] {
        for depth in [1usize, 2] {
            let mut m = plain("20240101000000000");
            if depth == 2 {
                m.fields.push(("q".into(), DataType::Utf8));
                m.order.push(1);
                for p in &mut m.parts {
                    p.0 = format!("{}/z", p.0);
                    p.1.push(Some("z".into()));
                }
            }
            let mut want = m.clone();
            let seg: Vec<String> = if depth == 1 {
                vec![dir.to_string()]
            } else {
                vec!["z".into(), dir.to_string()]
            };
            let add = (seg.join("/"), seg.iter().cloned().map(Some).collect());
            if hidden && depth == 1 {
                // some other data in the folder, as its owner puts it there
                let mut files = m.files();
                files.insert(format!("{dir}/x/y.parquet"), "?".into());
                let (_p, url) = place(kind, files);
                check_table(rep, c, &url, &m, dir, depth == 1);
            } else {
                want.parts.push(add);
                let (_p, url) = place(kind, want.files());
                check_table(rep, c, &url, &want, dir, depth == 1);
            }
        }
    }
    let _ = Table::get_schema;
}

pub fn c21(rep: &Arc<Report>) {
    let mut cases = vec![];
    let two = names(2);
    let one = names(1);
    // object stores keep names that local file systems reserve: `#` and digits mark unfinished uploads
    for kind in [Kind::Mc, Kind::Local] {
        for depth in 0..3 {
            for ch in two.chunks(64) {
                cases.push(Case::Tree(kind, ch.to_vec(), depth));
            }
        }
        for depth in 1..4 {
            for hive in [false, true] {
                for ch in if depth == 1 || rep.thorough { &two } else { &one }.chunks(40) {
                    cases.push(Case::Part(kind, ch.to_vec(), depth, hive));
                }
            }
        }
        for n in if rep.thorough { &two } else { &one } {
            cases.push(Case::Base(kind, n.clone()));
            if !rep.thorough {
                cases.push(Case::Base(kind, format!("a{n}")));
                cases.push(Case::Base(kind, format!("{n}b")));
            }
        }
        if rep.thorough {
            for ch in names(3).chunks(400) {
                cases.push(Case::Tree(kind, ch.to_vec(), 0));
            }
        }
        cases.push(Case::Deep(kind));
    }
    cases.retain(|c| rep.wants(&c.show()));
    rep.note("all folder and file names of one or two (thorough: three) of 37 pieces (letters, non-ASCII, URL and shell characters, escape-like sequences), at three depths, on an object store and on local files; tables partitioned by one to three columns of such values, hive style or not; tables in folders of such names, the location written as a path or URL, with and without a trailing slash; all folder trees of up to two children and three (thorough: four) levels");
    let r = rep.clone();
    pool(rep, cases, 200, |c| c.show(), move |c| match c {
        Case::Tree(k, v, d) => tree(&r, c, *k, v, *d),
        Case::Part(k, v, d, h) => part(&r, c, *k, v, *d, *h),
        Case::Base(k, n) => base(&r, c, *k, n),
        Case::Deep(k) => deep(&r, c, *k),
    });
}
