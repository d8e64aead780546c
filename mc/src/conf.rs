//! C13: options are resolved by precedence, and parsed or rejected.
use crate::fmt::*;
use crate::mini::*;
use crate::paths::Scratch;
use crate::q::*;
use crate::report::Report;
use crate::run::guard;
use crate::store::{Files, Mounted};
use bytes::Bytes;
use hudi_core::config::read::HudiReadConfig as R;
use hudi_core::config::table::HudiTableConfig as T;
use hudi_core::config::util::{parse_data_for_options, split_hudi_options_from_others};
use hudi_core::config::{ConfigParser, HudiConfigValue, HudiConfigs};
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Bool,
    Int,
    Uint,
    Str,
    List,
    /// accepted spellings (in any case) and what they mean
    Enum(&'static [(&'static str, &'static str)]),
}
#[derive(Clone, Copy)]
struct Opt {
    key: &'static str,
    kind: Kind,
    default: Option<&'static str>,
    values: &'static [&'static str],
    get: fn(&HudiConfigs) -> Got,
}
/// What the typed accessors say: `get`, `try_get`, and `get_or_default` where there is a default.
struct Got {
    get: Result<String, String>,
    try_get: Option<String>,
    or_default: Result<String, String>,
}

fn show(v: HudiConfigValue) -> String {
    match v {
        HudiConfigValue::Boolean(b) => b.to_string(),
        HudiConfigValue::Integer(i) => i.to_string(),
        HudiConfigValue::UInteger(i) => i.to_string(),
        HudiConfigValue::String(s) => s,
        HudiConfigValue::List(l) => format!("{l:?}"),
    }
}
fn got(c: &HudiConfigs, p: impl Fn() -> Box<dyn Fn(&HudiConfigs, u8) -> Result<Option<String>, String>>) -> Got {
    let f = p();
    Got {
        get: guard(|| f(c, 0)).and_then(|x| x).map(|x| x.unwrap()),
        try_get: guard(|| f(c, 1)).and_then(|x| x).unwrap_or(Some("panic".into())),
        or_default: guard(|| f(c, 2)).and_then(|x| x).map(|x| x.unwrap()),
    }
}
fn access<P: ConfigParser<Output = HudiConfigValue> + Clone + 'static>(
    p: P,
) -> Box<dyn Fn(&HudiConfigs, u8) -> Result<Option<String>, String>> {
    Box::new(move |c, how| match how {
        0 => c.get(p.clone()).map(|v| Some(show(v))).map_err(|x| x.to_string()),
        1 => Ok(c.try_get(p.clone()).map(show)),
        _ => Ok(Some(show(c.get_or_default(p.clone())))),
    })
}
macro_rules! opt {
    ($key:literal, $kind:expr, $default:expr, $values:expr, $p:expr) => {
        Opt {
            key: $key,
            kind: $kind,
            default: $default,
            values: $values,
            get: |c| got(c, || access($p)),
        }
    };
}

const BOOLS: &[&str] = &["true", "false"];
const STRS: &[&str] = &["a", "b", "c"];
const LISTS: &[&str] = &["id", "part,id", "id,part"];
const COW: &[(&str, &str)] = &[
    ("copy_on_write", "COPY_ON_WRITE"),
    ("copy-on-write", "COPY_ON_WRITE"),
    ("cow", "COPY_ON_WRITE"),
    ("merge_on_read", "MERGE_ON_READ"),
    ("merge-on-read", "MERGE_ON_READ"),
    ("mor", "MERGE_ON_READ"),
];

fn opts() -> Vec<Opt> {
    use Kind::*;
    vec![
        opt!("hoodie.table.base.file.format", Enum(&[("parquet", "parquet")]), Some("parquet"), &["parquet", "PARQUET"], T::BaseFileFormat),
        opt!("hoodie.table.checksum", Int, None, &["1", "-2", "3"], T::Checksum),
        opt!("hoodie.database.name", Str, Some("default"), STRS, T::DatabaseName),
        opt!("hoodie.datasource.write.drop.partition.columns", Bool, Some("false"), BOOLS, T::DropsPartitionFields),
        opt!("hoodie.datasource.write.hive_style_partitioning", Bool, None, BOOLS, T::IsHiveStylePartitioning),
        opt!("hoodie.datasource.write.partitionpath.urlencode", Bool, None, BOOLS, T::IsPartitionPathUrlencoded),
        opt!("hoodie.table.keygenerator.class", Str, None, STRS, T::KeyGeneratorClass),
        opt!("hoodie.table.partition.fields", List, Some("[]"), LISTS, T::PartitionFields),
        opt!("hoodie.table.precombine.field", Str, None, STRS, T::PrecombineField),
        opt!("hoodie.populate.meta.fields", Bool, Some("true"), BOOLS, T::PopulatesMetaFields),
        opt!("hoodie.table.recordkey.fields", List, None, LISTS, T::RecordKeyFields),
        opt!("hoodie.table.record.merge.strategy", Enum(&[("append_only", "append_only"), ("overwrite_with_latest", "overwrite_with_latest")]), None, &["append_only", "overwrite_with_latest"], T::RecordMergeStrategy),
        opt!("hoodie.table.name", Str, None, STRS, T::TableName),
        opt!("hoodie.table.type", Enum(COW), None, &["cow", "MERGE_ON_READ"], T::TableType),
        opt!("hoodie.table.version", Int, None, &["5", "6", "8"], T::TableVersion),
        opt!("hoodie.timeline.layout.version", Int, None, &["1", "2"], T::TimelineLayoutVersion),
        opt!("hoodie.table.timeline.timezone", Enum(&[("utc", "utc"), ("local", "local")]), Some("utc"), &["UTC", "local"], T::TimelineTimezone),
        opt!("hoodie.read.file_group.start_timestamp", Str, None, STRS, R::FileGroupStartTimestamp),
        opt!("hoodie.read.file_group.end_timestamp", Str, None, STRS, R::FileGroupEndTimestamp),
        opt!("hoodie.read.input.partitions", Uint, Some("0"), &["1", "2", "30"], R::InputPartitions),
        opt!("hoodie.read.listing.parallelism", Uint, Some("10"), &["1", "2", "30"], R::ListingParallelism),
        opt!("hoodie.read.use.read_optimized.mode", Bool, Some("false"), BOOLS, R::UseReadOptimizedMode),
    ]
}

#[derive(Debug, PartialEq)]
enum Parsed {
    Value(String),
    /// may be rejected; if not, it has this meaning
    Either(String),
    Bad,
}
fn parse(o: &Opt, v: &str) -> Parsed {
    use Parsed::*;
    match o.kind {
        Kind::Str => Value(v.to_string()),
        Kind::List if v.is_empty() => Either(format!("{:?}", vec![""])),
        Kind::List => Value(format!("{:?}", v.split(',').collect::<Vec<_>>())),
        Kind::Bool => {
            let t = v.trim().to_ascii_lowercase();
            match (v, t.as_str()) {
                ("true" | "false", _) => Value(v.into()),
                (_, "true" | "false") => Either(t),
                _ => Bad,
            }
        }
        Kind::Int | Kind::Uint => {
            let t = v.trim();
            let Ok(n) = t.parse::<i128>() else { return Bad };
            if n > i64::MAX as i128 && o.kind == Kind::Int
                || n > u64::MAX as i128
                || n < i64::MIN as i128
                || n < 0 && o.kind == Kind::Uint
            {
                return Bad;
            }
            if n.to_string() == v {
                Value(v.into())
            } else {
                Either(n.to_string())
            }
        }
        Kind::Enum(e) => {
            let t = v.trim().to_ascii_lowercase();
            match e.iter().find(|x| x.0 == t) {
                Some(x) if t.len() == v.len() => Value(x.1.into()),
                Some(x) => Either(x.1.into()),
                None => Bad,
            }
        }
    }
}

/// Whether a table with these options may be opened: Some(true) must, Some(false) must not.
fn acceptable(all: &[Opt], m: &BTreeMap<String, String>) -> Option<bool> {
    let mut sure = true;
    let mut v: BTreeMap<&str, String> = BTreeMap::new();
    for o in all {
        match m.get(o.key).map(|x| parse(o, x)) {
            Some(Parsed::Bad) => return Some(false),
            Some(Parsed::Either(x)) => {
                sure = false;
                v.insert(o.key, x);
            }
            Some(Parsed::Value(x)) => {
                v.insert(o.key, x);
            }
            None => {}
        }
    }
    let is = |k: &str, x: &str| v.get(k).map(|s| s.as_str()) == Some(x);
    for k in ["hoodie.table.name", "hoodie.table.type"] {
        if !v.contains_key(k) {
            return Some(false);
        }
    }
    let ok = (is("hoodie.table.version", "5") || is("hoodie.table.version", "6"))
        && is("hoodie.timeline.layout.version", "1")
        && !is("hoodie.datasource.write.drop.partition.columns", "true");
    let latest = is("hoodie.table.record.merge.strategy", "overwrite_with_latest");
    let merge = !(latest && (is("hoodie.populate.meta.fields", "false") || !v.contains_key("hoodie.table.precombine.field")));
    if !ok || !merge {
        return Some(false);
    }
    if sure {
        Some(true)
    } else {
        None
    }
}

/// Where an option is set, highest rank first: the table's properties, options for the table,
/// general options, the global defaults file.
const P: usize = 0;
const H: usize = 1;
const O: usize = 2;
const G: usize = 3;

struct World {
    dir: Scratch,
    base: Files,
    all: Vec<Opt>,
    conf: String,
    mounted: Mounted,
    local: std::path::PathBuf,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Single,
    Plural,
    /// set to something else first
    Twice,
}

impl World {
    fn new() -> World {
        let dir = Scratch::new("c13");
        let m = Mini {
            fields: vec![("part".into(), arrow_schema::DataType::Utf8)],
            order: vec![0],
            parts: vec![("part=a".into(), vec![Some("a".into())])],
            props: vec![("hoodie.datasource.write.hive_style_partitioning".into(), "true".into())],
            ts: "20240101000000000".into(),
        };
        let base = m.files();
        let conf = dir.0.join("conf");
        std::fs::create_dir_all(&conf).unwrap();
        std::env::set_var("HUDI_CONF_DIR", &conf);
        let local = dir.0.join("t");
        crate::paths::write_to(&local, &base);
        let mounted = Mounted::new(prefixed("t", base.clone()));
        World {
            base,
            all: opts(),
            conf: conf.join("hudi-defaults.conf").to_str().unwrap().into(),
            mounted,
            local,
            dir,
        }
    }
    /// The properties that the table has by itself.
    fn own(&self) -> BTreeMap<String, String> {
        String::from_utf8_lossy(&self.base[".hoodie/hoodie.properties"])
            .lines()
            .filter(|l| !l.starts_with('#'))
            .filter_map(|l| l.split_once('='))
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .collect()
    }
    fn put(&self, local: bool, props: &str, global: Option<&str>) -> String {
        match global {
            Some(g) => std::fs::write(&self.conf, g).unwrap(),
            None => {
                let _ = std::fs::remove_file(&self.conf);
            }
        }
        if local {
            std::fs::write(self.local.join(".hoodie/hoodie.properties"), props).unwrap();
            format!("file://{}", self.local.display())
        } else {
            self.mounted
                .0
                .inner
                .lock()
                .unwrap()
                .files
                .insert("t/.hoodie/hoodie.properties".into(), Bytes::from(props.to_string()));
            self.mounted.url()
        }
    }
    fn build(&self, url: &str, h: &[(String, String)], o: &[(String, String)], how: How) -> Result<Table, String> {
        let mut b = TableBuilder::from_base_uri(url);
        match how {
            How::Single | How::Twice => {
                for (k, v) in h {
                    if how == How::Twice {
                        b = b.with_hudi_option(k, "other");
                    }
                    b = b.with_hudi_option(k, v);
                }
                for (k, v) in o {
                    if how == How::Twice {
                        b = b.with_option(k, "other");
                    }
                    b = b.with_option(k, v);
                }
            }
            How::Plural => {
                b = b.with_options(o.to_vec()).with_hudi_options(h.to_vec());
            }
        }
        q(async { b.build().await.map_err(|x| x.to_string()) })
    }
}

/// An open that was refused, as opposed to one that broke.
fn refused(x: &str) -> bool {
    !x.starts_with("PANIC") || x.contains("configs are not valid")
}

fn props(m: &BTreeMap<String, String>) -> String {
    props_text(&m.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>())
}

/// Open a table whose option is set by the given sources, and judge the outcome.
fn sources(rep: &Report, w: &World, o: &Opt, set: [Option<&str>; 4], how: How, local: bool) {
    let key = format!("{} {:?} {how:?} {}", o.key, set, if local { "local" } else { "store" });
    if !rep.wants(&key) || rep.stop() {
        return;
    }
    rep.evalv(true, &key);
    let mut own = w.own();
    own.remove(o.key);
    if let Some(v) = set[P] {
        own.insert(o.key.into(), v.into());
    }
    let one = |i: usize| -> Vec<(String, String)> {
        set[i].iter().map(|v| (o.key.to_string(), v.to_string())).collect()
    };
    let g = set[G].map(|v| format!("# defaults\nother.key 1\n{} {v}\n", o.key));
    let url = w.put(local, &props(&own), g.as_deref());
    let r = w.build(&url, &one(H), &one(O), how);
    // what the file keeps of a value: no blanks around it
    let eff: Option<String> = (0..4)
        .find_map(|i| set[i].map(|v| if i == P || i == G { v.trim().to_string() } else { v.to_string() }));
    let mut m = own.clone();
    m.remove(o.key);
    if let Some(v) = &eff {
        m.insert(o.key.into(), v.clone());
    }
    let want = acceptable(&w.all, &m);
    let bad = |s: String| rep.violation(format!("{key}: {s}"), key.clone());
    match (&r, want) {
        (Err(x), Some(true)) => return bad(format!("rejected: {x}")),
        (Err(x), _) if !refused(x) => return bad(x.clone()),
        (Ok(_), Some(false)) => return bad("accepted".into()),
        _ => {}
    }
    let Ok(t) = r else {
        rep.count("rejected", 1);
        return;
    };
    rep.count("accepted", 1);
    let raw = t.hudi_options();
    if raw.get(o.key) != eff.as_ref() {
        return bad(format!("effective value {:?}, expected {eff:?}", raw.get(o.key)));
    }
    if raw.get("hoodie.base.path") != Some(&url) {
        return bad(format!("base path {:?}", raw.get("hoodie.base.path")));
    }
    if raw.contains_key("other.key") || t.storage_options().keys().any(|k| k.starts_with("hoodie.") || k == "other.key") {
        return bad("options of different kinds are mixed up".into());
    }
    for (k, v) in &m {
        if raw.get(k) != Some(v) {
            return bad(format!("{k} is {:?}, expected {v:?}", raw.get(k)));
        }
    }
    if let Some(s) = typed(o, &HudiConfigs::new(raw.iter()), eff.as_deref()) {
        bad(s);
    }
    // what the table makes of it
    let says = match o.key {
        "hoodie.table.name" => Some(t.table_name()),
        "hoodie.table.type" => Some(t.table_type()),
        "hoodie.table.timeline.timezone" => Some(t.timezone()),
        _ => None,
    };
    if let (Some(s), Some(v)) = (says, eff.as_deref().or(o.default)) {
        if let Parsed::Value(x) | Parsed::Either(x) = parse(o, v) {
            if x != s {
                bad(format!("the table says {s}"));
            }
        }
    }
}

/// Compare the typed accessors with the reference.
fn typed(o: &Opt, c: &HudiConfigs, raw: Option<&str>) -> Option<String> {
    let g = (o.get)(c);
    if c.contains(o.key) != raw.is_some() {
        return Some("contains() is wrong".into());
    }
    match raw.map(|v| parse(o, v)) {
        None => {
            if g.get.is_ok() {
                return Some(format!("get of an unset option: {:?}", g.get));
            }
            if g.try_get.as_deref() != o.default {
                return Some(format!("try_get of an unset option: {:?}", g.try_get));
            }
            if let Some(d) = o.default {
                if g.or_default.as_deref() != Ok(d) {
                    return Some(format!("default: {:?}", g.or_default));
                }
            }
            None
        }
        Some(Parsed::Value(v)) => {
            if g.get.as_ref() != Ok(&v) || g.try_get.as_ref() != Some(&v) || g.or_default.as_ref() != Ok(&v) {
                return Some(format!("value {:?} {:?} {:?}, expected {v:?}", g.get, g.try_get, g.or_default));
            }
            None
        }
        Some(Parsed::Either(v)) => match &g.get {
            Ok(x) if *x != v && *x != "[]" => Some(format!("value {x:?}, expected {v:?}")),
            Err(x) if x.starts_with("PANIC") => Some(x.clone()),
            _ => None,
        },
        Some(Parsed::Bad) => match &g.get {
            Ok(x) => Some(format!("an invalid value is taken as {x:?}")),
            Err(x) if x.starts_with("PANIC") => Some(x.clone()),
            Err(_) => None,
        },
    }
}

const SHAPES: &[&str] = &[
    "", " ", "true", "false", "TRUE", "False", " true", "true ", "yes", "no", "t", "0", "1", "-1", "+1", "5", "6", "007", "1.0",
    "1e3", "0x1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "1_000", "é", "a,b", "a, b", ",", "a,,b", "parquet", "ORC", "hfile",
    "cow", "MOR", "copy on write", "COPY-ON-WRITE", "merge_on_read", "Merge-On-Read", "COPYONWRITE", "utc", "Local", "Asia/Tokyo", "UTC+1", "append_only",
    "APPEND_ONLY", "overwrite_with_latest", "OVERWRITE-WITH-LATEST", "custom", "null", "none", "a=b", "a:b", "#a", "a#b", "\\", "\"true\"",
];

fn lines(rep: &Report, thorough: bool) {
    // a line: its text, and the entry it makes under '=' and under blanks and '='
    type Entry = Option<(&'static str, &'static str)>;
    const L: &[(&str, Entry, Entry)] = &[
        ("", None, None),
        ("   ", None, None),
        ("\t", None, None),
        ("#comment=1", None, None),
        ("  # comment", None, None),
        ("#", None, None),
        ("k=v", Some(("k", "v")), Some(("k", "v"))),
        ("k=w", Some(("k", "w")), Some(("k", "w"))),
        ("  k=v2  ", Some(("k", "v2")), Some(("k", "v2"))),
        ("k = v3", Some(("k", "v3")), Some(("k", "v3"))),
        ("k\t=\tv4", Some(("k", "v4")), Some(("k", "v4"))),
        ("l=", Some(("l", "")), Some(("l", ""))),
        ("l=a=b", Some(("l", "a=b")), Some(("l", "a=b"))),
        ("l==a", Some(("l", "=a")), Some(("l", "=a"))),
        ("m=#x", Some(("m", "#x")), Some(("m", "#x"))),
        ("m=x # y", Some(("m", "x # y")), Some(("m", "x # y"))),
        ("m=a b\tc", Some(("m", "a b\tc")), Some(("m", "a b\tc"))),
        ("n=é€", Some(("n", "é€")), Some(("n", "é€"))),
        ("n n1", Some(("n n1", "")), Some(("n", "n1"))),
        ("n\tn2", Some(("n\tn2", "")), Some(("n", "n2"))),
        ("n     n3", Some(("n     n3", "")), Some(("n", "n3"))),
        ("n a b", Some(("n a b", "")), Some(("n", "a b"))),
        ("o", Some(("o", "")), Some(("o", ""))),
        ("a.b.c=http://x/?q=1", Some(("a.b.c", "http://x/?q=1")), Some(("a.b.c", "http://x/?q=1"))),
    ];
    let max = if thorough { 4 } else { 3 };
    let mut idx = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &layer {
            for i in 0..L.len() {
                let mut x = l.clone();
                x.push(i);
                next.push(x);
            }
        }
        idx.extend(next.clone());
        layer = next;
    }
    for file in idx {
        for eol in ["\n", "\r\n"] {
            for end in [true, false] {
                let mut text = file.iter().map(|i| L[*i].0).collect::<Vec<_>>().join(eol);
                if end && !file.is_empty() {
                    text.push_str(eol);
                }
                for (seps, col) in [("=", 1), (" \t=", 2)] {
                    rep.evalv(file.len() > 1, (&text, seps));
                    let mut want: BTreeMap<&str, &str> = BTreeMap::new();
                    for i in &file {
                        if let Some((k, v)) = if col == 1 { L[*i].1 } else { L[*i].2 } {
                            want.insert(k, v);
                        }
                    }
                    let got = guard(|| parse_data_for_options(&Bytes::from(text.clone()), seps));
                    let ok = match &got {
                        Ok(Ok(m)) => m.len() == want.len() && want.iter().all(|(k, v)| m.get(*k).map(|s| s.as_str()) == Some(v)),
                        _ => false,
                    };
                    if !ok {
                        rep.violation(format!("properties {text:?} split at {seps:?}: {got:?}, expected {want:?}"), "lines");
                    }
                    if rep.stop() {
                        return;
                    }
                }
            }
        }
    }
    for bytes in [&b"\xff\xfe=1\n"[..], b"a=\xc3\x28\n", b"a=1\n\x80\n"] {
        let got = guard(|| parse_data_for_options(&Bytes::from_static(bytes), "="));
        rep.evalv(true, bytes);
        match got {
            Ok(Err(_)) => {}
            Ok(Ok(m)) if m.values().all(|v| v.is_empty() || v == "1") => {}
            x => rep.violation(format!("properties {bytes:?}: {x:?}"), "lines"),
        }
    }
}

/// Options for storage: from options for storage, general options, environment.
fn storage_options(rep: &Report, w: &World) {
    let url = w.put(false, &props(&w.own()), None);
    let keys = ["AWS_REGION", "aws_region", "AZURE_X", "GOOGLE_Y", "other", "OTHER"];
    for key in keys {
        let env = key.to_ascii_uppercase();
        let cloud = env.starts_with("AWS_") || env.starts_with("AZURE_") || env.starts_with("GOOGLE_");
        for bits in 0..8 {
            for how in [How::Single, How::Plural] {
                let what = format!("storage option {key} set by {bits:03b} {how:?}");
                if !rep.wants(&what) {
                    continue;
                }
                rep.evalv(bits > 0, &what);
                if bits & 4 > 0 {
                    std::env::set_var(&env, "env");
                }
                let mut b = TableBuilder::from_base_uri(&url);
                if bits & 1 > 0 {
                    b = match how {
                        How::Single => b.with_storage_option(key, "storage"),
                        _ => b.with_storage_options([(key, "storage")]),
                    };
                }
                if bits & 2 > 0 {
                    b = match how {
                        How::Single => b.with_option(key, "general"),
                        _ => b.with_options([(key, "general")]),
                    };
                }
                let name = &w.mounted.0.name;
                object_store::mc_registry::watch(name);
                let t = q(async { b.build().await.map_err(e) });
                std::env::remove_var(&env);
                let want = match bits {
                    0 => None,
                    b if b & 1 > 0 => Some("storage"),
                    b if b & 2 > 0 => Some("general"),
                    _ if cloud => Some("env"),
                    _ => None,
                };
                match t {
                    Err(x) => rep.violation(format!("{what}: {x}"), what.clone()),
                    Ok(t) => {
                        let o = t.storage_options();
                        let got: Vec<&String> = o.iter().filter(|(k, _)| k.eq_ignore_ascii_case(key)).map(|x| x.1).collect();
                        let ok = match want {
                            None => got.is_empty(),
                            Some(v) => !got.is_empty() && got.iter().all(|g| *g == v),
                        };
                        if !ok || t.hudi_options().keys().any(|k| k.eq_ignore_ascii_case(key)) {
                            rep.violation(format!("{what}: {o:?}, expected {want:?}"), what.clone());
                        }
                        // every access to storage is made with these options, those of one reader with its own
                        let mut opened = vec![("opening the table", object_store::mc_registry::watch(name), want)];
                        let own = if bits == 4 { key.to_ascii_lowercase() } else { key.to_string() };
                        let r = q(async {
                            let n = rows(t.read_snapshot(&[]).await)?.len();
                            t.get_file_slices_splits(2, &[]).await.map_err(e)?;
                            rows(t.read_incremental_records("19700101000000000", None).await)?;
                            t.get_schema().await.map_err(e)?;
                            opened.push(("queries", object_store::mc_registry::watch(name), want));
                            let s = t.get_file_slices(&[]).await.map_err(e)?;
                            object_store::mc_registry::watch(name);
                            read_slices(&t, &s, &[]).await?;
                            opened.push(("a reader", object_store::mc_registry::watch(name), want));
                            let m = read_slices(&t, &s, &[(own.as_str(), "reader")]).await?.len();
                            opened.push(("a reader with the option", object_store::mc_registry::watch(name), Some("reader")));
                            Ok((n, m))
                        });
                        if r != Ok((1, 1)) {
                            rep.violation(format!("{what}: reading gives {r:?}"), what.clone());
                        }
                        for (by, all, want) in opened {
                            for o in &all {
                                let got: Vec<&String> = o.iter().filter(|(k, _)| k.eq_ignore_ascii_case(key)).map(|x| x.1).collect();
                                if got != want.iter().collect::<Vec<_>>() || o.keys().any(|k| k.starts_with("hoodie.")) {
                                    rep.violation(format!("{what}: {by} accesses storage with {o:?}, expected {want:?}"), what.clone());
                                }
                            }
                            if all.is_empty() && by == "opening the table" {
                                rep.violation(format!("{what}: no access to storage"), what.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    // general options are told apart by their prefix
    let names = ["hoodie.a", "hoodie.", "hoodie", "hoodies.a", "Hoodie.a", "a.hoodie.b", "", "a", "hoodie.table.name"];
    for bits in 0..1usize << names.len() {
        let o: Vec<(&str, &str)> = names.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, n)| (*n, "1")).collect();
        rep.evalv(o.len() > 1, ("split", bits));
        let (h, s) = split_hudi_options_from_others(o.iter().copied());
        let want = |hudi: bool| -> HashMap<String, String> {
            o.iter().filter(|x| x.0.starts_with("hoodie.") == hudi).map(|x| (x.0.to_string(), "1".to_string())).collect()
        };
        if h != want(true) || s != want(false) {
            rep.violation(format!("split {o:?}: {h:?} {s:?}"), "split");
        }
    }
}

/// The merge options and the required ones, all combinations.
fn combined(rep: &Report, w: &World) {
    let keys = [
        ("hoodie.table.record.merge.strategy", vec![None, Some("append_only"), Some("overwrite_with_latest"), Some("x")]),
        ("hoodie.populate.meta.fields", vec![None, Some("true"), Some("false")]),
        ("hoodie.table.precombine.field", vec![None, Some("ord"), Some("_ts"), Some("Event.Time")]),
        ("hoodie.table.type", vec![None, Some("COPY_ON_WRITE"), Some("MERGE_ON_READ")]),
        ("hoodie.table.name", vec![None, Some("t")]),
        ("hoodie.table.version", vec![None, Some("4"), Some("5"), Some("6"), Some("7")]),
        ("hoodie.timeline.layout.version", vec![None, Some("0"), Some("1"), Some("2")]),
        ("hoodie.datasource.write.drop.partition.columns", vec![None, Some("false"), Some("true")]),
    ];
    let mut all: Vec<BTreeMap<String, String>> = vec![w.own()];
    for (k, vs) in &keys {
        let mut next = vec![];
        for m in &all {
            for v in vs {
                let mut m = m.clone();
                m.remove(*k);
                if let Some(v) = v {
                    m.insert(k.to_string(), v.to_string());
                }
                next.push(m);
            }
        }
        all = next;
    }
    let strategy = w.all.iter().find(|o| o.key == keys[0].0).unwrap();
    for m in all {
        let key = format!("{m:?}");
        if !rep.wants(&key) {
            continue;
        }
        rep.evalv(true, &key);
        let url = w.put(false, &props(&m), None);
        let want = acceptable(&w.all, &m).unwrap();
        match w.build(&url, &[], &[], How::Single) {
            Ok(_) if !want => rep.violation(format!("{key}: accepted"), key.clone()),
            Ok(t) => {
                let g = (strategy.get)(&HudiConfigs::new(t.hudi_options().iter()));
                let is = |k: &str, v: &str| m.get(k).map(|s| s.as_str()) == Some(v);
                let s = match m.get(strategy.key) {
                    Some(s) => s.as_str(),
                    None if is("hoodie.populate.meta.fields", "false") => "append_only",
                    None if !m.contains_key("hoodie.table.precombine.field") => "append_only",
                    None => "overwrite_with_latest",
                };
                if g.or_default.as_deref() != Ok(s) {
                    rep.violation(format!("{key}: merge strategy {:?}, expected {s}", g.or_default), key.clone());
                }
                if t.is_mor() != is("hoodie.table.type", "MERGE_ON_READ") {
                    rep.violation(format!("{key}: is_mor is {}", t.is_mor()), key.clone());
                }
            }
            Err(x) if want || !refused(&x) => rep.violation(format!("{key}: {x}"), key.clone()),
            Err(_) => {}
        }
        if rep.stop() {
            return;
        }
    }
}

/// The read-optimized mode set in any of the sources, and for a single reader, decides what is read.
fn effective(rep: &Report, w: &World) {
    use crate::world::{properties, Cfg};
    let cfg = Cfg::mor(1);
    let ts = |i: usize| format!("2024010{i}000000000");
    let id = "00000001-0000-4000-8000-00000000abcd-0";
    let base = format!("part=a/{id}_0-1-1_{}.parquet", ts(1));
    let row = |i: usize, val: i64, file: &str| Row {
        key: "k".into(),
        val,
        ord: i as i64,
        part: "a".into(),
        ct: ts(i),
        seq: format!("{}_0_0", ts(i)),
        ppath: "part=a".into(),
        file: file.into(),
    };
    let log = format!("part=a/.{id}_{}.log.1_0-1-1", ts(1));
    let mut f = Files::new();
    f.insert(base.clone(), parquet(&[row(1, 1, "b")], true));
    f.insert(log.clone(), crate::fmt::data_block(&ts(2), &[row(2, 2, id)], true).into());
    for (i, kind, stat) in [
        (1, "deltacommit", json!({"fileId": id, "path": base, "prevCommit": "null"})),
        (2, "deltacommit", json!({"fileId": id, "path": log, "prevCommit": ts(1), "baseFile": base.rsplit('/').next(), "logFiles": [log.rsplit('/').next()]})),
    ] {
        f.insert(
            format!(".hoodie/{}.{kind}", ts(i)),
            Bytes::from(json!({"partitionToWriteStats": {"part=a": [stat]}, "compacted": false, "extraMetadata": {}, "operationType": "UPSERT"}).to_string()),
        );
    }
    let own = properties(&cfg);
    f.insert(".hoodie/hoodie.properties".into(), own.clone().into());
    let s = Mounted::new(prefixed("t", f));
    const K: &str = "hoodie.read.use.read_optimized.mode";
    let vals = [None, Some("true"), Some("false")];
    for n in 0..3usize.pow(5) {
        let set: Vec<Option<&str>> = (0..5).map(|i| vals[n / 3usize.pow(i) % 3]).collect();
        let key = format!("read optimized {set:?}");
        if !rep.wants(&key) {
            continue;
        }
        rep.evalv(true, &key);
        let mut p = own.clone();
        if let Some(v) = set[P] {
            p.push_str(&format!("\n{K}={v}\n"));
        }
        s.0.inner.lock().unwrap().files.insert("t/.hoodie/hoodie.properties".into(), p.into());
        match set[G] {
            Some(v) => std::fs::write(&w.conf, format!("{K}={v}\n")).unwrap(),
            None => {
                let _ = std::fs::remove_file(&w.conf);
            }
        }
        let one = |i: usize| -> Vec<(String, String)> { set[i].iter().map(|v| (K.to_string(), v.to_string())).collect() };
        let table = set[..4].iter().find_map(|x| *x).unwrap_or("false") == "true";
        let reader = set[4].map_or(table, |v| v == "true");
        let r = w.build(&s.url(), &one(H), &one(O), How::Single).and_then(|t| {
            q(async {
                let a = t.read_snapshot(&[]).await.map_err(e)?;
                let sl = t.get_file_slices(&[]).await.map_err(e)?;
                let r = t.create_file_group_reader_with_options(one(4)).map_err(e)?;
                let mut b = vec![];
                for s in &sl {
                    b.push(r.read_file_slice(s).await.map_err(e)?);
                }
                Ok((vals_of(&a), vals_of(&b)))
            })
        });
        let want = |ro: bool| if ro { vec![1] } else { vec![2] };
        if r != Ok((want(table), want(reader))) {
            rep.violation(format!("{key}: {r:?}"), key);
        }
    }
}
fn vals_of(b: &[arrow_array::RecordBatch]) -> Vec<i64> {
    vals(b).unwrap_or(vec![-1])
}

pub fn c13(rep: &Arc<Report>) {
    let w = World::new();
    let all = opts();
    for o in &all {
        let mut vals: Vec<Option<&str>> = vec![None];
        vals.extend(o.values.iter().map(|v| Some(*v)));
        let n = vals.len();
        for k in 0..n.pow(4) {
            let set = [vals[k % n], vals[k / n % n], vals[k / n / n % n], vals[k / n / n / n % n]];
            for local in [false, true] {
                let how: &[How] = if rep.thorough { &[How::Single, How::Plural, How::Twice] } else { &[[How::Single, How::Plural, How::Twice][k % 3]] };
                for h in how {
                    sources(rep, &w, o, set, *h, local);
                }
            }
        }
        for v in SHAPES {
            for at in 0..4 {
                if (at == P || at == G) && v.trim() != *v {
                    continue;
                }
                if at == G && v.starts_with('=') {
                    continue;
                }
                let mut set = [None; 4];
                set[at] = Some(*v);
                sources(rep, &w, o, set, How::Single, false);
                if rep.thorough {
                    sources(rep, &w, o, set, How::Single, true);
                    for below in at + 1..4 {
                        let mut set = set;
                        set[below] = Some(o.values[0]);
                        sources(rep, &w, o, set, How::Plural, false);
                    }
                    for above in 0..at {
                        let mut set = set;
                        set[above] = Some(o.values[0]);
                        sources(rep, &w, o, set, How::Plural, false);
                    }
                }
            }
            let m = HudiConfigs::new([(o.key, *v)]);
            rep.evalv(true, ("typed", o.key, v));
            if let Some(s) = typed(o, &m, Some(v)) {
                rep.violation(format!("{}={v:?}: {s}", o.key), format!("typed {}", o.key));
            }
        }
        if let Some(s) = typed(o, &HudiConfigs::empty(), None) {
            rep.violation(format!("{} unset: {s}", o.key), format!("typed {}", o.key));
        }
    }
    combined(rep, &w);
    lines(rep, rep.thorough);
    storage_options(rep, &w);
    effective(rep, &w);
    std::env::remove_var("HUDI_CONF_DIR");
    rep.note("each of the 22 options: every assignment of two or three values to every subset of the four sources (properties, options for the table, general options, global defaults file), set in every way, on a store and on local files; each option set to each of 60 shapes of value in each source; all combinations of the required and the merge options; properties files of up to three (thorough: four) lines of 24 shapes, with both line ends and both sets of separators; storage options from every subset of sources; the read-optimized mode from every subset of sources and for a single reader");
    drop(w.dir);
}
