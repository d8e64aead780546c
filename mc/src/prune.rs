//! C08: partition filters.
use crate::mini::{vals, Mini};
use crate::q::*;
use crate::report::Report;
use crate::run::pool;
use crate::store::Mounted;
use arrow_schema::DataType;
use hudi_core::table::Table;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::sync::Arc;

const OPS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];
const URLENC: &str = "hoodie.datasource.write.partitionpath.urlencode";
const HIVE: &str = "hoodie.datasource.write.hive_style_partitioning";

#[derive(Clone, Debug)]
struct Ty {
    name: &'static str,
    dt: DataType,
    /// values of partitions
    vals: Vec<&'static str>,
    /// further literals of filters
    lits: Vec<&'static str>,
    /// literals that are not of the type
    bad: Vec<&'static str>,
}

fn types() -> Vec<Ty> {
    let t = |name, dt, vals: &[&'static str], lits: &[&'static str], bad: &[&'static str]| Ty {
        name,
        dt,
        vals: vals.to_vec(),
        lits: lits.to_vec(),
        bad: bad.to_vec(),
    };
    vec![
        t(
            "string",
            DataType::Utf8,
            &["a", "b", "A", "aa", "9", "10", "a b", "é", "a=b", "a+b", "2024-01-01"],
            &["", "ab", "zz", "a/b", "100", "B"],
            &[],
        ),
        t(
            "int",
            DataType::Int32,
            &["-10", "-9", "0", "1", "9", "10", "2147483647", "-2147483648"],
            &["2", "-1", "100"],
            &["", "x", "1.5", "2147483648", "1,2"],
        ),
        t(
            "long",
            DataType::Int64,
            &["-10", "0", "9", "10", "9007199254740993", "9223372036854775807"],
            &["9007199254740992", "2147483648"],
            &["", "x", "9223372036854775808"],
        ),
        t(
            "short",
            DataType::Int16,
            &["-10", "9", "10", "32767"],
            &["0", "100"],
            &["32768", "x"],
        ),
        t(
            "double",
            DataType::Float64,
            &["-1.5", "0.25", "9.0", "10.0", "1e10"],
            &["10", "0.1", "-2"],
            &["", "x"],
        ),
        t("boolean", DataType::Boolean, &["true", "false"], &[], &["", "x"]),
        t(
            "date",
            DataType::Date32,
            &["1969-12-31", "2023-12-31", "2024-01-01", "2024-02-29", "9999-12-31"],
            &["2024-01-02", "1970-01-01"],
            &["", "x", "2023-02-29"],
        ),
        t(
            "decimal",
            DataType::Decimal128(10, 2),
            &["-1.50", "0.00", "9.10", "10.00"],
            &["10.01", "-100.00"],
            &["x"],
        ),
    ]
}

/// Values of a type in the order of the type.
fn compare(ty: &str, a: &str, b: &str) -> Ordering {
    match ty {
        "int" | "long" | "short" => a.parse::<i64>().unwrap().cmp(&b.parse().unwrap()),
        "double" => a
            .parse::<f64>()
            .unwrap()
            .partial_cmp(&b.parse().unwrap())
            .unwrap(),
        "decimal" => {
            let cents = |s: &str| s.replace('.', "").parse::<i64>().unwrap();
            cents(a).cmp(&cents(b))
        }
        "boolean" => (a == "true").cmp(&(b == "true")),
        // years of four digits order as text
        _ => a.as_bytes().cmp(b.as_bytes()),
    }
}

fn holds(ty: &str, op: &str, v: &str, lit: &str) -> bool {
    let o = compare(ty, v, lit);
    match op {
        "=" => o.is_eq(),
        "!=" => o.is_ne(),
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        ">=" => o.is_ge(),
        _ => unreachable!(),
    }
}

/// As Hudi escapes partition values.
pub fn escape(v: &str) -> String {
    let mut s = String::new();
    for c in v.chars() {
        if c.is_ascii_control() || "\"#%'*/:=?\\{[]^".contains(c) {
            s.push_str(&format!("%{:02X}", c as u32));
        } else {
            s.push(c);
        }
    }
    s
}

#[derive(Clone, Debug)]
struct Case {
    tys: Vec<Ty>,
    order: Vec<usize>,
    hive: Option<bool>,
    enc: Option<bool>,
    /// also enumerate pairs of filters
    pairs: bool,
}

impl Case {
    fn show(&self) -> String {
        format!(
            "[{}] columns {:?} hive {:?} encoded {:?}",
            self.tys.iter().map(|t| t.name).collect::<Vec<_>>().join(","),
            self.order,
            self.hive,
            self.enc
        )
    }
    fn names(&self) -> Vec<String> {
        // the second name starts with the first
        ["p", "pp", "a"][..self.tys.len()]
            .iter()
            .map(|s| s.to_string())
            .collect()
    }
    fn mini(&self) -> Mini {
        let names = self.names();
        let mut rows: Vec<Vec<String>> = vec![vec![]];
        for t in &self.tys {
            let mut next = vec![];
            for r in &rows {
                for v in self.values(t) {
                    let mut r = r.clone();
                    r.push(v.to_string());
                    next.push(r);
                }
            }
            rows = next;
        }
        let parts = rows
            .iter()
            .map(|r| {
                let segs: Vec<String> = r
                    .iter()
                    .zip(&names)
                    .map(|(v, n)| {
                        let v = if self.enc == Some(true) { escape(v) } else { v.clone() };
                        if self.hive == Some(true) {
                            format!("{n}={v}")
                        } else {
                            v
                        }
                    })
                    .collect();
                (segs.join("/"), r.iter().cloned().map(Some).collect())
            })
            .collect();
        let mut props = vec![];
        if let Some(h) = self.hive {
            props.push((HIVE.to_string(), h.to_string()));
        }
        if let Some(h) = self.enc {
            props.push((URLENC.to_string(), h.to_string()));
        }
        Mini {
            fields: names
                .iter()
                .zip(&self.tys)
                .map(|(n, t)| (n.clone(), t.dt.clone()))
                .collect(),
            order: self.order.clone(),
            parts,
            props,
            ts: "20240101000000000".into(),
        }
    }
    fn values(&self, t: &Ty) -> Vec<&'static str> {
        let mut v = t.vals.clone();
        if t.name == "string" {
            if self.enc == Some(true) {
                v.extend(["a/b", "50%", "a%41", "k:v", "x?y#z"]);
            } else {
                v.push("a%41");
            }
            if self.tys.len() > 1 {
                v.retain(|x| ["a", "b", "10", "9", "a=b", "a/b", "a%41"].contains(x));
            }
        }
        if self.tys.len() > 1 {
            v.truncate(if self.tys.len() > 2 { 3 } else { 5 });
        }
        v
    }
}

type F = (String, &'static str, String);

fn expected(c: &Case, m: &Mini, fs: &[&F]) -> BTreeSet<i64> {
    let names = c.names();
    (0..m.parts.len())
        .filter(|&i| {
            fs.iter().all(|(n, op, lit)| {
                let j = names.iter().position(|x| x == n).unwrap();
                holds(c.tys[j].name, op, m.parts[i].1[j].as_ref().unwrap(), lit)
            })
        })
        .map(|i| i as i64)
        .collect()
}

async fn read(t: &Table, fs: &[&F]) -> Result<Vec<i64>, String> {
    let f: Vec<(&str, &str, &str)> = fs
        .iter()
        .map(|(a, b, c)| (a.as_str(), *b, c.as_str()))
        .collect();
    let b = t.read_snapshot(&f).await.map_err(e)?;
    vals(&b)
}

/// Partition numbers of listed slices, from the file id.
fn ids(s: &[hudi_core::file_group::file_slice::FileSlice]) -> Vec<i64> {
    let mut v: Vec<i64> = s
        .iter()
        .map(|x| i64::from_str_radix(&x.file_id()[..8], 16).unwrap())
        .collect();
    v.sort();
    v
}

async fn list(t: &Table, fs: &[&F]) -> Result<Vec<i64>, String> {
    let f: Vec<(&str, &str, &str)> = fs
        .iter()
        .map(|(a, b, c)| (a.as_str(), *b, c.as_str()))
        .collect();
    Ok(ids(&t.get_file_slices(&f).await.map_err(e)?))
}

fn run(rep: &Report, c: &Case) {
    let m = c.mini();
    let store = Mounted::new(m.mounted());
    let url = store.url();
    let names = c.names();
    let mut fs: Vec<F> = vec![];
    for (n, t) in names.iter().zip(&c.tys) {
        for op in OPS {
            for lit in c.values(t).iter().chain(&t.lits) {
                fs.push((n.clone(), op, lit.to_string()));
            }
        }
    }
    let t = match q(open(&url)) {
        Ok(t) => t,
        Err(x) => return rep.violation(format!("{}: open: {x}", c.show()), c.show()),
    };
    let check = |what: &str, fs: &[&F], got: Result<Vec<i64>, String>| {
        let want: Vec<i64> = expected(c, &m, fs).into_iter().collect();
        rep.evalv(
            !want.is_empty(),
            (c.show(), what.to_string(), format!("{fs:?}")),
        );
        if got.as_ref() != Ok(&want) {
            let name = |v: &Vec<i64>| {
                v.iter()
                    .map(|i| m.parts.get(*i as usize).map(|p| p.0.clone()))
                    .collect::<Vec<_>>()
            };
            rep.violation(
                format!(
                    "{}: {what} with {fs:?}: {:?}, expected {:?}",
                    c.show(),
                    got.as_ref().map(name),
                    name(&want)
                ),
                c.show(),
            );
        }
    };
    check("snapshot", &[], q(read(&t, &[])));
    // the pruner by itself, for every filter and pair of filters
    let schema = match q(async { t.get_partition_schema().await.map_err(e) }) {
        Ok(s) => s,
        Err(x) => return rep.violation(format!("{}: schema: {x}", c.show()), c.show()),
    };
    let configs = hudi_core::config::HudiConfigs::new(t.hudi_options());
    let prune = |fs: &[&F]| -> Result<Vec<i64>, String> {
        let fs: Vec<hudi_core::expr::filter::Filter> = fs
            .iter()
            .map(|(a, b, c)| {
                hudi_core::expr::filter::Filter::try_from((a.as_str(), *b, c.as_str())).map_err(e)
            })
            .collect::<Result<_, _>>()?;
        let p = hudi_core::table::partition::PartitionPruner::new(&fs, &schema, &configs)
            .map_err(e)?;
        Ok(m.parts
            .iter()
            .enumerate()
            .filter(|x| p.should_include(&x.1 .0))
            .map(|x| x.0 as i64)
            .collect())
    };
    let guarded = |fs: &[&F]| crate::run::guard(|| prune(fs)).and_then(|x| x);
    for (i, f) in fs.iter().enumerate() {
        check("pruner", &[f], guarded(&[f]));
        if !rep.thorough && c.tys.len() > 1 && i % 5 != 0 {
            continue;
        }
        check("file slices", &[f], q(list(&t, &[f])));
        // a handle of its own: nothing listed before
        if let Ok(t) = q(open(&url)) {
            check("snapshot on a new handle", &[f], q(read(&t, &[f])));
            // and whatever was listed for another filter does not stay
            check("snapshot after a filtered one", &[], q(read(&t, &[])));
        }
        if rep.stop() {
            return;
        }
    }
    if c.pairs {
        for f in &fs {
            for g in &fs {
                check("pruner", &[f, g], guarded(&[f, g]));
            }
            if rep.stop() {
                return;
            }
        }
        // all ordered pairs of a few filters, as one query and as two queries on one handle
        let step = (fs.len() / if rep.thorough { 40 } else { 8 }).max(1);
        let some: Vec<&F> = fs.iter().step_by(step).collect();
        for f in &some {
            for g in &some {
                check("file slices", &[f, g], q(list(&t, &[f, g])));
                if let Ok(t) = q(open(&url)) {
                    check("first of two listings", &[f], q(list(&t, &[f])));
                    check("second of two listings", &[g], q(list(&t, &[g])));
                }
            }
            if rep.stop() {
                return;
            }
        }
    }
    // what must be rejected
    let mut bad: Vec<F> = vec![];
    for (n, t) in names.iter().zip(&c.tys) {
        for op in OPS {
            for lit in &t.bad {
                bad.push((n.clone(), op, lit.to_string()));
            }
        }
        for op in ["", "==", "<>", "=>", "in", "! =", "like"] {
            bad.push((n.clone(), op, c.values(t)[0].to_string()));
        }
    }
    for n in ["nope", "", "id", "P", "p "] {
        if !names.iter().any(|x| x == n) {
            bad.push((n.to_string(), "=", "1".to_string()));
        }
    }
    let good = &fs[0];
    for f in &bad {
        for fs in [vec![f], vec![good, f], vec![f, good]] {
            let r1 = q(list(&t, &fs));
            let r2 = q(read(&t, &fs));
            rep.evalv(true, (c.show(), "rejected", format!("{fs:?}")));
            for r in [r1, r2] {
                let ok = matches!(&r, Err(x) if !x.starts_with("PANIC"));
                if !ok {
                    rep.violation(
                        format!("{}: invalid filter {fs:?}: {r:?}, expected an error", c.show()),
                        c.show(),
                    );
                }
            }
        }
    }
    // a path that does not parse is kept
    let odd: Vec<String> = {
        let p = &m.parts[0].0;
        let mut v = vec![format!("{p}/x"), "".to_string(), format!("x/{p}/y")];
        if c.hive == Some(true) {
            v.push(p.replace('=', ""));
            v.push(format!("q{p}"));
        }
        v
    };
    let one = hudi_core::expr::filter::Filter::try_from((good.0.as_str(), good.1, good.2.as_str()));
    if let Ok(f) = one {
        if let Ok(p) = hudi_core::table::partition::PartitionPruner::new(&[f], &schema, &configs) {
            for o in odd {
                // the empty path is a value of a plain string column
                if o.is_empty() && c.tys.len() == 1 && c.hive != Some(true) {
                    continue;
                }
                rep.evalv(true, (c.show(), "odd", o.clone()));
                if crate::run::guard(|| p.should_include(&o)) != Ok(true) {
                    rep.violation(
                        format!("{}: path {o:?} does not parse and was pruned", c.show()),
                        c.show(),
                    );
                }
            }
        }
    }
}

pub fn c08(rep: &Arc<Report>) {
    let tys = types();
    let mut cases = vec![];
    for t in &tys {
        for hive in [None, Some(false), Some(true)] {
            for enc in [None, Some(false), Some(true)] {
                cases.push(Case {
                    tys: vec![t.clone()],
                    order: vec![0],
                    hive,
                    enc,
                    pairs: true,
                });
            }
        }
    }
    for a in &tys {
        for b in &tys {
            for hive in [false, true] {
                for enc in [false, true] {
                    for order in [vec![0, 1], vec![1, 0]] {
                        if !rep.thorough && (order[0] == 1) != (hive ^ enc) {
                            continue;
                        }
                        cases.push(Case {
                            tys: vec![a.clone(), b.clone()],
                            order,
                            hive: Some(hive),
                            enc: Some(enc),
                            pairs: rep.thorough || a.name < b.name && enc,
                        });
                    }
                }
            }
        }
    }
    for abc in [[0, 1, 6], [4, 0, 5], [1, 0, 0]] {
        for hive in [false, true] {
            for order in [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]] {
                cases.push(Case {
                    tys: abc.iter().map(|i| tys[*i].clone()).collect(),
                    order: order.to_vec(),
                    hive: Some(hive),
                    enc: Some(hive),
                    pairs: false,
                });
            }
        }
    }
    let cases: Vec<Case> = cases.into_iter().filter(|c| rep.wants(&c.show())).collect();
    rep.count("tables", cases.len() as u64);
    rep.note("one partition column of 8 types x hive style (unset, off, on) x URL encoding (unset, off, on); two columns of all pairs of types; three columns in every order; operators = != < <= > >= with every value of the type's domain and literals between and outside; filters alone and in pairs; invalid literals, operators and columns");
    let r = rep.clone();
    pool(rep, cases, 300, |c| c.show(), move |c| run(&r, c));
}
