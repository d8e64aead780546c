//! C22: SQL queries through the DataFusion integration, against the same queries over the rows in memory.
use crate::tab::{Cells, Commit, Tab};
use arrow::util::display::{ArrayFormatter, FormatOptions};
use arrow_array::RecordBatch;
use arrow_schema::{DataType, TimeUnit};
use datafusion::catalog::TableProviderFactory;
use datafusion::datasource::MemTable;
use datafusion::execution::session_state::SessionStateBuilder;
use datafusion::optimizer::push_down_filter::PushDownFilter;
use datafusion::prelude::{SessionConfig, SessionContext};
use hudi_datafusion::{HudiDataSource, HudiTableFactory};
use mc::exec::run_free;
use mc::fmt::Row;
use mc::hist::{explore, Space};
use mc::props_hist::Ck;
use mc::world::Cfg as World_;
use mc::mini::prefixed;
use mc::prune::escape;
use mc::report::Report;
use mc::run::{beat, guard, pool};
use mc::store::{Fault, Mounted};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg {
    /// every optimizer rule, or only the one that pushes filters down
    optimizer: bool,
    inputs: usize,
    targets: usize,
    /// evaluate filters while decoding
    decode: bool,
    /// split files of any size among the workers
    split: bool,
    /// registered by CREATE EXTERNAL TABLE
    create: bool,
}
const DEFAULT: Cfg = Cfg { optimizer: true, inputs: 2, targets: 1, decode: false, split: false, create: false };

impl Cfg {
    fn show(&self) -> String {
        format!(
            "{} inputs {} targets {}{}{}{}",
            if self.optimizer { "all rules" } else { "push-down only" },
            self.inputs,
            self.targets,
            if self.decode { " decode" } else { "" },
            if self.split { " split" } else { "" },
            if self.create { " create" } else { "" }
        )
    }
    fn session(&self) -> SessionContext {
        let mut c = SessionConfig::new().with_target_partitions(self.targets);
        c.options_mut().execution.parquet.pushdown_filters = self.decode;
        if self.split {
            c.options_mut().optimizer.repartition_file_min_size = 0;
        }
        let f: Arc<dyn TableProviderFactory> = Arc::new(HudiTableFactory::default());
        let mut b = SessionStateBuilder::new()
            .with_default_features()
            .with_config(c)
            .with_table_factories(HashMap::from([("HUDI".to_string(), f)]));
        if !self.optimizer {
            b = b.with_optimizer_rules(vec![Arc::new(PushDownFilter::new())]);
        }
        SessionContext::new_with_state(b.build())
    }
    async fn open(&self, url: &str) -> Result<SessionContext, String> {
        let ctx = self.session();
        if self.create {
            let sql = format!(
                "CREATE EXTERNAL TABLE t STORED AS HUDI LOCATION '{url}' OPTIONS ('hoodie.read.input.partitions' '{}')",
                self.inputs
            );
            ctx.sql(&sql).await.map_err(|e| e.to_string())?;
        } else {
            let n = self.inputs.to_string();
            let h = HudiDataSource::new_with_options(url, [("hoodie.read.input.partitions", n.as_str())])
                .await
                .map_err(|e| e.to_string())?;
            ctx.register_table("t", Arc::new(h)).map_err(|e| e.to_string())?;
        }
        Ok(ctx)
    }
}

/// A query and how its answer is judged.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Q {
    sql: String,
    how: How,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum How {
    Multiset,
    Ordered,
    /// at most so many rows of the answer of the given query
    Some(usize, String),
}

type Answer = Result<(String, Vec<String>), String>;

fn render(b: &[RecordBatch]) -> Result<(String, Vec<String>), String> {
    let mut head = String::new();
    let mut rows = vec![];
    for b in b {
        head = b
            .schema()
            .fields()
            .iter()
            .map(|f| format!("{} {}", f.name(), f.data_type()))
            .collect::<Vec<_>>()
            .join(", ");
        let o = FormatOptions::default().with_null("NULL");
        let f = b
            .columns()
            .iter()
            .map(|c| ArrayFormatter::try_new(c, &o))
            .collect::<Result<Vec<_>, _>>()
            .map_err(|e| e.to_string())?;
        for r in 0..b.num_rows() {
            rows.push(f.iter().map(|f| f.value(r).to_string()).collect::<Vec<_>>().join("|"));
        }
    }
    Ok((head, rows))
}

fn ask(ctx: &SessionContext, sql: &str) -> Answer {
    guard(|| {
        run_free(async {
            let df = ctx.sql(sql).await.map_err(|e| e.to_string())?;
            let b = df.collect().await.map_err(|e| e.to_string())?;
            render(&b)
        })
    })
    .and_then(|x| x)
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn judge(q: &Q, got: &Answer, want: &Answer, full: Option<&Answer>) -> Option<String> {
    let Ok((wh, want)) = want else { return None };
    let (gh, got) = match got {
        Ok(g) => g,
        Err(e) => return Some(format!("fails: {e}")),
    };
    if !got.is_empty() && !want.is_empty() && gh != wh {
        return Some(format!("columns ({gh}), expected ({wh})"));
    }
    match &q.how {
        How::Multiset => {
            let (g, w) = (sorted(got.clone()), sorted(want.clone()));
            (g != w).then(|| format!("rows {g:?}, expected {w:?}"))
        }
        How::Ordered => (got != want).then(|| format!("rows {got:?}, expected {want:?}")),
        How::Some(n, _) => {
            let Some(Ok((_, all))) = full else { return None };
            let mut left = all.clone();
            for r in got {
                match left.iter().position(|x| x == r) {
                    Some(i) => {
                        left.swap_remove(i);
                    }
                    None => return Some(format!("row {r} that is not in the answer {all:?} (or too often)")),
                }
            }
            (got.len() != all.len().min(*n)).then(|| format!("{} rows of {}, limit {n}", got.len(), all.len()))
        }
    }
}

// ---- tables ----

#[derive(Clone, Debug)]
struct Ty {
    name: &'static str,
    dt: DataType,
    vals: Vec<&'static str>,
    /// SQL literals, the first of them equal to the second value
    lits: Vec<&'static str>,
    /// literals of another type, compared after coercion
    cross: Vec<&'static str>,
}

fn types() -> Vec<Ty> {
    let t = |name, dt, vals: &[&'static str], lits: &[&'static str], cross: &[&'static str]| Ty {
        name,
        dt,
        vals: vals.to_vec(),
        lits: lits.to_vec(),
        cross: cross.to_vec(),
    };
    vec![
        t("string", DataType::Utf8, &["a", "b", "10", "9", "a b", "é"], &["'b'", "'a b'", "'10'", "''", "'é'", "'zz'"], &["10", "9.0", "arrow_cast('b', 'LargeUtf8')", "arrow_cast('b', 'Utf8View')"]),
        t("int", DataType::Int32, &["-10", "9", "10", "0"], &["9", "-10", "5", "2147483648"], &["'9'", "9.5", "9.0", "CAST(9 AS SMALLINT)", "9e0"]),
        t("long", DataType::Int64, &["-1", "9007199254740993", "10", "9"], &["9007199254740993", "-1", "10"], &["'9007199254740993'", "10.0", "9007199254740992.0"]),
        t("double", DataType::Float64, &["-1.5", "10.0", "0.25", "9.0"], &["10.0", "10", "0.25", "-1.5"], &["'10.0'", "CAST(0.25 AS REAL)"]),
        t("boolean", DataType::Boolean, &["true", "false"], &["false", "true"], &["'false'"]),
        t("date", DataType::Date32, &["1969-12-31", "2024-01-01", "2024-02-29", "2023-12-31"], &["DATE '2024-01-01'", "DATE '1969-12-31'", "DATE '2024-01-02'"], &["'2024-01-01'", "TIMESTAMP '2024-01-01 00:00:00'", "TIMESTAMP '2024-01-01 12:00:00'"]),
        t("decimal", DataType::Decimal128(10, 2), &["-1.50", "10.00", "0.00", "9.10"], &["CAST('10.00' AS DECIMAL(10,2))", "CAST('9.10' AS DECIMAL(10,2))", "CAST('-1.50' AS DECIMAL(10,2))"], &["10", "9.1", "CAST('9.105' AS DECIMAL(10,3))", "'10.00'"]),
    ]
}

/// Data columns that every table has, besides the record key and the partition columns.
fn data_types() -> Vec<(&'static str, Ty)> {
    let mut v: Vec<(&'static str, Ty)> = vec![];
    for (n, t) in [("s", "string"), ("i", "int"), ("b", "boolean"), ("dt", "date"), ("dec", "decimal")] {
        v.push((n, types().into_iter().find(|x| x.name == t).unwrap()));
    }
    v.push((
        "ts",
        Ty {
            name: "timestamp",
            dt: DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())),
            vals: vec!["2024-01-01T00:00:00Z", "1969-12-31T23:59:59.999999Z", "2024-06-01T12:00:00Z"],
            lits: vec!["TIMESTAMP '1969-12-31T23:59:59.999999Z'", "'2024-01-01T00:00:00Z'"],
            cross: vec!["DATE '2024-01-01'"],
        },
    ));
    v
}

const HIVE: &str = "hoodie.datasource.write.hive_style_partitioning";
const ENC: &str = "hoodie.datasource.write.partitionpath.urlencode";

#[derive(Clone, Copy, PartialEq, Debug)]
struct Style {
    hive: bool,
    enc: bool,
}

fn table(parts: &[Ty], st: Style, null: bool, full: bool) -> Tab {
    let names: Vec<String> = ["p", "pp"][..parts.len()].iter().map(|s| s.to_string()).collect();
    let data = data_types();
    let mut cols = vec![("id".to_string(), DataType::Utf8)];
    // the partition columns stand in the middle, in the opposite order
    for (n, t) in &data[..2] {
        cols.push((n.to_string(), t.dt.clone()));
    }
    for (n, t) in names.iter().zip(parts).rev() {
        cols.push((n.clone(), t.dt.clone()));
    }
    for (n, t) in &data[2..] {
        cols.push((n.to_string(), t.dt.clone()));
    }
    cols.push(("val".into(), DataType::Int64));
    cols.push(("ord".into(), DataType::Int64));

    let mut combos: Vec<Vec<Option<String>>> = vec![vec![]];
    for t in parts {
        let mut vals: Vec<Option<String>> = t.vals.iter().map(|v| Some(v.to_string())).collect();
        if parts.len() > 1 {
            vals.truncate(3);
        }
        if t.name == "string" && parts.len() == 1 {
            vals.push(Some("a=b".into()));
            vals.push(Some("a+b".into()));
            vals.push(Some("a%41".into()));
            if st.enc {
                vals.push(Some("a/b".into()));
                vals.push(Some("50%".into()));
            }
        }
        if null {
            vals.push(None);
        }
        combos = combos
            .iter()
            .flat_map(|c| {
                vals.iter().map(move |v| {
                    let mut c = c.clone();
                    c.push(v.clone());
                    c
                })
            })
            .collect();
    }
    let mut k = 0;
    let mut row = |part: &[Option<String>]| -> Cells {
        k += 1;
        let pick = |t: &Ty, by: usize| -> Option<String> {
            let n = t.vals.len() + 1;
            t.vals.get((k * by) % n).map(|s| s.to_string())
        };
        let mut r: Cells = vec![Some(format!("k{k}"))];
        for (j, (_, t)) in data[..2].iter().enumerate() {
            r.push(pick(t, 1 + j));
        }
        for v in part.iter().rev() {
            r.push(v.clone());
        }
        for (j, (_, t)) in data[2..].iter().enumerate() {
            r.push(pick(t, 1 + j % 2));
        }
        r.push(if k % 4 == 3 { None } else { Some((k % 7).to_string()) });
        r.push(Some(k.to_string()));
        r
    };
    let path = |c: &[Option<String>]| -> String {
        c.iter()
            .zip(&names)
            .map(|(v, n)| {
                let v = match v {
                    None => "__HIVE_DEFAULT_PARTITION__".to_string(),
                    Some(v) if st.enc => escape(v),
                    Some(v) => v.clone(),
                };
                if st.hive {
                    format!("{n}={v}")
                } else {
                    v
                }
            })
            .collect::<Vec<_>>()
            .join("/")
    };
    let mut c0 = Commit::default();
    for (i, c) in combos.iter().enumerate() {
        c0.writes.push((i, path(c), (0..3).map(|_| row(c)).collect()));
    }
    let mut commits = vec![c0];
    if full {
        // new versions, further groups, and replaced groups
        let n = combos.len();
        let (a, b) = (&combos[0], &combos[n - 1]);
        commits.push(Commit {
            writes: vec![
                (0, path(a), (0..2).map(|_| row(a)).collect()),
                (n, path(b), (0..2).map(|_| row(b)).collect()),
                (n + 1, path(a), vec![row(a)]),
            ],
            replaces: vec![],
        });
        commits.push(Commit {
            writes: vec![(n + 2, path(b), vec![row(b)])],
            replaces: vec![(n + 1, path(a))],
        });
    }
    Tab {
        name: format!(
            "[{}]{}{}{}",
            parts.iter().map(|t| t.name).collect::<Vec<_>>().join(","),
            if st.hive { " hive" } else { "" },
            if st.enc { " encoded" } else { "" },
            if null { " null" } else { "" }
        ),
        cols,
        parts: names,
        props: vec![(HIVE.into(), st.hive.to_string()), (ENC.into(), st.enc.to_string())],
        commits,
        rg: 0,
    }
}

// ---- queries ----

const OPS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];

fn atoms(c: &str, t: &Ty) -> Vec<String> {
    let mut v = vec![];
    let mut lits = t.lits.clone();
    lits.extend(&t.cross);
    lits.push("NULL");
    for l in &lits {
        for o in OPS {
            v.push(format!("{c} {o} {l}"));
            v.push(format!("{l} {o} {c}"));
            v.push(format!("NOT ({c} {o} {l})"));
        }
        v.push(format!("{c} IS DISTINCT FROM {l}"));
        v.push(format!("{c} IS NOT DISTINCT FROM {l}"));
    }
    let (a, b) = (t.lits[0], t.lits[1]);
    v.push(format!("{c} IS NULL"));
    v.push(format!("{c} IS NOT NULL"));
    v.push(format!("{c} IN ({a})"));
    v.push(format!("{c} IN ({a}, {b})"));
    v.push(format!("{c} NOT IN ({a}, {b})"));
    v.push(format!("{c} NOT IN ({a}, NULL)"));
    v.push(format!("{c} BETWEEN {b} AND {a}"));
    v.push(format!("{c} NOT BETWEEN {b} AND {a}"));
    v.push(format!("{c} = {a} AND {c} = {b}"));
    v.push(format!("{c} = {a} OR {c} = {b}"));
    v.push(format!("{c} = {c}"));
    v.push(format!("{a} = {a}"));
    v.push(format!("coalesce({c}, {a}) = {a}"));
    v.push(format!("CASE WHEN {c} = {a} THEN true ELSE false END"));
    v.push(format!("({c} = {a}) IS NOT TRUE"));
    v.push(format!("({c} = {a}) = false"));
    match t.name {
        "string" => {
            for p in ["'a%'", "'%b'", "'_'", "'a'"] {
                v.push(format!("{c} LIKE {p}"));
                v.push(format!("{c} NOT LIKE {p}"));
            }
            v.push(format!("upper({c}) = 'B'"));
            v.push(format!("{c} || 'x' = 'bx'"));
            v.push(format!("length({c}) > 1"));
        }
        "int" | "long" | "double" | "decimal" => {
            v.push(format!("{c} + 1 > {a}"));
            v.push(format!("-{c} < {a}"));
            v.push(format!("{c} * 2 = 18"));
            v.push(format!("CAST({c} AS VARCHAR) = '9'"));
        }
        "boolean" => {
            v.push(c.to_string());
            v.push(format!("NOT {c}"));
            v.push(format!("{c} IS TRUE"));
            v.push(format!("{c} IS NOT FALSE"));
        }
        "date" | "timestamp" => {
            v.push(format!("date_part('year', {c}) = 2024"));
            v.push(format!("CAST({c} AS VARCHAR) LIKE '2024%'"));
        }
        _ => {}
    }
    v
}

/// A few atoms of each kind, for combinations.
fn few(c: &str, t: &Ty) -> Vec<String> {
    let (a, b) = (t.lits[0], t.lits[1]);
    vec![
        format!("{c} = {a}"),
        format!("{a} < {c}"),
        format!("{c} != {b}"),
        format!("{b} >= {c}"),
        format!("NOT ({c} > {a})"),
        format!("{c} IN ({a}, {b})"),
        format!("{c} IS NULL"),
    ]
}

fn where_(p: &str) -> Q {
    Q { sql: format!("SELECT id, val FROM t WHERE {p}"), how: How::Multiset }
}

fn combos(cols: &[(String, Ty)], deep: bool) -> Vec<Q> {
    let mut f: Vec<String> = cols.iter().flat_map(|(c, t)| few(c, t)).collect();
    f.extend(few("i", &data_types()[1].1).into_iter().take(if deep { 7 } else { 3 }));
    f.extend(["s = 'b'".to_string(), "val > 2".into(), "p = s".into()]);
    let has_p = cols.iter().any(|c| c.0 == "p" && c.1.name == "string");
    f.retain(|x| x != "p = s" || has_p);
    let mut v = vec![];
    for a in &f {
        for b in &f {
            v.push(where_(&format!("{a} AND {b}")));
            v.push(where_(&format!("{a} OR {b}")));
            v.push(where_(&format!("NOT ({a} AND {b})")));
            v.push(where_(&format!("NOT ({a} OR {b})")));
            if deep {
                for c in &f {
                    v.push(where_(&format!("{a} AND ({b} OR {c})")));
                    v.push(where_(&format!("({a} AND {b}) OR {c}")));
                    v.push(where_(&format!("{a} AND {b} AND {c}")));
                }
            }
        }
    }
    v
}

fn shapes(filters: &[String], cols: &[&str]) -> Vec<Q> {
    let mut v = vec![];
    let mut projs: Vec<String> = vec!["*".into()];
    for a in cols {
        projs.push(a.to_string());
        for b in cols {
            if a != b {
                projs.push(format!("{a}, {b}"));
            }
        }
    }
    projs.push("val + 1 AS x, id".into());
    let fs: Vec<String> = std::iter::once(String::new())
        .chain(filters.iter().map(|f| format!(" WHERE {f}")))
        .collect();
    for f in &fs {
        for p in &projs {
            v.push(Q { sql: format!("SELECT {p} FROM t{f}"), how: How::Multiset });
        }
        for p in ["*", "id", "val, id"] {
            let all = format!("SELECT {p} FROM t{f}");
            for n in [0, 1, 2, 5, 100] {
                v.push(Q { sql: format!("{all} LIMIT {n}"), how: How::Some(n, all.clone()) });
            }
            v.push(Q { sql: format!("{all} ORDER BY ord LIMIT 3"), how: How::Ordered });
            v.push(Q { sql: format!("{all} ORDER BY ord DESC LIMIT 2 OFFSET 1"), how: How::Ordered });
        }
        for s in [
            "SELECT count(*) FROM t{f}",
            "SELECT count(val), sum(ord), min(val), max(s), max(dt) FROM t{f}",
            "SELECT val, count(*) FROM t{f} GROUP BY val",
            "SELECT DISTINCT i FROM t{f}",
            "SELECT 1 FROM t{f}",
            "SELECT a.id, b.id FROM t a JOIN t b ON a.val = b.val AND a.ord < b.ord{f}",
            "SELECT id FROM t{f} UNION ALL SELECT s FROM t{f}",
            "SELECT id FROM (SELECT * FROM t LIMIT 100) x{f}",
            "SELECT id FROM t WHERE val = (SELECT max(val) FROM t{f})",
            "SELECT id FROM t WHERE EXISTS (SELECT 1 FROM t u WHERE u.ord = t.ord + 1)",
        ] {
            if f.contains("WHERE") && s.contains("JOIN") {
                continue;
            }
            v.push(Q { sql: s.replace("{f}", f), how: How::Multiset });
        }
    }
    v
}

struct Task {
    tab: Arc<Tab>,
    cfg: Cfg,
    qs: Arc<Vec<Q>>,
    refs: Arc<Refs>,
}

struct Refs {
    table: Arc<MemTable>,
    ctx: SessionContext,
    got: Mutex<BTreeMap<String, Answer>>,
}
impl Refs {
    fn new(tab: &Tab) -> Self {
        let ctx = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(1));
        let b = tab.snapshot();
        let table = Arc::new(MemTable::try_new(tab.schema(), vec![b]).unwrap());
        ctx.register_table("t", table.clone()).unwrap();
        Refs { table, ctx, got: Default::default() }
    }
    fn session(&self, cfg: Cfg) -> SessionContext {
        let ctx = cfg.session();
        ctx.register_table("t", self.table.clone()).unwrap();
        ctx
    }
    fn get(&self, sql: &str) -> Answer {
        if let Some(a) = self.got.lock().unwrap().get(sql) {
            return a.clone();
        }
        let a = ask(&self.ctx, sql);
        self.got.lock().unwrap().insert(sql.into(), a.clone());
        a
    }
}

fn run(rep: &Arc<Report>, t: &Task) {
    let base = "t";
    let files = t.tab.files();
    let m = Mounted::new(prefixed(base, files));
    let url = m.url();
    let label = format!("{} ({})", t.tab.name, t.cfg.show());
    let ctx = match guard(|| run_free(t.cfg.open(&url))).and_then(|x| x) {
        Ok(c) => c,
        Err(e) => {
            rep.violation(format!("{label}: cannot be opened: {e}"), label);
            return;
        }
    };
    for q in t.qs.iter() {
        let key = format!("{label}: {}", q.sql);
        if !rep.wants(&key) || rep.stop() {
            continue;
        }
        beat(rep, || key.clone());
        let want = t.refs.get(&q.sql);
        let full = match &q.how {
            How::Some(_, s) => Some(t.refs.get(s)),
            _ => None,
        };
        let got = ask(&ctx, &q.sql);
        rep.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match &want {
            Err(_) => rep.count("queries_without_an_answer", 1),
            Ok(_) => {
                rep.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
        rep.evalv(want.as_ref().is_ok_and(|w| !w.1.is_empty()), &key);
        if let Some(m) = judge(q, &got, &want, full.as_ref()) {
            // an engine that fails over rows in memory as well cannot run the query at all
            if got.is_err() && !t.cfg.optimizer && ask(&t.refs.session(t.cfg), &q.sql).is_err() {
                rep.count("queries_the_engine_cannot_run", 1);
                continue;
            }
            rep.violation(format!("{key}: {}", m.chars().take(600).collect::<String>()), key);
        }
    }
}

/// The table in every state of its history: the latest snapshot, whole and by filters.
fn histories(rep: &Arc<Report>) {
    let d = usize::from(rep.thorough);
    let spaces = vec![
        Space::new(World_::cow(2), "Ins0 Ups0 Ins1 Ow0 DelP0 Clus0 UpsAll Empty Clean Arch Ups0!0 Ins1!0 Rb", 3 + d),
        Space::new(World_ { same_ids: true, ..World_::cow(2) }, "Ins0 Ups0 Ins1 Ow0 DelP0 Clus0 UpsAll Ups0!0 Rb", 3 + d),
        Space::new(World_::cow(1), "Ins0 Ups0 Del0 Ow0 Clus0 DelP0 Clean", 4 + d),
        Space::new(World_::nonpart(false), "Ins0 Ups0 Del0 Clus0 Ow0", 4 + d),
        Space::new(World_::mor(1), "Ins0 Ups0 Late0 Comp Clus0 Ow0 Clean", 4 + d),
        Space::new(World_ { evolve: true, ..World_::cow(2) }, "Ins0 Ups0 Ins1 Ow0 DelP0 Clus0", 3 + d),
        Space::new(World_ { promote: true, ..World_::cow(2) }, "Ins0 Ups0 Ins1 Ow0 Clus0", 4 + d),
        Space::new(World_ { evolve: true, ..World_::nonpart(false) }, "Ins0 Ups0 Ow0 Clus0", 4 + d),
    ];
    explore(rep, spaces, 60, |rep, w| {
        let c = Ck::new(rep, w);
        let m = Mounted::new(w.mounted());
        let ctx = match guard(|| run_free(DEFAULT.open(&m.url()))).and_then(|x| x) {
            Ok(c) => c,
            Err(e) => return c.bad("open", &e),
        };
        let all = |sql: &str| -> Result<Vec<RecordBatch>, String> {
            guard(|| {
                run_free(async {
                    let df = ctx.sql(sql).await.map_err(|e| e.to_string())?;
                    df.collect().await.map_err(|e| e.to_string())
                })
            })
            .and_then(|x| x)
        };
        if w.hist.is_empty() {
            let n = ask(&ctx, "SELECT count(*) FROM t").map(|a| a.1);
            c.is("rows of an empty table", n, Ok(vec!["0".to_string()]));
            return;
        }
        let parts: Vec<String> = w.snap().iter().map(|r| r.part.clone()).collect::<BTreeSet<_>>().into_iter().collect();
        let mut filters: Vec<(String, Box<dyn Fn(&Row) -> bool>)> = vec![("".into(), Box::new(|_| true))];
        for p in parts {
            filters.push((format!(" WHERE part = '{p}'"), Box::new(move |r| r.part == p)));
        }
        filters.push((" WHERE val >= 2 AND part > ''".into(), Box::new(|r| r.val >= 2)));
        if w.cfg.promote {
            filters.push((" WHERE p = val + 1000 AND p < 1000000.5".into(), Box::new(|_| true)));
        }
        // the column that only the files of the latest commit have
        if let Some((x, ts)) = w.hist.last().filter(|_| w.cfg.evolve).and_then(|h| Some((h.column.clone()?, h.ts.clone()))) {
            let t2 = ts.clone();
            filters.push((format!(" WHERE {x} = val + 1000"), Box::new(move |r| r.file.contains(&ts))));
            filters.push((format!(" WHERE {x} IS NULL AND val > 0"), Box::new(move |r| !r.file.contains(&t2))));
        }
        for (f, keep) in filters {
            let want: Vec<Row> = w.snap().into_iter().filter(|r| keep(r)).collect();
            let base: Vec<Row> = w.base_snap().into_iter().filter(|r| keep(r)).collect();
            let (want, base) = (w.shown(&want), w.shown(&base));
            let got = all(&format!("SELECT * FROM t{f}")).and_then(|b| mc::fmt::rows_of(&b));
            if want != base && got.as_ref() == Ok(&base) {
                rep.evalv(true, (&c.key, &f));
                rep.known("log-files-not-scanned");
                continue;
            }
            c.eq(&format!("SELECT *{f}"), got, &want);
        }
    });
}

/// One storage request fails: the query fails, or its answer is right; afterwards it is right.
fn faults(rep: &Arc<Report>) {
    let st = types().into_iter().find(|t| t.name == "string").unwrap();
    let tab = Arc::new(table(&[st], Style { hive: true, enc: false }, false, true));
    let refs = Arc::new(Refs::new(&tab));
    let mut tasks = vec![];
    for q in ["SELECT * FROM t", "SELECT id, val FROM t WHERE p = 'b'", "SELECT count(*) FROM t WHERE 'a' < p", "SELECT val FROM t WHERE val > 2"] {
        for cfg in [DEFAULT, Cfg { inputs: 0, targets: 3, ..DEFAULT }] {
            for open in [false, true] {
                for f in [Fault::Error, Fault::Body] {
                    tasks.push((q, cfg, open, f));
                }
            }
        }
    }
    let r = rep.clone();
    pool(rep, tasks, 120, |t| format!("faults {t:?}"), move |(sql, cfg, open, f)| {
        let rep = &r;
        let files = prefixed("t", tab.files());
        let want = refs.get(sql);
        let q = Q { sql: sql.to_string(), how: How::Multiset };
        for k in 0.. {
            let m = Mounted::new(files.clone());
            let set = |at: Option<(usize, Fault)>| {
                let mut g = m.0.inner.lock().unwrap();
                g.ops = 0;
                g.fault_at = at;
            };
            let label = format!("faults: {sql} ({}) {f:?} at request {k} of {}", cfg.show(), if *open { "opening and reading" } else { "reading" });
            if *open {
                set(Some((k, *f)));
            }
            let ctx = guard(|| run_free(cfg.open(&m.url()))).and_then(|x| x);
            rep.evalv(true, &label);
            rep.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if let Ok(ctx) = ctx {
                if !*open {
                    set(Some((k, *f)));
                }
                let got = ask(&ctx, sql);
                let panics = got.as_ref().err().filter(|e| e.contains("PANIC"));
                if let Some(p) = panics {
                    rep.violation(format!("{label}: {p}"), label.clone());
                } else if got.is_ok() {
                    if let Some(m) = judge(&q, &got, &want, None) {
                        rep.violation(format!("{label}: {m}"), label.clone());
                    }
                }
                let hit = m.0.inner.lock().unwrap().fault_hit.is_some();
                set(None);
                if let Some(m) = judge(&q, &ask(&ctx, sql), &want, None) {
                    rep.violation(format!("{label}: afterwards {m}"), label.clone());
                }
                if !hit {
                    break;
                }
            } else if let Err(e) = ctx {
                if e.contains("PANIC") {
                    rep.violation(format!("{label}: {e}"), label.clone());
                }
            }
            rep.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    });
}

/// Two tables of different stores in one session, and tables whose folder has special characters.
fn places(rep: &Arc<Report>) {
    let st = types().into_iter().find(|t| t.name == "string").unwrap();
    let tab = table(&[st], Style { hive: true, enc: true }, false, true);
    let refs = Refs::new(&tab);
    let want = refs.get("SELECT id, val FROM t WHERE p > 'a'");
    let q = Q { sql: "SELECT id, val FROM t WHERE p > 'a'".into(), how: How::Multiset };
    let scratch = std::env::temp_dir().join(format!("c22-{}", std::process::id()));
    for (i, name) in ["t", "a b", "é", "a+b", "a=b", "50%25", "x y/z w"].iter().enumerate() {
        for create in [false, true] {
            let key = format!("on files, folder {name:?} (create {create})");
            if !rep.wants(&key) {
                continue;
            }
            let dir = scratch.join(format!("{i}{create}")).join(name);
            for (k, v) in &tab.files() {
                let p = dir.join(k);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, v).unwrap();
            }
            let got = guard(|| run_free(Cfg { create, ..DEFAULT }.open(dir.to_str().unwrap())))
                .and_then(|x| x)
                .and_then(|c| ask(&c, &q.sql));
            rep.evalv(true, &key);
            if let Some(m) = judge(&q, &got, &want, None) {
                rep.violation(format!("{key}: {m}"), key);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let key = "two tables in one session".to_string();
    let (a, b) = (Mounted::new(prefixed("t", tab.files())), Mounted::new(prefixed("t", tab.files())));
    let got = guard(|| {
        run_free(async {
            let ctx = DEFAULT.open(&a.url()).await?;
            let h = HudiDataSource::new(&b.url()).await.map_err(|e| e.to_string())?;
            ctx.register_table("u", Arc::new(h)).map_err(|e| e.to_string())?;
            Ok::<_, String>(ctx)
        })
    })
    .and_then(|x| x)
    .and_then(|c| ask(&c, "SELECT t.id, u.val FROM t JOIN u ON t.id = u.id WHERE t.p > 'a'"));
    rep.evalv(true, &key);
    if let Some(m) = judge(&q, &got, &want, None) {
        rep.violation(format!("{key}: {m}"), key);
    }
}

/// Tables of large files, and of many files.
fn sized(groups: &[(usize, &str, usize)], rg: usize) -> Tab {
    let mut k = 0;
    let mut c = Commit::default();
    for (fg, p, n) in groups {
        let rows = (0..*n)
            .map(|_| {
                k += 1;
                vec![Some(format!("k{k}")), Some(p.to_string()), Some(k.to_string())]
            })
            .collect();
        c.writes.push((*fg, format!("p={p}"), rows));
    }
    Tab {
        name: format!("files of {}, row groups of {rg}", groups.iter().map(|g| g.2.to_string()).collect::<Vec<_>>().join(" ").chars().take(40).collect::<String>()),
        cols: vec![("id".into(), DataType::Utf8), ("p".into(), DataType::Utf8), ("ord".into(), DataType::Int64)],
        parts: vec!["p".into()],
        props: vec![("hoodie.datasource.write.hive_style_partitioning".into(), "true".into())],
        commits: vec![c],
        rg,
    }
}

fn sizes(deep: bool) -> Vec<(Tab, Vec<Cfg>)> {
    let many: Vec<(usize, &str, usize)> = (0..if deep { 300 } else { 70 }).map(|i| (i, ["a", "b", "c"][i % 3], 1 + i % 2)).collect();
    let mut v = vec![];
    for rg in [0, 700] {
        v.push((sized(&[(0, "a", 2500), (1, "b", 1), (2, "b", 1100)], rg), vec![]));
        if deep {
            v.push((sized(&[(0, "a", 8200), (1, "a", 1), (2, "b", 1024), (3, "c", 1025)], rg), vec![]));
        }
    }
    v.push((sized(&many, 0), vec![]));
    for (_, c) in v.iter_mut() {
        for inputs in [0, 1, 2, 64] {
            for (decode, split, targets) in [(false, false, 1), (true, true, 3)] {
                c.push(Cfg { inputs, decode, split, targets, ..DEFAULT });
            }
        }
    }
    v
}

/// Columns whose names differ by case only, or need quotes: one of them is the partition column.
fn cased(part: &str) -> (Tab, Vec<Q>) {
    let names = ["id", "Pp", "pp", "p p", "p.p", "ord"];
    let j = names.iter().position(|n| *n == part).unwrap();
    let mut c = Commit::default();
    let mut k = 0;
    for (fg, v) in ["a", "b", "c"].iter().enumerate() {
        let rows = (0..3)
            .map(|_| {
                k += 1;
                let mut r: Cells = (0..5).map(|i| Some(["a", "b", "c"][(k + i) % 3].to_string())).collect();
                r[0] = Some(format!("k{k}"));
                r[j] = Some(v.to_string());
                r.push(Some(k.to_string()));
                r
            })
            .collect();
        c.writes.push((fg, format!("{part}={v}"), rows));
    }
    let cols = names.iter().map(|n| (n.to_string(), if *n == "ord" { DataType::Int64 } else { DataType::Utf8 })).collect();
    let tab = Tab {
        name: format!("partitioned by {part:?}"),
        cols,
        parts: vec![part.to_string()],
        props: vec![(HIVE.into(), "true".into())],
        commits: vec![c],
        rg: 0,
    };
    let mut qs = vec![];
    let where_ = |p: &str| Q { sql: format!("SELECT ord FROM t WHERE {p}"), how: How::Multiset };
    for n in &names[1..5] {
        for op in OPS {
            qs.push(where_(&format!("\"{n}\" {op} 'b'")));
            qs.push(where_(&format!("'b' {op} \"{n}\"")));
            qs.push(where_(&format!("NOT (\"{n}\" {op} 'b')")));
            for m in &names[1..5] {
                qs.push(where_(&format!("\"{n}\" {op} 'b' AND \"{m}\" = 'a'")));
                qs.push(where_(&format!("\"{n}\" {op} \"{m}\"")));
            }
        }
    }
    (tab, qs)
}

fn sized_queries(rows: usize) -> Vec<Q> {
    let mut v = vec![];
    for f in ["", " WHERE p = 'b'", " WHERE p > 'a' AND ord > 100", " WHERE ord > 1500", " WHERE NOT (p = 'a')"] {
        v.push(Q { sql: format!("SELECT count(*), sum(ord), min(id), max(ord) FROM t{f}"), how: How::Multiset });
        v.push(Q { sql: format!("SELECT p, count(*), sum(ord) FROM t{f} GROUP BY p"), how: How::Multiset });
        let all = format!("SELECT ord FROM t{f}");
        for n in [1, 700, 1023, 1024, 1025, 2000, 2501, rows - 1, rows, rows + 1] {
            v.push(Q { sql: format!("{all} LIMIT {n}"), how: How::Some(n, all.clone()) });
        }
        v.push(Q { sql: format!("{all} ORDER BY ord DESC LIMIT 1030 OFFSET 1020"), how: How::Ordered });
    }
    v
}

pub fn c22(rep: &Arc<Report>) {
    histories(rep);
    faults(rep);
    places(rep);
    let deep = rep.thorough;
    let mut tasks: Vec<Task> = vec![];
    let styles = [
        Style { hive: true, enc: false },
        Style { hive: false, enc: false },
        Style { hive: true, enc: true },
        Style { hive: false, enc: true },
    ];
    let direct = Cfg { optimizer: false, ..DEFAULT };
    let chunk = |tab: &Arc<Tab>, refs: &Arc<Refs>, cfg: Cfg, qs: Vec<Q>, tasks: &mut Vec<Task>| {
        for c in qs.chunks(150) {
            tasks.push(Task { tab: tab.clone(), cfg, qs: Arc::new(c.to_vec()), refs: refs.clone() });
        }
    };
    let data: Vec<(String, Ty)> = data_types().into_iter().map(|(n, t)| (n.to_string(), t)).collect();
    for ty in types() {
        for st in styles {
            if st != styles[0] && !deep && !["string", "date"].contains(&ty.name) && st != styles[1] {
                continue;
            }
            for null in [false, true] {
                if null && !st.hive && !deep {
                    continue;
                }
                let tab = Arc::new(table(&[ty.clone()], st, null, true));
                let refs = Arc::new(Refs::new(&tab));
                let qs: Vec<Q> = atoms("p", &ty).iter().map(|a| where_(a)).collect();
                if !null || deep {
                    chunk(&tab, &refs, direct, qs.clone(), &mut tasks);
                }
                chunk(&tab, &refs, DEFAULT, qs, &mut tasks);
            }
        }
    }
    // filters on data columns
    let st = types().into_iter().find(|t| t.name == "string").unwrap();
    let int = types().into_iter().find(|t| t.name == "int").unwrap();
    let date = types().into_iter().find(|t| t.name == "date").unwrap();
    let tab = Arc::new(table(&[st.clone()], styles[0], false, true));
    let refs = Arc::new(Refs::new(&tab));
    for (n, t) in &data {
        let qs: Vec<Q> = atoms(n, t).iter().map(|a| where_(a)).collect();
        chunk(&tab, &refs, DEFAULT, qs.clone(), &mut tasks);
        chunk(&tab, &refs, direct, qs.clone(), &mut tasks);
        if deep {
            chunk(&tab, &refs, Cfg { decode: true, ..direct }, qs, &mut tasks);
        }
    }
    // combinations
    for (parts, style) in [
        (vec![st.clone()], styles[0]),
        (vec![int.clone(), st.clone()], styles[1]),
        (vec![st.clone(), date.clone()], styles[0]),
        (vec![], styles[1]),
    ] {
        let names = ["p", "pp"];
        let cols: Vec<(String, Ty)> = names.iter().map(|s| s.to_string()).zip(parts.clone()).collect();
        let tab = Arc::new(table(&parts, style, false, true));
        let refs = Arc::new(Refs::new(&tab));
        let qs = combos(&cols, deep);
        chunk(&tab, &refs, direct, qs.clone(), &mut tasks);
        if deep {
            chunk(&tab, &refs, DEFAULT, qs, &mut tasks);
        }
    }
    // shapes of queries under every setting
    let filters: Vec<String> = ["p = 'b'", "'b' < p", "val > 2", "p >= 'a' AND i < 10", "p = 'none'", "s IS NULL"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let tabs = [
        table(&[st.clone()], styles[0], false, true),
        table(&[st.clone()], styles[0], false, false),
    ];
    for tab in tabs {
        let tab = Arc::new(tab);
        let refs = Arc::new(Refs::new(&tab));
        let n = if deep { filters.len() } else { 3 };
        let qs = shapes(&filters[..n], if deep { &["id", "val", "p", "_hoodie_file_name", "dt"] } else { &["id", "p", "dt"] });
        let qs: Vec<Q> = qs;
        for inputs in [0, 1, 2, 3, 100] {
            for targets in [1, 3] {
                for (decode, split) in [(false, false), (true, true)] {
                    for optimizer in [true, false] {
                        if !deep && !(optimizer || (inputs == 2 && targets == 3)) {
                            continue;
                        }
                        let cfg = Cfg { optimizer, inputs, targets, decode, split, create: inputs == 3 };
                        let qs: Vec<Q> = if deep || inputs == 2 { qs.clone() } else { qs.iter().step_by(3).cloned().collect() };
                        chunk(&tab, &refs, cfg, qs, &mut tasks);
                    }
                }
            }
        }
    }
    for part in ["Pp", "pp", "p p", "p.p"] {
        let (tab, qs) = cased(part);
        let tab = Arc::new(tab);
        let refs = Arc::new(Refs::new(&tab));
        for cfg in [DEFAULT, direct] {
            chunk(&tab, &refs, cfg, qs.clone(), &mut tasks);
        }
    }
    for (tab, cfgs) in sizes(deep) {
        let rows = tab.commits[0].writes.iter().map(|w| w.2.len()).sum();
        let (tab, qs) = (Arc::new(tab), sized_queries(rows));
        let refs = Arc::new(Refs::new(&tab));
        for cfg in cfgs {
            chunk(&tab, &refs, cfg, qs.clone(), &mut tasks);
        }
    }
    rep.note(&format!("{} tasks", tasks.len()));
    let r = rep.clone();
    pool(rep, tasks, 120, |t| format!("{} ({})", t.tab.name, t.cfg.show()), move |t| run(&r, t));
}
