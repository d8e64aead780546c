//! Tables of several commits, with any column types and any partition columns.
use arrow_array::{ArrayRef, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use bytes::Bytes;
use mc::fmt::{parquet_rg, META};
use mc::mini::{base_props, props_text};
use mc::store::Files;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Cells = Vec<Option<String>>;

/// One commit: the file groups it writes (number, partition path, rows), and those it replaces.
#[derive(Clone, Debug, Default)]
pub struct Commit {
    pub writes: Vec<(usize, String, Vec<Cells>)>,
    pub replaces: Vec<(usize, String)>,
}

#[derive(Clone, Debug)]
pub struct Tab {
    pub name: String,
    pub cols: Vec<(String, DataType)>,
    /// partition columns in the configured order
    pub parts: Vec<String>,
    pub props: Vec<(String, String)>,
    pub commits: Vec<Commit>,
    /// rows in a row group; 0: all
    pub rg: usize,
}

fn cast(v: Vec<Option<String>>, t: &DataType) -> ArrayRef {
    let a: ArrayRef = Arc::new(StringArray::from(v));
    arrow::compute::cast(&a, t).unwrap()
}

impl Tab {
    pub fn schema(&self) -> SchemaRef {
        let mut f: Vec<Field> = META
            .iter()
            .map(|m| Field::new(*m, DataType::Utf8, true))
            .collect();
        f.extend(self.cols.iter().map(|(n, t)| Field::new(n, t.clone(), true)));
        Arc::new(Schema::new(f))
    }
    fn ts(i: usize) -> String {
        format!("2024010100000{i}000")
    }
    fn file(i: usize, fg: usize) -> String {
        format!("{fg:08x}-0000-4000-8000-00000000abcd-0_0-{i}-{fg}_{}.parquet", Self::ts(i))
    }
    fn batch(&self, i: usize, fg: usize, path: &str, rows: &[Cells]) -> RecordBatch {
        let n = rows.len();
        let st = |f: &dyn Fn(usize) -> String| -> ArrayRef {
            Arc::new(StringArray::from_iter_values((0..n).map(f)))
        };
        let mut a = vec![
            st(&|_| Self::ts(i)),
            st(&|r| format!("{}_0_{r}", Self::ts(i))),
            st(&|r| rows[r][0].clone().unwrap_or_default()),
            st(&|_| path.to_string()),
            st(&|_| Self::file(i, fg)),
        ];
        for (j, (_, t)) in self.cols.iter().enumerate() {
            a.push(cast(rows.iter().map(|r| r[j].clone()).collect(), t));
        }
        RecordBatch::try_new(self.schema(), a).unwrap()
    }
    /// What a reader must see: the latest version of every group that is not replaced.
    pub fn snapshot(&self) -> Vec<RecordBatch> {
        let mut live: BTreeMap<usize, RecordBatch> = BTreeMap::new();
        for (i, c) in self.commits.iter().enumerate() {
            for (fg, path, rows) in &c.writes {
                live.insert(*fg, self.batch(i, *fg, path, rows));
            }
            for (fg, _) in &c.replaces {
                live.remove(fg);
            }
        }
        live.into_values().collect()
    }
    pub fn files(&self) -> Files {
        let mut f = Files::new();
        let mut p = base_props(false);
        if !self.parts.is_empty() {
            p.push(("hoodie.table.partition.fields".into(), self.parts.join(",")));
        }
        for (k, v) in &self.props {
            p.retain(|(a, _)| a != k);
            p.push((k.clone(), v.clone()));
        }
        f.insert(".hoodie/hoodie.properties".into(), Bytes::from(props_text(&p)));
        for (i, c) in self.commits.iter().enumerate() {
            let mut stats: BTreeMap<String, Vec<serde_json::Value>> = BTreeMap::new();
            for (fg, path, rows) in &c.writes {
                let name = Self::file(i, *fg);
                let rel = if path.is_empty() { name } else { format!("{path}/{name}") };
                f.insert(rel.clone(), parquet_rg(&self.batch(i, *fg, path, rows), self.rg));
                if !path.is_empty() {
                    f.insert(
                        format!("{path}/.hoodie_partition_metadata"),
                        Bytes::from_static(b"commitTime=1\npartitionDepth=1\n"),
                    );
                }
                stats.entry(path.clone()).or_default().push(json!({
                    "fileId": format!("{fg:08x}-0000-4000-8000-00000000abcd-0"),
                    "path": rel, "prevCommit": "null", "numWrites": rows.len(), "partitionPath": path,
                }));
            }
            let ts = Self::ts(i);
            let mut m = json!({"partitionToWriteStats": stats, "compacted": false, "extraMetadata": {}, "operationType": "INSERT"});
            let action = if c.replaces.is_empty() {
                "commit"
            } else {
                let mut r: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for (fg, path) in &c.replaces {
                    r.entry(path.clone())
                        .or_default()
                        .push(format!("{fg:08x}-0000-4000-8000-00000000abcd-0"));
                }
                m["partitionToReplaceFileIds"] = json!(r);
                m["operationType"] = json!("INSERT_OVERWRITE");
                "replacecommit"
            };
            f.insert(format!(".hoodie/{ts}.{action}.requested"), Bytes::new());
            f.insert(
                format!(".hoodie/{ts}.{}inflight", if action == "commit" { "" } else { "replacecommit." }),
                Bytes::new(),
            );
            f.insert(format!(".hoodie/{ts}.{action}"), Bytes::from(m.to_string()));
        }
        f
    }
}
