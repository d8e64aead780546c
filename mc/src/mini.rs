//! Small copy-on-write tables with partition columns of any type, one file group per partition.
use crate::fmt::{parquet_of, META};
use crate::store::Files;
use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};
use bytes::Bytes;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Mini {
    /// partition columns in the configured order
    pub fields: Vec<(String, DataType)>,
    /// order of the partition columns within the table schema (indexes into `fields`)
    pub order: Vec<usize>,
    /// per partition: its path, and the values of its columns (None: null)
    pub parts: Vec<(String, Vec<Option<String>>)>,
    pub props: Vec<(String, String)>,
    pub ts: String,
}

pub fn props_text(p: &[(String, String)]) -> String {
    let mut s = String::from("#Properties\n");
    for (k, v) in p {
        s.push_str(&format!("{k}={v}\n"));
    }
    s
}

pub fn base_props(mor: bool) -> Vec<(String, String)> {
    [
        ("hoodie.table.name", "t"),
        (
            "hoodie.table.type",
            if mor {
                "MERGE_ON_READ"
            } else {
                "COPY_ON_WRITE"
            },
        ),
        ("hoodie.table.version", "6"),
        ("hoodie.timeline.layout.version", "1"),
        ("hoodie.table.base.file.format", "PARQUET"),
        ("hoodie.table.recordkey.fields", "id"),
        ("hoodie.table.precombine.field", "ord"),
        ("hoodie.datasource.write.drop.partition.columns", "false"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect()
}

impl Mini {
    /// The row of partition `i` has `val` = i.
    pub fn files(&self) -> Files {
        let mut f = Files::new();
        let mut p = base_props(false);
        p.push((
            "hoodie.table.partition.fields".into(),
            self.fields
                .iter()
                .map(|x| x.0.clone())
                .collect::<Vec<_>>()
                .join(","),
        ));
        for (k, v) in &self.props {
            p.retain(|(a, _)| a != k);
            p.push((k.clone(), v.clone()));
        }
        f.insert(
            ".hoodie/hoodie.properties".into(),
            Bytes::from(props_text(&p)),
        );
        let mut stats: BTreeMap<String, Vec<serde_json::Value>> = BTreeMap::new();
        for (i, (path, vals)) in self.parts.iter().enumerate() {
            let id = format!("{i:08x}-0000-4000-8000-00000000abcd-0");
            let name = format!("{id}_0-1-{i}_{}.parquet", self.ts);
            let rel = if path.is_empty() {
                name.clone()
            } else {
                format!("{path}/{name}")
            };
            f.insert(rel.clone(), parquet_of(&self.row(i, path, &name, vals)));
            if !path.is_empty() {
                f.insert(
                    format!("{path}/.hoodie_partition_metadata"),
                    Bytes::from_static(b"commitTime=1\npartitionDepth=1\n"),
                );
            }
            stats.entry(path.clone()).or_default().push(json!({
                "fileId": id, "path": rel, "prevCommit": "null", "numWrites": 1, "partitionPath": path,
            }));
        }
        let c = json!({"partitionToWriteStats": stats, "compacted": false, "extraMetadata": {}, "operationType": "INSERT"});
        for s in [".requested", ".inflight"] {
            f.insert(format!(".hoodie/{}.commit{s}", self.ts), Bytes::new());
        }
        f.insert(
            format!(".hoodie/{}.commit", self.ts),
            Bytes::from(c.to_string()),
        );
        f
    }

    pub fn mounted(&self) -> Files {
        prefixed("t", self.files())
    }

    fn row(&self, i: usize, path: &str, name: &str, vals: &[Option<String>]) -> RecordBatch {
        let mut fields: Vec<Field> = META
            .iter()
            .map(|m| Field::new(*m, DataType::Utf8, true))
            .collect();
        let st = |s: &str| -> ArrayRef { Arc::new(StringArray::from(vec![s.to_string()])) };
        let mut cols = vec![
            st(&self.ts),
            st(&format!("{}_0_{i}", self.ts)),
            st(&format!("k{i}")),
            st(path),
            st(name),
        ];
        fields.push(Field::new("id", DataType::Utf8, true));
        cols.push(st(&format!("k{i}")));
        for &j in &self.order {
            let (n, t) = &self.fields[j];
            fields.push(Field::new(n, t.clone(), true));
            let v: ArrayRef = Arc::new(StringArray::from(vec![vals[j].clone()]));
            cols.push(arrow::compute::cast(&v, t).unwrap());
        }
        for n in ["val", "ord"] {
            fields.push(Field::new(n, DataType::Int64, true));
            cols.push(Arc::new(Int64Array::from(vec![i as i64])));
        }
        RecordBatch::try_new(Arc::new(Schema::new(fields)), cols).unwrap()
    }
}

pub fn prefixed(dir: &str, f: Files) -> Files {
    f.into_iter().map(|(k, v)| (format!("{dir}/{k}"), v)).collect()
}

/// The `val` column of result batches, sorted.
pub fn vals(b: &[RecordBatch]) -> Result<Vec<i64>, String> {
    let mut v = vec![];
    for b in b {
        let c = b
            .column_by_name("val")
            .ok_or("no column val")?
            .as_any()
            .downcast_ref::<Int64Array>()
            .ok_or("val is not long")?
            .clone();
        for i in 0..c.len() {
            if c.is_null(i) {
                return Err("null val".into());
            }
            v.push(c.value(i));
        }
    }
    v.sort();
    Ok(v)
}
