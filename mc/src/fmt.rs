//! Writers for the on-disk formats of a Hudi v6 table: base files, log files, timeline files.
use arrow_array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use bytes::Bytes;
use parquet::arrow::ArrowWriter;
use std::sync::{Arc, OnceLock};

pub const META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Row {
    pub key: String,
    pub val: i64,
    pub ord: i64,
    /// value of the partition column
    pub part: String,
    pub ct: String,
    pub seq: String,
    pub ppath: String,
    pub file: String,
}

impl Row {
    pub fn show(&self) -> String {
        format!(
            "{}|{}|{}|{}|{}|{}|{}|{}",
            self.ct, self.seq, self.key, self.ppath, self.file, self.val, self.ord, self.part
        )
    }
}

pub fn schema() -> SchemaRef {
    static S: OnceLock<SchemaRef> = OnceLock::new();
    S.get_or_init(|| {
        let mut f: Vec<Field> = META
            .iter()
            .map(|m| Field::new(*m, DataType::Utf8, true))
            .collect();
        f.push(Field::new("id", DataType::Utf8, true));
        f.push(Field::new("val", DataType::Int64, true));
        f.push(Field::new("ord", DataType::Int64, true));
        f.push(Field::new("part", DataType::Utf8, true));
        Arc::new(Schema::new(f))
    })
    .clone()
}

pub fn avro_schema() -> String {
    let mut f: Vec<serde_json::Value> = META
        .iter()
        .map(|m| serde_json::json!({"name": m, "type": ["null", "string"], "doc": "", "default": null}))
        .collect();
    for (n, t) in [
        ("id", "string"),
        ("val", "long"),
        ("ord", "long"),
        ("part", "string"),
    ] {
        f.push(serde_json::json!({"name": n, "type": ["null", t], "default": null}));
    }
    serde_json::json!({"type": "record", "name": "t_record", "namespace": "hoodie.t", "fields": f})
        .to_string()
}

/// The writer's schema as recorded in commit metadata: without the meta fields.
pub fn user_schema(extra: Option<&str>) -> String {
    let mut v: serde_json::Value = serde_json::from_str(&avro_schema()).unwrap();
    let mut f = v["fields"].as_array().unwrap()[5..].to_vec();
    if let Some(x) = extra {
        f.insert(place(x) - 5, added(x));
    }
    v["fields"] = f.into();
    v.to_string()
}

/// A column added by a change of the schema: `Row::val` + 1000, as a long or of a type given after a slash.
pub fn named(x: &str) -> (&str, &str) {
    x.split_once('/').unwrap_or((x, "long"))
}

fn added(x: &str) -> serde_json::Value {
    let (n, t) = named(x);
    serde_json::json!({"name": n, "type": ["null", t], "default": null})
}

/// Where it stands: some of them at the end, some right before `val`.
fn place(x: &str) -> usize {
    if x.ends_with(['1', '3', '5', '7', '9']) { 6 } else { 9 }
}

pub fn batch(rows: &[Row], meta: bool) -> RecordBatch {
    let s = |f: &dyn Fn(&Row) -> String| -> ArrayRef {
        Arc::new(StringArray::from_iter_values(rows.iter().map(f)))
    };
    let m = |f: &dyn Fn(&Row) -> String| -> ArrayRef {
        Arc::new(StringArray::from_iter(
            rows.iter().map(|r| meta.then(|| f(r))),
        ))
    };
    let i = |f: &dyn Fn(&Row) -> i64| -> ArrayRef {
        Arc::new(Int64Array::from_iter_values(rows.iter().map(f)))
    };
    RecordBatch::try_new(
        schema(),
        vec![
            m(&|r| r.ct.clone()),
            m(&|r| r.seq.clone()),
            m(&|r| r.key.clone()),
            m(&|r| r.ppath.clone()),
            m(&|r| r.file.clone()),
            s(&|r| r.key.clone()),
            i(&|r| r.val),
            i(&|r| r.ord),
            s(&|r| r.part.clone()),
        ],
    )
    .unwrap()
}

pub fn parquet_of(b: &RecordBatch) -> Bytes {
    parquet_rg(b, 0)
}

/// With so many rows in a row group, and compressed; 0: all in one, and plain.
pub fn parquet_rg(b: &RecordBatch, row_group: usize) -> Bytes {
    let mut buf = Vec::new();
    let props = (row_group > 0).then(|| {
        parquet::file::properties::WriterProperties::builder()
            .set_max_row_group_size(row_group)
            .set_compression(parquet::basic::Compression::SNAPPY)
            .build()
    });
    let mut w = ArrowWriter::try_new(&mut buf, b.schema(), props).unwrap();
    w.write(b).unwrap();
    w.close().unwrap();
    Bytes::from(buf)
}

/// The schema with one more column.
pub fn schema_with(extra: Option<&str>) -> SchemaRef {
    let mut f: Vec<Arc<Field>> = schema().fields().iter().cloned().collect();
    if let Some(x) = extra {
        let (n, t) = named(x);
        let t = match t {
            "int" => DataType::Int32,
            "float" => DataType::Float32,
            "double" => DataType::Float64,
            _ => DataType::Int64,
        };
        f.insert(place(x), Arc::new(Field::new(n, t, true)));
    }
    Arc::new(Schema::new(f))
}

pub fn parquet(rows: &[Row], meta: bool) -> Bytes {
    parquet_with(rows, meta, None, 0)
}

/// A base file with one more column, to tell schemas apart.
pub fn parquet_with(rows: &[Row], meta: bool, extra: Option<&str>, row_group: usize) -> Bytes {
    let b = batch(rows, meta);
    let Some(x) = extra else {
        return parquet_rg(&b, row_group);
    };
    let mut c = b.columns().to_vec();
    let v = rows.iter().map(|r| r.val + 1000);
    let a: ArrayRef = match named(x).1 {
        "int" => Arc::new(Int32Array::from_iter_values(v.map(|x| x as i32))),
        "float" => Arc::new(Float32Array::from_iter_values(v.map(|x| x as f32))),
        "double" => Arc::new(Float64Array::from_iter_values(v.map(|x| x as f64))),
        _ => Arc::new(Int64Array::from_iter_values(v)),
    };
    c.insert(place(x), a);
    parquet_rg(&RecordBatch::try_new(schema_with(extra), c).unwrap(), row_group)
}

pub const COMMAND: u32 = 0;
pub const AVRO: u32 = 3;
pub const PARQUET: u32 = 5;

/// One block of a log file in format version 1.
pub fn log_block(ty: u32, header: &[(u32, &str)], content: &[u8]) -> Vec<u8> {
    log_block_v(1, ty, header, content)
}

pub fn log_block_v(version: u32, ty: u32, header: &[(u32, &str)], content: &[u8]) -> Vec<u8> {
    let mut body = Vec::new();
    body.extend(version.to_be_bytes());
    body.extend(ty.to_be_bytes());
    body.extend((header.len() as u32).to_be_bytes());
    for (k, v) in header {
        body.extend(k.to_be_bytes());
        body.extend((v.len() as u32).to_be_bytes());
        body.extend(v.as_bytes());
    }
    body.extend((content.len() as u64).to_be_bytes());
    body.extend(content);
    if version == 1 {
        body.extend(0u32.to_be_bytes());
    }
    let mut out = b"#HUDI#".to_vec();
    let len = body.len() as u64 + if version == 1 { 8 } else { 0 };
    out.extend(len.to_be_bytes());
    out.extend(&body);
    if version == 1 {
        out.extend((len + 14).to_be_bytes());
    }
    out
}

pub fn avro_content(datums: &[Vec<u8>]) -> Vec<u8> {
    let mut c = Vec::new();
    c.extend(3u32.to_be_bytes());
    c.extend((datums.len() as u32).to_be_bytes());
    for d in datums {
        c.extend((d.len() as u32).to_be_bytes());
        c.extend(d);
    }
    c
}

fn avro_row(r: &Row, extra: Option<&str>) -> Vec<u8> {
    // every field is a union [null, T]: branch 1, then the value
    fn long(o: &mut Vec<u8>, v: i64) {
        let mut z = ((v << 1) ^ (v >> 63)) as u64;
        while z >= 0x80 {
            o.push((z as u8 & 0x7f) | 0x80);
            z >>= 7;
        }
        o.push(z as u8);
    }
    let mut o = Vec::new();
    let s = |o: &mut Vec<u8>, v: &str| {
        o.push(2);
        long(o, v.len() as i64);
        o.extend(v.as_bytes());
    };
    s(&mut o, &r.ct);
    s(&mut o, &r.seq);
    s(&mut o, &r.key);
    s(&mut o, &r.ppath);
    s(&mut o, &r.file);
    s(&mut o, &r.key);
    if extra.is_some_and(|x| place(x) == 6) {
        o.push(2);
        long(&mut o, r.val + 1000);
    }
    o.push(2);
    long(&mut o, r.val);
    o.push(2);
    long(&mut o, r.ord);
    let s = |o: &mut Vec<u8>, v: &str| {
        o.push(2);
        long(o, v.len() as i64);
        o.extend(v.as_bytes());
    };
    s(&mut o, &r.part);
    if let Some(x) = extra.filter(|x| place(x) == 9) {
        o.push(2);
        match named(x).1 {
            "float" => o.extend((r.val as f32 + 1000.0).to_le_bytes()),
            "double" => o.extend((r.val as f64 + 1000.0).to_le_bytes()),
            _ => long(&mut o, r.val + 1000),
        }
    }
    o
}

pub fn data_block(ts: &str, rows: &[Row], avro: bool) -> Vec<u8> {
    data_block_with(ts, rows, avro, None)
}

/// A data block with one more column.
pub fn data_block_with(ts: &str, rows: &[Row], avro: bool, extra: Option<&str>) -> Vec<u8> {
    let mut sch = avro_schema();
    if let Some(x) = extra {
        let mut v: serde_json::Value = serde_json::from_str(&sch).unwrap();
        v["fields"].as_array_mut().unwrap().insert(place(x), added(x));
        sch = v.to_string();
    }
    let h = [(0u32, ts), (2, sch.as_str())];
    if avro {
        let d: Vec<Vec<u8>> = rows.iter().map(|r| avro_row(r, extra)).collect();
        log_block(AVRO, &h, &avro_content(&d))
    } else {
        log_block(PARQUET, &h, &parquet_with(rows, true, extra, 0))
    }
}

pub fn rollback_block(ts: &str, target: &str) -> Vec<u8> {
    log_block(COMMAND, &[(0, ts), (1, target), (3, "0")], &[])
}

/// Rows of result batches, as text, sorted.
pub fn rows_of(batches: &[RecordBatch]) -> Result<Vec<String>, String> {
    use arrow_array::Array;
    let mut out = Vec::new();
    for b in batches {
        let col = |n: &str| -> Result<ArrayRef, String> {
            b.column_by_name(n)
                .cloned()
                .ok_or_else(|| format!("column {n} missing from result"))
        };
        let s = |n: &str| -> Result<StringArray, String> {
            let c = col(n)?;
            let c = arrow::compute::cast(&c, &DataType::Utf8).map_err(|e| e.to_string())?;
            Ok(c.as_any().downcast_ref::<StringArray>().unwrap().clone())
        };
        let cols: Vec<StringArray> = [
            META[0], META[1], META[2], META[3], META[4], "val", "ord", "part", "id",
        ]
        .iter()
        .map(|n| s(n))
        .collect::<Result<_, _>>()?;
        for i in 0..b.num_rows() {
            let g = |c: usize| {
                if cols[c].is_null(i) {
                    "∅".to_string()
                } else {
                    cols[c].value(i).to_string()
                }
            };
            if g(2) != "∅" && g(2) != g(8) {
                return Err(format!("row with key {} carries id {}", g(2), g(8)));
            }
            out.push(format!(
                "{}|{}|{}|{}|{}|{}|{}|{}",
                g(0),
                g(1),
                g(8),
                g(3),
                g(4),
                g(5),
                g(6),
                g(7)
            ));
        }
    }
    out.sort();
    Ok(out)
}
