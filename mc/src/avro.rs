//! C12: Avro records of log blocks decode to the values written.
use crate::fmt::*;
use crate::mini::prefixed;
use crate::q::*;
use crate::report::Report;
use crate::run::pool;
use crate::store::{Files, Mounted};
use arrow_array::types::*;
use arrow_array::*;
use arrow_schema::{DataType, Field, Fields, Schema, TimeUnit};
use hudi_core::file_group::reader::FileGroupReader;
use serde_json::{json, Value as J};
use std::sync::Arc;

const ID: &str = "00000001-0000-4000-8000-00000000abcd-0";
const TS: &str = "20240101000000000";

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Bool,
    Int,
    Long,
    Float,
    Double,
    Bytes,
    Str,
    Fixed,
    Enum,
    Date,
    TimeMs,
    TimeUs,
    TsMs,
    TsUs,
    TsNs,
    Uuid,
    Arr(Box<Ty>),
    /// fields named c, d, e, ...
    Rec(Vec<Ty>),
    /// nullable; whether null is the first branch
    Opt(Box<Ty>, bool),
    /// not supported by the library: an error, or the right values
    Map(Box<Ty>),
    Decimal,
    DecimalFixed,
    Duration,
    LocalMs,
    LocalUs,
    Multi,
    /// a record that refers to itself in a nullable field, written one level deep
    Recursive,
    /// an enum and a reference to it by name
    Named,
}
use Ty::*;

/// A float that equals itself bit by bit.
#[derive(Clone, Copy)]
struct Fl(f64);
impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl std::fmt::Debug for Fl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    Bool(bool),
    I(i64),
    F(Fl),
    B(Vec<u8>),
    S(String),
    A(Vec<V>),
    R(Vec<V>),
    /// index of an enum symbol
    E(usize),
    M(Vec<(String, V)>),
}

const SYMBOLS: [&str; 3] = ["RED", "green", "Blue_3"];
const FIELDS: [&str; 4] = ["c", "d", "e", "f"];

fn long(o: &mut Vec<u8>, v: i64) {
    let mut z = ((v << 1) ^ (v >> 63)) as u64;
    while z >= 0x80 {
        o.push((z as u8 & 0x7f) | 0x80);
        z >>= 7;
    }
    o.push(z as u8);
}
fn uuid_text(b: &[u8]) -> String {
    let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

impl Ty {
    fn json(&self, n: &mut usize) -> J {
        *n += 1;
        let id = *n;
        match self {
            Bool => json!("boolean"),
            Int => json!("int"),
            Long => json!("long"),
            Float => json!("float"),
            Double => json!("double"),
            Bytes => json!("bytes"),
            Str => json!("string"),
            Fixed => json!({"type": "fixed", "name": format!("fx{id}"), "size": 3}),
            Enum => json!({"type": "enum", "name": format!("en{id}"), "symbols": SYMBOLS}),
            Date => json!({"type": "int", "logicalType": "date"}),
            TimeMs => json!({"type": "int", "logicalType": "time-millis"}),
            TimeUs => json!({"type": "long", "logicalType": "time-micros"}),
            TsMs => json!({"type": "long", "logicalType": "timestamp-millis"}),
            TsUs => json!({"type": "long", "logicalType": "timestamp-micros"}),
            TsNs => json!({"type": "long", "logicalType": "timestamp-nanos"}),
            Uuid => json!({"type": "string", "logicalType": "uuid"}),
            Arr(t) => json!({"type": "array", "items": t.json(n)}),
            Rec(f) => {
                let f: Vec<J> = f
                    .iter()
                    .zip(FIELDS)
                    .map(|(t, k)| json!({"name": k, "type": t.json(n)}))
                    .collect();
                json!({"type": "record", "name": format!("rec{id}"), "fields": f})
            }
            Opt(t, true) => json!(["null", t.json(n)]),
            Opt(t, false) => json!([t.json(n), "null"]),
            Map(t) => json!({"type": "map", "values": t.json(n)}),
            Decimal => json!({"type": "bytes", "logicalType": "decimal", "precision": 6, "scale": 2}),
            DecimalFixed => json!({"type": {"type": "fixed", "name": format!("fx{id}"), "size": 4},
                "logicalType": "decimal", "precision": 6, "scale": 2}),
            Duration => json!({"type": {"type": "fixed", "name": format!("fx{id}"), "size": 12},
                "logicalType": "duration"}),
            LocalMs => json!({"type": "long", "logicalType": "local-timestamp-millis"}),
            LocalUs => json!({"type": "long", "logicalType": "local-timestamp-micros"}),
            Multi => json!(["null", "long", "string"]),
            Recursive => json!({"type": "record", "name": format!("rec{id}"), "fields": [
                {"name": "c", "type": "long"}, {"name": "d", "type": ["null", format!("rec{id}")]}]}),
            Named => json!({"type": "record", "name": format!("rec{id}"), "fields": [
                {"name": "c", "type": {"type": "enum", "name": format!("en{id}"), "symbols": SYMBOLS}},
                {"name": "d", "type": format!("en{id}")}]}),
        }
    }
    /// The column type, and whether it is nullable.
    fn arrow(&self) -> (DataType, bool) {
        let d = match self {
            Bool => DataType::Boolean,
            Int => DataType::Int32,
            Long => DataType::Int64,
            Float => DataType::Float32,
            Double => DataType::Float64,
            Bytes => DataType::Binary,
            Str | Enum => DataType::Utf8,
            Fixed => DataType::FixedSizeBinary(3),
            Date => DataType::Date32,
            TimeMs => DataType::Time32(TimeUnit::Millisecond),
            TimeUs => DataType::Time64(TimeUnit::Microsecond),
            TsMs => DataType::Timestamp(TimeUnit::Millisecond, Some("UTC".into())),
            TsUs => DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())),
            // the Avro library does not know this logical type: by the Avro specification it is then a plain long
            TsNs => DataType::Int64,
            Uuid => DataType::FixedSizeBinary(16),
            Arr(t) => {
                let (d, n) = t.arrow();
                DataType::List(Arc::new(Field::new("element", d, n)))
            }
            Rec(f) => DataType::Struct(
                f.iter()
                    .zip(FIELDS)
                    .map(|(t, k)| {
                        let (d, n) = t.arrow();
                        Field::new(k, d, n)
                    })
                    .collect::<Fields>(),
            ),
            Opt(t, _) => return (t.arrow().0, true),
            Map(t) => {
                let (d, n) = t.arrow();
                let e = Fields::from(vec![
                    Field::new("key", DataType::Utf8, false),
                    Field::new("value", d, n),
                ]);
                DataType::Map(
                    Arc::new(Field::new("key_value", DataType::Struct(e), false)),
                    false,
                )
            }
            Decimal | DecimalFixed => DataType::Decimal128(6, 2),
            Duration => DataType::FixedSizeBinary(12),
            LocalMs => DataType::Timestamp(TimeUnit::Millisecond, None),
            LocalUs => DataType::Timestamp(TimeUnit::Microsecond, None),
            Multi => DataType::Utf8,
            Recursive => DataType::Struct(Fields::from(vec![
                Field::new("c", DataType::Int64, false),
                Field::new("d", DataType::Utf8, true),
            ])),
            Named => DataType::Struct(Fields::from(vec![
                Field::new("c", DataType::Utf8, false),
                Field::new("d", DataType::Utf8, false),
            ])),
        };
        (d, matches!(self, Multi))
    }
    fn supported(&self) -> bool {
        match self {
            // lists hold no bytes, and neither dates nor times
            Arr(t) => {
                let item = match t.as_ref() {
                    Opt(x, _) => x,
                    x => x,
                };
                t.supported()
                    && !matches!(
                        item,
                        Bytes | Fixed | Uuid | Date | TimeMs | TimeUs | TsMs | TsUs | TsNs
                    )
            }
            Opt(t, _) => t.supported(),
            Rec(f) => f.iter().all(|t| t.supported()),
            Map(_) | Decimal | DecimalFixed | Duration | LocalMs | LocalUs | Multi | Recursive
            | Named => false,
            _ => true,
        }
    }
    /// At most `n` values: extremes, empty and nested ones, nulls at each level.
    fn values(&self, n: usize) -> Vec<V> {
        let i = |v: &[i64]| v.iter().map(|x| V::I(*x)).collect::<Vec<_>>();
        let fl = |v: &[f64]| v.iter().map(|x| V::F(Fl(*x))).collect::<Vec<_>>();
        let mut v = match self {
            Bool => vec![V::Bool(true), V::Bool(false)],
            Int => i(&[7, i32::MIN as i64, i32::MAX as i64, 0, -1, 63, 64, -64, -65, 8191, 8192, 1 << 20]),
            Long => i(&[7, i64::MIN, i64::MAX, 0, 1 << 40, -1, 64, -65, 1 << 31, (1 << 53) + 1, -(1 << 34)]),
            Float => fl(&[
                1.5,
                f32::MIN as f64,
                f64::INFINITY,
                0.1f32 as f64,
                f64::NAN,
                -0.0,
                f32::MIN_POSITIVE as f64,
                f32::from_bits(1) as f64,
            ]),
            Double => fl(&[1e300, 0.1, f64::NEG_INFINITY, 0.0, f64::NAN, -0.0, f64::MIN_POSITIVE, f64::from_bits(1)]),
            Bytes => vec![V::B(vec![0, 255, 10]), V::B(vec![]), V::B(vec![200; 300]), V::B(vec![0]), V::B(b"text".to_vec())],
            Str => vec![
                V::S("aé€𝄞".into()),
                V::S("".into()),
                V::S("null".into()),
                V::S("x".repeat(200)),
                V::S("\0".into()),
                V::S(" a\n".into()),
                V::S("\"q\\".into()),
            ],
            Fixed => vec![V::B(vec![1, 2, 3]), V::B(vec![0, 0, 0]), V::B(vec![255; 3])],
            Enum => vec![V::E(1), V::E(0), V::E(2)],
            Date => i(&[19000, -1, 0, i32::MAX as i64, i32::MIN as i64]),
            TimeMs => i(&[86_399_999, 0, 1]),
            TimeUs => i(&[86_399_999_999, 0, 1, 1 << 32]),
            TsMs | TsUs | TsNs => i(&[1_700_000_000_123, -1, 0, i64::MAX, i64::MIN, 1_700_000_000_123_456, 999]),
            Uuid => vec![V::B((0..16).collect()), V::B(vec![255; 16]), V::B(vec![0; 16])],
            Opt(t, _) => {
                let mut v = t.values(n);
                v.truncate(n.max(2) - 1);
                v.insert(1, V::Null);
                v
            }
            Arr(t) => {
                let x = t.values(4);
                let at = |k: usize| x[k % x.len()].clone();
                vec![
                    V::A(vec![at(0)]),
                    V::A(vec![]),
                    V::A(vec![at(1), at(2)]),
                    V::A(vec![at(0), at(1), at(3)]),
                ]
            }
            Rec(f) => {
                let x: Vec<Vec<V>> = f.iter().map(|t| t.values(n)).collect();
                (0..n)
                    .map(|k| {
                        V::R(
                            x.iter()
                                .enumerate()
                                .map(|(j, v)| v[(k + j) % v.len()].clone())
                                .collect(),
                        )
                    })
                    .collect()
            }
            Map(t) => {
                let x = t.values(2);
                vec![
                    V::M(vec![("k".into(), x[0].clone())]),
                    V::M(vec![]),
                    V::M(vec![("a".into(), x[x.len() - 1].clone()), ("b".into(), x[0].clone())]),
                ]
            }
            Decimal => vec![V::B(vec![1, 0]), V::B(vec![255])],
            DecimalFixed => vec![V::B(vec![0, 0, 1, 0])],
            Duration => vec![V::B(vec![1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0])],
            LocalMs | LocalUs => i(&[1_700_000_000_123, 0]),
            Multi => vec![V::I(4), V::Null, V::S("s".into())],
            Recursive => vec![
                V::R(vec![V::I(1), V::Null]),
                V::R(vec![V::I(1), V::R(vec![V::I(2), V::Null])]),
            ],
            Named => vec![V::R(vec![V::E(0), V::E(1)]), V::R(vec![V::E(2), V::E(0)])],
        };
        v.truncate(n);
        v
    }
    /// A value whose lists have so many items, nulls among them where they can be; none without lists.
    fn wide(&self, len: usize) -> Option<V> {
        match self {
            Arr(t) => {
                let v = t.values(12);
                Some(V::A((0..len).map(|k| v[(k * k + k / 3) % v.len()].clone()).collect()))
            }
            Opt(t, _) => t.wide(len),
            Rec(f) if f.iter().any(|t| t.wide(0).is_some()) => {
                Some(V::R(f.iter().map(|t| t.wide(len).unwrap_or_else(|| t.values(2).pop().unwrap())).collect()))
            }
            _ => None,
        }
    }
    fn write(&self, v: &V, o: &mut Vec<u8>) {
        match (self, v) {
            (Bool, V::Bool(b)) => o.push(*b as u8),
            (Int | Long | Date | TimeMs | TimeUs | TsMs | TsUs | TsNs | LocalMs | LocalUs, V::I(i)) => {
                long(o, *i)
            }
            (Float, V::F(f)) => o.extend((f.0 as f32).to_le_bytes()),
            (Double, V::F(f)) => o.extend(f.0.to_le_bytes()),
            (Bytes | Decimal, V::B(b)) => {
                long(o, b.len() as i64);
                o.extend(b);
            }
            (Uuid, V::B(b)) => {
                long(o, 36);
                o.extend(uuid_text(b).bytes());
            }
            (Fixed | DecimalFixed | Duration, V::B(b)) => o.extend(b),
            (Str, V::S(s)) => {
                long(o, s.len() as i64);
                o.extend(s.bytes());
            }
            (Enum, V::E(k)) => long(o, *k as i64),
            (Arr(t), V::A(a)) => {
                // as one block per two items, with sizes, as writers may
                for c in a.chunks(2) {
                    let mut b = vec![];
                    for x in c {
                        t.write(x, &mut b);
                    }
                    if a.len() > 2 {
                        long(o, -(c.len() as i64));
                        long(o, b.len() as i64);
                    } else {
                        long(o, c.len() as i64);
                    }
                    o.extend(b);
                }
                long(o, 0);
            }
            (Map(t), V::M(m)) => {
                if !m.is_empty() {
                    long(o, m.len() as i64);
                    for (k, x) in m {
                        Str.write(&V::S(k.clone()), o);
                        t.write(x, o);
                    }
                }
                long(o, 0);
            }
            (Rec(f), V::R(r)) => {
                for (t, x) in f.iter().zip(r) {
                    t.write(x, o);
                }
            }
            (Opt(_, first), V::Null) => long(o, if *first { 0 } else { 1 }),
            (Opt(t, first), x) => {
                long(o, if *first { 1 } else { 0 });
                t.write(x, o);
            }
            (Multi, V::Null) => long(o, 0),
            (Multi, V::I(i)) => {
                long(o, 1);
                long(o, *i);
            }
            (Multi, s) => {
                long(o, 2);
                Str.write(s, o);
            }
            (Recursive, V::R(r)) => {
                Long.write(&r[0], o);
                match &r[1] {
                    V::Null => long(o, 0),
                    x => {
                        long(o, 1);
                        Recursive.write(x, o);
                    }
                }
            }
            (Named, V::R(r)) => {
                Enum.write(&r[0], o);
                Enum.write(&r[1], o);
            }
            (t, v) => unreachable!("{v:?} is no {t:?}"),
        }
    }
    /// The value at a position of a column.
    fn read(&self, a: &dyn Array, i: usize) -> Result<V, String> {
        if a.is_null(i) {
            return Ok(V::Null);
        }
        fn p<T: ArrowPrimitiveType>(a: &dyn Array, i: usize) -> Result<T::Native, String> {
            Ok(a.as_any()
                .downcast_ref::<PrimitiveArray<T>>()
                .ok_or_else(|| format!("column of type {}", a.data_type()))?
                .value(i))
        }
        fn c<T: 'static>(a: &dyn Array) -> Result<&T, String> {
            a.as_any()
                .downcast_ref::<T>()
                .ok_or_else(|| format!("column of type {}", a.data_type()))
        }
        Ok(match self {
            Bool => V::Bool(c::<BooleanArray>(a)?.value(i)),
            Int => V::I(p::<Int32Type>(a, i)? as i64),
            Date => V::I(p::<Date32Type>(a, i)? as i64),
            TimeMs => V::I(p::<Time32MillisecondType>(a, i)? as i64),
            Long => V::I(p::<Int64Type>(a, i)?),
            TimeUs => V::I(p::<Time64MicrosecondType>(a, i)?),
            TsMs | LocalMs => V::I(p::<TimestampMillisecondType>(a, i)?),
            TsUs | LocalUs => V::I(p::<TimestampMicrosecondType>(a, i)?),
            TsNs => V::I(p::<Int64Type>(a, i)?),
            Float => V::F(Fl(p::<Float32Type>(a, i)? as f64)),
            Double => V::F(Fl(p::<Float64Type>(a, i)?)),
            Bytes => V::B(c::<BinaryArray>(a)?.value(i).to_vec()),
            Fixed | Uuid | Duration => V::B(c::<FixedSizeBinaryArray>(a)?.value(i).to_vec()),
            Str => V::S(c::<StringArray>(a)?.value(i).into()),
            Enum => {
                let s = c::<StringArray>(a)?.value(i);
                V::E(SYMBOLS.iter().position(|x| *x == s).ok_or(format!("symbol {s}"))?)
            }
            Arr(t) => {
                let x = c::<ListArray>(a)?.value(i);
                V::A((0..x.len()).map(|k| t.read(&x, k)).collect::<Result<_, _>>()?)
            }
            Rec(f) => {
                let x = c::<StructArray>(a)?;
                V::R(
                    f.iter()
                        .enumerate()
                        .map(|(k, t)| t.read(x.column(k), i))
                        .collect::<Result<_, _>>()?,
                )
            }
            Named => Rec(vec![Enum, Enum]).read(a, i)?,
            Opt(t, _) => t.read(a, i)?,
            Map(t) => {
                let x = c::<MapArray>(a)?.value(i);
                V::M(
                    (0..x.len())
                        .map(|k| {
                            let V::S(key) = Str.read(x.column(0), k)? else {
                                return Err("null key".to_string());
                            };
                            Ok((key, t.read(x.column(1), k)?))
                        })
                        .collect::<Result<_, _>>()?,
                )
            }
            Decimal | DecimalFixed => V::B(
                c::<Decimal128Array>(a)?.value(i).to_be_bytes()[12..].to_vec(),
            ),
            Multi | Recursive => return Err("no column type".into()),
        })
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

/// The columns before and after the one in question tell the rows apart.
fn whole(t: &Ty) -> Ty {
    Rec(vec![Long, t.clone(), Opt(Box::new(Str), true)])
}

/// The type with the items of its lists under another name.
fn items(d: &DataType, name: &str) -> DataType {
    let f = |f: &Arc<Field>| f.as_ref().clone().with_data_type(items(f.data_type(), name));
    match d {
        DataType::List(i) => DataType::List(Arc::new(f(i).with_name(name))),
        DataType::Struct(c) => DataType::Struct(c.iter().map(f).collect()),
        d => d.clone(),
    }
}

const ELEMENT: &str = "element";

/// An empty base file; its lists are written as writers of lists in three levels or in two do.
fn base(t: &Ty, item: &str) -> bytes::Bytes {
    let DataType::Struct(f) = items(&whole(t).arrow().0, item) else {
        unreachable!()
    };
    parquet_of(&RecordBatch::new_empty(Arc::new(Schema::new(f))))
}

fn case(rep: &Report, t: &Ty, base: &bytes::Bytes, rows: &[V]) {
    let all = whole(t);
    let written: Vec<V> = rows
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let s = if i % 2 == 0 { V::S(format!("s{i}")) } else { V::Null };
            V::R(vec![V::I(i as i64), v.clone(), s])
        })
        .collect();
    let datums: Vec<Vec<u8>> = written
        .iter()
        .map(|v| {
            let mut o = vec![];
            all.write(v, &mut o);
            o
        })
        .collect();
    let schema = all.json(&mut 0).to_string();
    let b = format!("{ID}_0-1-1_{TS}.parquet");
    let l = format!(".{ID}_{TS}.log.1_0-1-1");
    let mut f = Files::new();
    f.insert(format!("part=a/{b}"), base.clone());
    f.insert(
        format!("part=a/{l}"),
        log_block(
            AVRO,
            &[(0, "20240102000000000"), (2, &schema)],
            &avro_content(&datums),
        )
        .into(),
    );
    let store = Mounted::new(prefixed("t", f));
    let url = store.url();
    let opts = [
        ("hoodie.populate.meta.fields", "false"),
        ("hoodie.table.record.merge.strategy", "APPEND_ONLY"),
    ];
    let got = q(async {
        let mut g = hudi_core::file_group::FileGroup::new(ID.into(), "part=a".into());
        g.add_base_file_from_name(&b).map_err(e)?;
        g.add_log_file_from_name(&l).map_err(e)?;
        let s = g.get_file_slice_as_of(TS).cloned().ok_or("no slice")?;
        let r = FileGroupReader::new_with_options(&url, opts).map_err(e)?;
        r.read_file_slice(&s).await.map_err(e)
    });
    let what = || {
        let r: String = format!("{rows:?}").chars().take(300).collect();
        format!("{} rows {r}", t.show())
    };
    rep.evalv(t.supported() && rows.len() > 0, (t.show(), format!("{rows:?}")));
    match got {
        Err(m) if m.starts_with("PANIC") => rep.violation(format!("{}: {m}", what()), t.show()),
        Err(m) if t.supported() => rep.violation(format!("{}: {m}", what()), t.show()),
        Err(_) => rep.count("rejected", 1),
        Ok(batch) => {
            let s = StructArray::from(batch);
            let got: Result<Vec<V>, String> = (0..s.len()).map(|i| all.read(&s, i)).collect();
            if got.as_ref() != Ok(&written) {
                let g: String = format!("{got:?}").chars().take(400).collect();
                rep.violation(format!("{}: got {g}", what()), t.show());
            }
        }
    }
}

fn leaves() -> Vec<Ty> {
    vec![
        Bool, Int, Long, Float, Double, Bytes, Str, Fixed, Enum, Date, TimeMs, TimeUs, TsMs, TsUs,
        TsNs, Uuid,
    ]
}
fn unsupported() -> Vec<Ty> {
    vec![
        Map(Box::new(Long)),
        Map(Box::new(Str)),
        Map(Box::new(Opt(Box::new(Str), true))),
        Decimal,
        DecimalFixed,
        Duration,
        LocalMs,
        LocalUs,
        Multi,
        Recursive,
        Named,
    ]
}

/// Every way to wrap a type up to a depth: nullable, in a list, in a record alone or among others.
fn wrap(t: Ty, depth: usize, out: &mut Vec<Ty>) {
    out.push(t.clone());
    if depth == 0 {
        return;
    }
    if !matches!(t, Opt(..) | Multi) {
        for first in [true, false] {
            // the order of branches matters to the writer only: below the top once is enough
            if first || depth > 1 {
                wrap(Opt(Box::new(t.clone()), first), depth - 1, out);
            }
        }
    }
    wrap(Arr(Box::new(t.clone())), depth - 1, out);
    wrap(Rec(vec![t.clone()]), depth - 1, out);
    wrap(Rec(vec![Int, t.clone(), Opt(Box::new(Str), true)]), depth - 1, out);
}

pub fn c12(rep: &Arc<Report>) {
    let mut types = vec![];
    let depth = if rep.thorough { 5 } else { 3 };
    for t in leaves() {
        // deep nesting does not depend on the kind of leaf: two kinds go deepest
        let d = depth + usize::from(matches!(t, Bool | Str));
        wrap(t, d, &mut types);
    }
    for t in unsupported() {
        wrap(t, depth.min(3) - 1, &mut types);
    }
    let n = if rep.thorough { 4 } else { 3 };
    rep.note(&format!(
        "{} column types: each of 16 supported and 11 unsupported ones within up to {depth} levels of nullability, lists and records; every sequence of three of {n} values, single rows, no rows, all of up to 12 values one after the other, lists of 9 to 1025 items, base files that name list items otherwise, and 1025 and 2100 rows",
        types.len()
    ));
    rep.sample(json!({"type": types[types.len() / 3].show(), "schema": whole(&types[types.len() / 3]).json(&mut 0)}));
    let r = rep.clone();
    pool(rep, types, 120, |t| t.show(), move |t| {
        if !r.wants(&t.show()) {
            return;
        }
        let b = base(t, ELEMENT);
        let v = t.values(n);
        case(&r, t, &b, &[]);
        for x in &v {
            case(&r, t, &b, &[x.clone()]);
        }
        for x in &v {
            for y in &v {
                for z in &v {
                    case(&r, t, &b, &[x.clone(), y.clone(), z.clone()]);
                }
            }
        }
        case(&r, t, &b, &t.values(12));
        if t.show().contains("Arr(") {
            case(&r, t, &base(t, "array"), &t.values(12));
        }
        if let Some(x) = t.wide(9) {
            let y = |len: usize| t.wide(len).unwrap();
            case(&r, t, &b, &[v[0].clone(), x.clone(), v[1 % v.len()].clone(), y(64), y(17), x]);
            case(&r, t, &b, &[y(1025), v[0].clone(), y(300)]);
        }
        for len in [1025, 2100] {
            let many: Vec<V> = (0..len).map(|i| v[(i * i + i / 3) % v.len()].clone()).collect();
            case(&r, t, &b, &many);
        }
    });
}
