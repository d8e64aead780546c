//! Queries against the real reader, as plain values.
use crate::exec::run_free;
use crate::fmt::rows_of;
use crate::run::guard;
use arrow_array::RecordBatch;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::table::Table;
use std::future::Future;

pub type Rows = Result<Vec<String>, String>;

/// Run a query to its end; a panic is an error that starts with PANIC.
pub fn q<T>(fut: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    guard(|| run_free(fut)).and_then(|x| x)
}

pub fn e(e: impl std::fmt::Debug) -> String {
    format!("{e:?}")
}

pub async fn open(url: &str) -> Result<Table, String> {
    Table::new(url).await.map_err(e)
}
pub async fn open_with(url: &str, o: &[(&str, &str)]) -> Result<Table, String> {
    Table::new_with_options(url, o.iter().map(|(k, v)| (k.to_string(), v.to_string())))
        .await
        .map_err(e)
}
pub fn rows(r: Result<Vec<RecordBatch>, impl std::fmt::Debug>) -> Rows {
    rows_of(&r.map_err(e)?)
}
pub async fn snap(t: &Table) -> Rows {
    rows(t.read_snapshot(&[]).await)
}
pub async fn as_of(t: &Table, ts: &str) -> Rows {
    rows(t.read_snapshot_as_of(ts, &[]).await)
}
pub async fn inc(t: &Table, s: &str, end: Option<&str>) -> Rows {
    rows(t.read_incremental_records(s, end).await)
}
/// Read slices one by one, the way an engine with its own scheduling does.
pub async fn read_slices(t: &Table, slices: &[FileSlice], opts: &[(&str, &str)]) -> Rows {
    let r = t
        .create_file_group_reader_with_options(
            opts.iter().map(|(k, v)| (k.to_string(), v.to_string())),
        )
        .map_err(e)?;
    let mut out = vec![];
    for s in slices {
        out.push(r.read_file_slice(s).await.map_err(e)?);
    }
    rows_of(&out)
}
/// A slice as text: partition, file group, base file, log files.
pub fn slice_id(s: &FileSlice) -> String {
    let logs: Vec<String> = s.log_files.iter().map(|l| l.file_name()).collect();
    format!(
        "{}/{} {} +[{}]",
        s.partition_path,
        s.file_id(),
        s.base_file.file_name(),
        logs.join(",")
    )
}
