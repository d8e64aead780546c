// sqlrun <uri> <sql> [key=value ...]: the rows of a SQL query over a Hudi table `t`, one per line
use datafusion::prelude::*;
use std::sync::Arc;
#[allow(unused_imports)]
use hudi_datafusion::HudiDataSource;
async fn run(a: &[String]) -> Result<(), Box<dyn std::error::Error>> {
    let mut c = SessionConfig::new().with_target_partitions(2);
    let mut o: Vec<(String, String)> = vec![];
    for x in &a[2..] {
        let (k, v) = x.split_once('=').unwrap();
        if k.starts_with("datafusion.") { c.options_mut().set(k, v)?; } else { o.push((k.into(), v.into())); }
    }
    let ctx = SessionContext::new_with_config(c);
    let h = HudiDataSource::new_with_options(&a[0], o).await?;
    ctx.register_table("t", Arc::new(h))?;
    let rows = ctx.sql(&a[1]).await?.collect().await?;
    for b in &rows {
        for i in 0..b.num_rows() {
            let v: Result<Vec<String>, _> = b.columns().iter().map(|x| datafusion::arrow::util::display::array_value_to_string(x, i)).collect();
            println!("{}", v?.join(","));
        }
    }
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if let Err(e) = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(run(&a)) {
        println!("ERROR {e}");
    }
}
