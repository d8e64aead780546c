//! mcdf <property> quick|thorough [seed] | mcdf replay <file>
mod sql;
mod tab;
use mc::report::Report;
use std::sync::Arc;

const RULE: &str = "one case per table, engine setting and query; `states` counts results compared and `transitions` queries run; non-trivial: the full answer has rows";

fn main() {
    // the code under test makes a runtime of its own for every look at the schema
    std::env::set_var("TOKIO_WORKER_THREADS", "1");
    mc::run::quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (id, thorough, seed, only) = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["replay", f] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(f).expect("replay file"))
                    .expect("json");
            (
                v["property"].as_str().unwrap().to_string(),
                v["thorough"].as_bool().unwrap_or(false),
                1,
                Some(v["key"].as_str().unwrap().to_string()),
            )
        }
        [id, tier] => (id.to_string(), tier == "thorough", 1, None),
        [id, tier, seed] => (id.to_string(), tier == "thorough", seed.parse().unwrap_or(1), None),
        _ => {
            eprintln!("usage: mcdf <property> quick|thorough [seed] | mcdf replay <file>");
            std::process::exit(2);
        }
    };
    if id != "C22" {
        eprintln!("no check {id}");
        std::process::exit(2);
    }
    let mut rep = Report::new(&id, "exploration", thorough, seed);
    rep.only = only;
    let rep = Arc::new(rep);
    sql::c22(&rep);
    std::process::exit(rep.finish(
        RULE,
        true,
        &["DataFusion's own evaluation of a query over rows in memory is right"],
    ));
}
