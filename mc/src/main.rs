//! mc <property> quick|thorough [seed]     run a check
//! mc replay <file>                        run only the case of a violation
use mc::report::Report;
use mc::*;
use std::sync::Arc;

const HIST: &str =
    "one case per distinct table (its files) and query, over every history of writer operations \
within the bounds in `notes`; non-trivial: the answer has rows or a value";

const SCHED: &str = "one case per schedule: the case and its sequence of choices, in depth-first order of the choices; \
`states` counts complete executions of the real code and `transitions` choice points; non-trivial: it has choice points \
(C05: at least one mutation of the writer happens before the reader is done)";
const FAULT: &str = "one case per table, query, kind of fault and position of the fault, or per table, query and damage to one file; non-trivial: the fault was met, the damage reported";

const PRUNE: &str = "one case per table, query and filter or pair of filters; non-trivial: some partition satisfies the filters, or the filter must be rejected";

const PATHS: &str = "one case per request or query and the name it is about; all are non-trivial";

const MERGE: &str = "one case per sequence of record versions and its division into batches, blocks or files; non-trivial: at least two versions";

const LOGS: &str = "one case per block sequence, its division into files, set of completed instants and window; `states` counts cases and `transitions` blocks; non-trivial: there is a data block";
const DAMAGE: &str = "one case per log file and damage; all are non-trivial";

const NAMES: &str = "one case per name, pair of files, order of files or stray file; non-trivial: the name is well-formed, or the case is one of the latter";

const AVRO_RULE: &str = "one case per column type and sequence of values; non-trivial: the type is supported and there is a row";

const ZONES: &str = "one case per timestamp, zone and setting, per pair of neighbouring timestamps, and per table; non-trivial: around a change of offset, or malformed";

const TIMELINE: &str = "one case per set of files and listing order; `states` counts folders and `transitions` files in them; non-trivial: two completed instants, or a stray file";

const CONF: &str = "one case per table opened or value read with a particular set of sources, values or file; non-trivial: something is set";

fn check(
    id: &str,
) -> Option<(
    &'static str,
    fn(&Arc<Report>),
    &'static str,
    &'static [&'static str],
)> {
    use props_hist::*;
    let writer: &[&str] = &[
        "the table format written by the harness's writer is Hudi's (it is read back by the real code in every state, and its pieces agree with the fixtures of the repository's own tests)",
    ];
    Some(match id {
        "C01" => ("model_checking", c01, HIST, writer),
        "C02" => ("model_checking", c02, HIST, writer),
        "C03" => ("model_checking", c03, HIST, writer),
        "C04" => ("fault_enumeration", c04, HIST, writer),
        "C05" => ("model_checking", sched::c05, SCHED, writer),
        "C06" => ("model_checking", sched::c06, SCHED, writer),
        "C07" => ("fault_enumeration", sched::c07, FAULT, writer),
        "C08" => ("exploration", prune::c08, PRUNE, &[]),
        "C09" => ("exploration", merge::c09, MERGE, &[]),
        "C10" => ("model_checking", logs::c10, LOGS, writer),
        "C11" => ("fault_enumeration", logs::c11, DAMAGE, writer),
        "C12" => ("exploration", avro::c12, AVRO_RULE, &[]),
        "C14" => ("exploration", names::c14, NAMES, &[]),
        "C15" => ("exploration", timeline::c15, ZONES, &["the C library's zone data is right"]),
        "C16" => ("model_checking", timeline::c16, TIMELINE, &[]),
        "C13" => ("exploration", conf::c13, CONF, &[]),
        "C17" => ("model_checking", c17, HIST, writer),
        "C18" => ("model_checking", c18, HIST, writer),
        "C19" => ("model_checking", c19, HIST, writer),
        "C20" => ("model_checking", c20, HIST, writer),
        "C24" => ("model_checking", c24, HIST, writer),
        "C21" => ("exploration", paths::c21, PATHS, &[]),
        _ => return None,
    })
}

fn main() {
    run::quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s.as_str()) == Some("zone") {
        timeline::zone(a[1] == "thorough", a.get(2).map(|s| s.as_str()));
        return;
    }
    if a.first().map(|s| s.as_str()) == Some("pyref") {
        std::process::exit(pyref::main(&a[1], a[2] == "thorough"));
    }
    let (id, thorough, seed, only) = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["replay", f] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(f).expect("replay file"))
                    .expect("json");
            (
                v["property"].as_str().unwrap().to_string(),
                v["thorough"].as_bool().unwrap_or(false),
                1,
                Some(v["key"].as_str().unwrap().to_string()),
            )
        }
        [id, tier] => (id.to_string(), tier == "thorough", 1, None),
        [id, tier, seed] => (
            id.to_string(),
            tier == "thorough",
            seed.parse().unwrap_or(1),
            None,
        ),
        _ => {
            eprintln!("usage: mc <property> quick|thorough [seed] | mc replay <file>");
            std::process::exit(2);
        }
    };
    let Some((level, f, rule, assumptions)) = check(&id) else {
        eprintln!("no check {id}");
        std::process::exit(2);
    };
    let mut rep = Report::new(&id, level, thorough, seed);
    rep.only = only;
    let rep = Arc::new(rep);
    f(&rep);
    std::process::exit(rep.finish(rule, true, assumptions));
}
