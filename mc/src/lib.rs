pub mod avro;
pub mod conf;
pub mod exec;
pub mod fmt;
pub mod hist;
pub mod logs;
pub mod merge;
pub mod mini;
pub mod paths;
pub mod props_hist;
pub mod prune;
pub mod pyref;
pub mod q;
pub mod report;
pub mod run;
pub mod sched;
pub mod store;
pub mod world;
pub mod names;
pub mod timeline;
