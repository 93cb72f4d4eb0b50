mod wsharness { pub use ::wsharness::sym; pub use ::wsjsharness::ALL; }
include!("../../../harness/src/bin/replay.rs");
