//! Coverage-guided search: libFuzzer's bytes are the choice tape of the
//! property named by GV_PROP (or, for "raw", a file to decode).
#![no_main]
use gv::engine::{CaseId, Tier, install_hook, run_case};
use gv::tape::Tape;
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;

#[global_allocator]
static ALLOC: gv::mem::Counting = gv::mem::Counting;

static ID: OnceLock<String> = OnceLock::new();

fuzz_target!(|data: &[u8]| {
    let id = ID.get_or_init(|| {
        install_hook();
        gv::io::install_logger();
        std::env::var("GV_PROP").expect("GV_PROP")
    });
    let p = gv::run::find(id.trim_end_matches("raw"));
    let mut tape = if id.ends_with("raw") { Tape::file(data.to_vec()) } else { Tape::bytes(data.to_vec()) };
    let (r, _) = run_case(&p, CaseId::Rand(0), Tier::Thorough, &mut tape);
    if let Err(m) = r {
        eprintln!("FAILS: {m}");
        std::process::abort();
    }
});
