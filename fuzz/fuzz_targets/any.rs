//! Coverage-guided search for a case that a monitor (environment variable MONITOR) rejects.
#![no_main]

use langtag_monitor::run::{Case, Ctx, Monitor, exec, install_hook};
use std::sync::OnceLock;

fn monitor() -> &'static Monitor {
	static M: OnceLock<Monitor> = OnceLock::new();
	M.get_or_init(|| {
		// In place of libFuzzer's, which aborts before the monitor can judge.
		install_hook();
		let id = std::env::var("MONITOR").expect("MONITOR");
		langtag_monitor::mon::all().into_iter().find(|m| m.id == id).expect("a monitor")
	})
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
	let m = monitor();
	let Some(case) = Case::from_fuzz(data) else { return };
	if let Err(e) = exec(m, &mut Ctx::default(), &case) {
		eprintln!("REJECTED {}: {e:?}", case.show());
		std::process::abort();
	}
});
