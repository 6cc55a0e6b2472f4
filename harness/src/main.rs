fn main() {
	std::process::exit(langtag_monitor::run::cli::main());
}
