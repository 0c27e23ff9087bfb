mod checks;
mod fault;
#[path = "../../harness/src/fw.rs"]
mod fw;

#[global_allocator]
static ALLOC: fw::Guard = fw::Guard;

/// The hemtt command line itself: `HEMTT_UNDER_TEST=DIR mcx ARGS..` is `hemtt ARGS..` in DIR. The
/// checks start it as an unprivileged user who can write nothing but the scratch directory of the
/// case.
mod hemtt_cli {
    include!("../../../repo/bin/src/main.rs");
    pub fn run() {
        main();
    }
}

fn main() {
    if let Some(dir) = std::env::var_os("HEMTT_UNDER_TEST") {
        std::env::set_current_dir(dir).expect("cwd");
        fault::init();
        return hemtt_cli::run();
    }
    fw::main_with(checks::ALL);
}
