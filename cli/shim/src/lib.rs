//! Stands for the logger in the build of the barc command for the simulator:
//! passes everything on to it, and links the simulator, which starts before
//! the command does and calls the command's entry point in each run.

use libc::{c_char, c_int};

extern "C" {
    fn main(argc: c_int, argv: *const *const c_char) -> c_int;
}

extern "C" fn start(_: c_int, _: *const *const c_char, _: *const *const c_char) {
    std::process::exit(bisim::entry(Some(main)));
}

#[used]
#[link_section = ".init_array"]
static START: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = start;

pub fn setup_logger(level: u32) -> Result<(), piccolog::Flaw> {
    // Keeps the entry above in the program.
    if unsafe { std::ptr::read_volatile(&START) } as usize == 0 {
        std::process::abort();
    }
    piccolog::setup_logger(level)
}
