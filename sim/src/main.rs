fn main() {
    std::process::exit(bisim::entry(None));
}
