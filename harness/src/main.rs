fn main() {
    vh::cli::main(Vec::new());
}
