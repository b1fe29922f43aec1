fn main() {
    #[cfg(sym_native)]
    sym::native::main(&h_bench::tables());
}
