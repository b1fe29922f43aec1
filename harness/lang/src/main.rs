fn main() {
    #[cfg(sym_native)]
    sym::native::main(&h_lang::tables());
}
