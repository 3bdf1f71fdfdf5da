fn main() {
    #[cfg(not(target_arch = "riscv64"))]
    sx::native_main(h_stable::ENTRIES);
}
