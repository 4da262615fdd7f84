fn main() {
    // The simulated processes (dlopen'ed libraries) must bind to this executable's symbols.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
}
