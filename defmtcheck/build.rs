fn main() {
    // string indices are the low 16 bits of addresses: keep the addresses of the symbol table
    println!("cargo:rustc-link-arg=-no-pie");
}
