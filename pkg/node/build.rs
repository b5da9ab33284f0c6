fn main() { println!("cargo:rustc-cfg=mozak_verif"); }
