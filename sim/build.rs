fn main() {
    // sqlx does not check the result of sqlite3_value_dup; allocation failures are injected
    // everywhere but inside that call.
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=sqlite3_value_dup");
    println!("cargo:rerun-if-changed=build.rs");
}
