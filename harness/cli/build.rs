fn main() {
    for v in [
        "BUILD_TIMESTAMP", "CARGO_FEATURES", "CARGO_OPT_LEVEL", "CARGO_TARGET_TRIPLE", "GIT_DESCRIBE", "GIT_SHA", "RUSTC_CHANNEL", "RUSTC_COMMIT_HASH",
        "RUSTC_HOST_TRIPLE", "RUSTC_LLVM_VERSION", "RUSTC_SEMVER",
    ] {
        println!("cargo:rustc-env=VERGEN_{v}=VERGEN_IDEMPOTENT_OUTPUT");
    }
}
