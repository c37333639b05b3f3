fn main() {
    println!("cargo:rustc-env=GIT_SHA=standin");
    println!("cargo:rerun-if-changed=/repo/xdvdfs-web/src");
}
