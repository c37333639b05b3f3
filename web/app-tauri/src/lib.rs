//! The desktop application's own crate root, and a way to show its page
#![allow(dead_code, unused, clippy::all)]
include!("/repo/xdvdfs-web/src/main.rs");

pub fn page() -> yew::Page {
    yew::Page::new::<App>(())
}
