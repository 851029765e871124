#![allow(dead_code)]
#[path = "api.rs"]
mod api;
use api::*;

macro_rules! harnesses { ($($n:ident => $p:path),* $(,)?) => {
    $(#[cfg(feature = "ir")] #[no_mangle] pub extern "C" fn $n() { quiet(); if caught(|| $p()).is_none() { fail("a panic escapes") } })*
    #[cfg(feature = "native")]
    fn dispatch(n: &str) -> bool { match n { $(stringify!($n) => { if caught(|| $p()).is_none() { fail("a panic escapes") } true })* _ => false } }
} }

#[path = "util.rs"]
mod util;
#[path = "formats.rs"]
mod formats;
#[path = "packed.rs"]
mod packed;
#[path = "imgs.rs"]
mod imgs;
#[path = "cfa.rs"]
mod cfa;
#[path = "render.rs"]
mod render;
#[path = "jpeg.rs"]
mod jpeg;
#[path = "process.rs"]
mod process;
#[path = "tables.rs"]
mod tables;
#[path = "meta.rs"]
mod meta;
#[path = "codecs.rs"]
mod codecs;
#[path = "samples.rs"]
mod samples;
#[path = "history.rs"]
mod history;
#[path = "container.rs"]
mod container;
harnesses! {
    h_pef => codecs::pentax, h_nef => codecs::nikon, h_arw1 => codecs::arw1, h_arw2 => codecs::arw2, h_srf => codecs::srf, h_srw1 => codecs::srw1, h_srw2 => codecs::srw2, h_srw3 => codecs::srw3, h_iiq => codecs::phase, h_dcr => codecs::kodak, h_orf => codecs::olympus, h_rw2 => codecs::panasonic, h_crw => codecs::canon,
    h_meta => meta::run, h_box => container::run, h_variants => container::variants, h_sched => history::schedules, h_render_sched => history::rendering, h_history => history::sequences, h_reading => history::reading,
    h_levels => process::levels, h_masked => process::masked, h_orient => process::orient, h_output => process::output, h_gamma => process::gamma_curve, h_colors => process::colors, h_curve => process::base_curve,
    h_dng_strip => jpeg::dng_strip, h_dng_tiles => jpeg::dng_tiles, h_cr2 => jpeg::cr2_plain, h_sraw => jpeg::cr2_sraw, h_tfr => jpeg::tfr_run, h_mos => jpeg::mos_run,
    h_crop => render::crop, h_full => render::full, h_size => render::size, h_limits => render::limits, h_scaled => render::scaled,
    h_cfa => cfa::run,
    h_packed => packed::run,
}

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).expect("cannot read the counterexample");
    *INPUT.lock().unwrap() = t.lines().filter(|l| l.starts_with("c ") || l.starts_with("b ") || *l == "b").map(|l| if l == "b" { "b ".to_string() } else { l.to_string() }).collect();
    quiet();
    if !dispatch(&a[1]) { eprintln!("no harness {}", a[1]); std::process::exit(4) }
    println!("PASSED");
}
