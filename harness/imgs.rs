// Images as the decoders hand them out, for the processing stages.
use rawloader::decoders::*;
use rawloader::CFA;
pub fn image(w: usize, h: usize, cpp: usize, pattern: &str) -> RawImage {
    RawImage {
        make: "Make".into(), model: "Model".into(), clean_make: "Make".into(), clean_model: "Model".into(), width: w, height: h, cpp,
        wb_coeffs: [2.0, 1.0, 1.5, f32::NAN], whitelevels: [4095; 4], blacklevels: [128; 4],
        xyz_to_cam: [[0.7, 0.1, 0.05], [0.2, 0.8, 0.1], [0.02, 0.1, 0.9], [0.0, 0.0, 0.0]],
        cfa: CFA::new(pattern), crops: [0; 4], orientation: Orientation::Normal, data: vec![0; w * h * cpp],
    }
}
