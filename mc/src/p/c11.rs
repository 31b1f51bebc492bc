//! Patch segmentation: patches of 0.4 s (wideband) / 0.6 s (fullband) from the documented first frame, as
//! many as fit.

use crate::api::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut cs: Vec<(Cfg, u32, usize)> = vec![];
    for n in (560..2300).step_by(fw.pick(3, 1)) {
        cs.push((WB, 1000, n));
    }
    for n in (900..3100).step_by(fw.pick(5, 1)) {
        cs.push((FB, 1000, n));
    }
    for rate in [999u32, 1013, 1500, 2000, 3000, 4000, 6000, 8000, 11025, 12000, 16000, 22050, 24000, 32000] {
        let (w, h) = (model::window_size(rate), model::hop_size(rate));
        for frames in [28usize, 29, 30, 48, 49, 50, 68, 69, 70] {
            if rate < 4000 || frames % 20 >= 8 || fw.thorough {
                for d in [0, h - 1] {
                    cs.push((WB, rate, w + (frames - 1) * h + d));
                }
            }
        }
        for frames in [44usize, 45, 46, 74, 75, 76, 104, 105, 106] {
            if rate < 3000 || (frames <= 75 && rate < 9000) || fw.thorough {
                for d in [0, h - 1] {
                    cs.push((FB, rate, w + (frames - 1) * h + d));
                }
            }
        }
    }
    if fw.thorough {
        for rate in [44100u32, 48000] {
            let (w, h) = (model::window_size(rate), model::hop_size(rate));
            for f in [29usize, 49, 69] {
                cs.push((WB, rate, w + (f - 1) * h));
            }
            for f in [45usize, 75, 76] {
                cs.push((FB, rate, w + (f - 1) * h));
            }
        }
    }
    // every boundary up to 60 patches
    for k in 0..fw.pick(30, 75) {
        for f in [28 + 20 * k, 29 + 20 * k] {
            cs.push((WB, 1000, 80 + f * 20 - 20 + k % 19));
        }
        for f in [44 + 30 * k, 45 + 30 * k] {
            cs.push((FB, 1000, 80 + f * 20 - 20 + k % 19));
        }
    }
    fw.family("lengths", "reference lengths from below the minimum to four patches, sample by sample, the boundaries at further rates and up to 30 patches (75 thorough)", &cs, |c| format!("{} rate={} n={}", c.0.short(), c.1, c.2), |(cfg, rate, n), o| {
        // full activity everywhere
        let x: Vec<f64> = segment(Noise, *rate, *n, 2);
        let (w, h) = (model::window_size(*rate), model::hop_size(*rate));
        let cols = 1 + (n - w) / h;
        let idx = match cfg {
            Cfg::Audio => model::image_patches(cols, 30),
            _ => model::vad_patches(&x, *rate, cols, 20).map(|v| v.indices),
        };
        let got = compare(cfg, 0, &x, &x, *rate).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(1);
        o.trace();
        let frame = h as f64 / *rate as f64;
        match (idx, got) {
            (Err(e), Err(m)) => {
                o.outcome("refused");
                o.state(&(cfg, rate, cols));
                if let model::Fail::SpectrogramTooSmall { found, min } = e {
                    ensure!(m.contains(&found.to_string()) && m.contains(&min.to_string()), "a reference of {found} frames where {min} are needed was refused with: {m}");
                }
                Ok(())
            }
            (Ok(idx), Ok(r)) => {
                let want: Vec<f64> = idx.iter().map(|i| *i as f64 * frame).collect();
                let starts: Vec<f64> = r.patch_sims.iter().map(|p| p.ref_patch_start_time).collect();
                o.state(&(cfg, rate, n, starts.len()));
                o.outcome(format!("{} {} patches", cfg.short(), starts.len()));
                o.sample(format!("{} rate={rate} n={n}: patches at {starts:?}", cfg.short()));
                ensure!(starts.len() == want.len() && starts.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-6), "patches at {starts:?}, expected at {want:?}");
                let dur = cfg.patch() as f64 * frame;
                for p in &r.patch_sims {
                    let d = p.ref_patch_end_time - p.ref_patch_start_time;
                    ensure!((d - dur).abs() <= 1.01 / *rate as f64, "a patch lasts {d} s, expected {dur} s");
                    let nominal = if *cfg == FB { 0.6 } else { 0.4 };
                    if rate % 50 == 0 {
                        ensure!((d - nominal).abs() <= 1.01 / *rate as f64, "a patch lasts {d} s, documented are {nominal} s");
                    }
                }
                Ok(())
            }
            (i, g) => Err(format!("the documented segmentation gives {i:?}, the implementation {:?}", g.map(|g| g.patch_sims.len()))),
        }
    });
}
