//! Wideband scoring covers exactly the reference patches with voice activity.

use crate::api::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;

/// Reference: chunk levels (fractions of full scale after normalisation) from a per-chunk pattern.
pub fn pattern_signal(first: usize, hop: usize, levels: &[f64], tail: usize) -> Vec<f64> {
    // alternating +-level: RMS == level; a single peak fixes the normalisation without affecting a chunk's
    // verdict, as it lies before the first chunk
    let mut v = vec![0.0; first];
    if first > 0 {
        v[0] = 0.9;
    }
    for l in levels {
        for i in 0..hop {
            v.push(if i % 2 == 0 { *l } else { -*l });
        }
    }
    v.extend(std::iter::repeat(0.0).take(tail));
    v
}

pub fn run(fw: &Fw) {
    let rate = 1000u32;
    let (w, h) = (model::window_size(rate), model::hop_size(rate));
    let first = 9usize;
    let mut pats: Vec<(String, Vec<f64>)> = vec![];
    // one active stretch [a, b) over three patches
    let chunks = 60;
    let step = fw.pick(1, 1);
    for a in (0..=chunks).step_by(step) {
        for len in [0usize, 1, 2, 3, 5, 18, 19, 20, 21, 40, 58, 60] {
            if a + len <= chunks {
                pats.push((format!("active[{a},{})", a + len), (0..chunks).map(|i| if i >= a && i < a + len { 0.6 } else { 0.0 }).collect()));
            }
        }
    }
    // two active chunks anywhere in patches two and three
    for a in (0..60).step_by(fw.pick(5, 2)) {
        for b in ((a + 1)..60).step_by(fw.pick(7, 3)) {
            pats.push((format!("active{{{a},{b}}}"), (0..chunks).map(|i| if i == a || i == b { 0.7 } else { 0.0 }).collect()));
        }
    }
    // levels around the threshold (5000 / 32768 of the peak of 0.9)
    for l in [0.0, 0.01, 0.1, 0.130, 0.136, 0.1365, 0.1372, 0.1381, 0.139, 0.145, 0.2, 0.5] {
        for (a, b) in [(0usize, 60usize), (20, 40), (40, 60), (30, 31)] {
            pats.push((format!("level {l} in [{a},{b})"), (0..chunks).map(|i| if i >= a && i < b { l } else { 0.0 }).collect()));
            pats.push((format!("level {l} in [{a},{b}) over 0.05"), (0..chunks).map(|i| if i >= a && i < b { l } else { 0.05 }).collect()));
        }
    }
    // per-patch activity words over six patches
    for word in words(2, 6, 6) {
        pats.push((format!("patches {word:?}"), word.iter().flat_map(|a| (0..20).map(move |i| if *a == 1 && i > 3 { 0.6 } else { 0.0 })).collect()));
    }
    // the same over signals of thirty patches
    for word in words(2, 5, 5) {
        pats.push((format!("30 patches {word:?}"), word.iter().cycle().take(30).flat_map(|a| (0..20).map(move |i| if *a == 1 && i > 3 { 0.6 } else { 0.0 })).collect()));
    }
    fw.family("activity-patterns", "reference signals with every start and several lengths of an active stretch, pairs of active chunks, levels around the threshold, and all activity words over six patches; periodic words over thirty patches", &pats, |p| p.0.clone(), |(name, levels), o| {
        let x = pattern_signal(first, h, levels, w + first * h);
        let cols = 1 + (x.len() - w) / h;
        let v = model::vad_patches(&x, rate, cols, 20).map_err(|e| format!("{e:?}"))?;
        if v.ambiguous {
            o.outcome("level at the threshold");
            return Ok(());
        }
        let r = score(&WB, 1, &x, &x, rate)?;
        o.step(1);
        let got: Vec<f64> = r.patch_sims.iter().map(|p| p.ref_patch_start_time).collect();
        let want: Vec<f64> = v.indices.iter().map(|i| *i as f64 * h as f64 / rate as f64).collect();
        o.state(&(levels.iter().map(|l| l.to_bits()).collect::<Vec<_>>(), got.len()));
        o.outcome(format!("{} of {} patches", got.len(), (cols - first) / 20));
        o.trace();
        o.sample(format!("{name} -> patches at {got:?}"));
        ensure!(got.len() == want.len(), "patches at {got:?} were scored, those with activity are at {want:?}");
        // a silent patch may be realigned within itself; starts agree up to that
        ensure!(got.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-9 || r.patch_sims.len() == want.len() && (a - b).abs() < 0.2), "patches at {got:?} were scored, those with activity are at {want:?}");
        Ok(())
    });
    // gain of the reference does not change which patches are active; rate does not either
    let mut gs: Vec<(u32, f64, Vec<usize>)> = vec![];
    for rate in [1000u32, 1500, 2000, 8000, 11025, 16000] {
        for g in [1.0, 0.3, 0.05] {
            for word in words(2, 3, 3) {
                gs.push((rate, g, word));
            }
        }
    }
    fw.family("levels-and-rates", "all activity words over three patches x reference level x sample rate", &gs, |g| format!("rate={} level={} patches={:?}", g.0, g.1, g.2), |(rate, g, word), o| {
        let (w, h) = (model::window_size(*rate), model::hop_size(*rate));
        let levels: Vec<f64> = word.iter().flat_map(|a| (0..20).map(move |i| if *a == 1 && i > 3 { 0.6 * g } else { 0.0 })).collect();
        let mut x = pattern_signal(first, h, &levels, w + first * h);
        x[0] *= g;
        let r = score(&WB, 1, &x, &x, *rate)?;
        o.step(1);
        o.trace();
        let n = word.len();
        let want = (0..n).filter(|p| *p == 0 || word[*p] == 1 || (word[*p - 1] == 1)).count();
        o.state(&(rate, g.to_bits(), word));
        o.outcome(format!("{} patches", r.patch_sims.len()));
        ensure!(r.patch_sims.len() == want, "{} patches scored at {:?}, {want} have activity (hangover included)", r.patch_sims.len(), r.patch_sims.iter().map(|p| p.ref_patch_start_time).collect::<Vec<_>>());
        Ok(())
    });
    // general signals
    let mut cs = crate::cases::space(&[WB, FB], &[1000], &[1], &[Noise, Silence, Quiet, Low, Bursts, NegDc], fw.pick(3, 4), &[], 0);
    cs.extend(crate::cases::space(&[WB, WBU], &[1000, 8000], &[0], &[Voice, Silence, Quiet], 4, &[Op::Silent, Op::Replace(3), Op::Gain(0.01)], 1).into_iter().filter(|c| c.rate == 1000 || c.ops.is_empty()));
    cs.extend(crate::cases::long_cases(fw.thorough, &[Op::Noise(0.05)]));
    cs.extend(crate::cases::count_cases(&[WB, FB], fw.pick(16, 40), 0, &[]));
    fw.family("words", "words over segment kinds x modes x degradations, up to 75 patches: which reference patches are scored, against the reference decision", &cs, |c| c.key(), |c, o| {
        let (x, d) = c.pair();
        let (w, h) = (model::window_size(c.rate), model::hop_size(c.rate));
        let cols = 1 + (x.len() - w) / h;
        let got = compare(&c.cfg, c.radius, &x, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(1);
        let idx = match c.cfg {
            Cfg::Audio => model::image_patches(cols, 30).map_err(|e| format!("{e:?}"))?,
            _ => {
                let v = model::vad_patches(&x, c.rate, cols, 20).map_err(|e| format!("{e:?}"))?;
                if v.ambiguous {
                    o.outcome("level at the threshold");
                    return Ok(());
                }
                v.indices
            }
        };
        let r = match got {
            Ok(r) => r,
            Err(e) => {
                o.outcome("refused");
                ensure!(c.model().is_err(), "refused: {e}");
                return Ok(());
            }
        };
        let frame = h as f64 / c.rate as f64;
        let want: Vec<f64> = idx.iter().map(|i| *i as f64 * frame).collect();
        let got: Vec<f64> = r.patch_sims.iter().map(|p| p.ref_patch_start_time).collect();
        o.trace();
        o.state(&(c.key(), got.len()));
        o.outcome(format!("{} of {} patches", got.len(), (cols - if c.cfg == FB { 14 } else { 9 }) / c.cfg.patch()));
        // realignment moves a start by at most half a patch
        let slack = c.cfg.patch() as f64 * frame / 2.0 + 1e-6;
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a - b).abs() < slack), "patches at {got:?} were scored, those to be scored are at {want:?}");
        Ok(())
    });
}
