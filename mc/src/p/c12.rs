//! Framing: 80 ms windows every 20 ms at every sample rate, each analysed on its own.

use crate::api::*;
use crate::cases::*;
use crate::conform::conform;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut cs = vec![];
    // every remainder of the signal length modulo the hop
    for cfg in [WB, FB] {
        for rate in [1000u32, 1013, 1500] {
            let (w, h) = (model::window_size(rate), model::hop_size(rate));
            let base = if cfg == FB { 46 } else { 34 };
            for extra in 0..=fw.pick(h, 3 * h) {
                for s in [Noise, Voice] {
                    cs.push(Case { cfg: cfg.clone(), rate, radius: 1, word: vec![s], seg: w + base * h + extra, ops: vec![Op::Noise(0.1)] });
                }
            }
        }
    }
    // sample rates, odd ones included
    let mut rates: Vec<u32> = (100..=2000).step_by(fw.pick(97, 13)).collect();
    rates.extend([300, 441, 999, 1001, 1249, 1250, 1251, 2205, 3999, 4000, 5512, 7350, 8000, 8001, 11025, 11127, 12000, 15999, 16000, 22050]);
    rates.extend([44100, 48000]);
    if fw.thorough {
        rates.extend([24000, 32000, 37800, 44056, 47999, 50000, 64000, 88200, 96000]);
    }
    for rate in rates {
        for cfg in [WB, FB] {
            if cfg == FB && rate > 9000 && ![16000, 48000].contains(&rate) && !fw.thorough {
                continue;
            }
            for o in [vec![], vec![Op::Noise(0.3)], vec![Op::LowPass]] {
                if rate > 9000 && o.is_empty() {
                    continue;
                }
                let frames = if cfg == FB { 50 } else { 33 };
                cs.push(Case { cfg: cfg.clone(), rate, radius: 1, word: vec![Noise], seg: seg_len(rate, frames, 1) + 3, ops: o });
            }
        }
    }
    cs.extend(long_cases(fw.thorough, &[Op::Noise(0.05)]));
    cs.sort_by_key(|c| c.rate);
    fw.family("framing", "every signal length modulo the hop x sample rates from 100 Hz up x modes, against the reference spectrogram", &cs, |c| c.key(), conform);
    // samples after the last complete window do not exist for the comparison
    let mut ts = vec![];
    for cfg in [WB, FB] {
        for rate in [1000u32, 2000] {
            for extra in 1..model::hop_size(rate) {
                for seg in [Noise, Voice, Bursts] {
                    ts.push((cfg.clone(), rate, extra, seg));
                }
            }
        }
    }
    fw.family("incomplete-window", "every number of samples beyond the last complete window x segment kinds x modes: number of frames and patches unaffected", &ts, |t| format!("{} rate={} extra={} {:?}", t.0.short(), t.1, t.2, t.3), |(cfg, rate, extra, seg), o| {
        let (w, h) = (model::window_size(*rate), model::hop_size(*rate));
        // exactly enough frames for one patch more or less
        let cols = if *cfg == FB { 44 } else { 28 };
        let n = w + (cols - 1) * h;
        let short = segment(*seg, *rate, n + extra, 1);
        o.step(2);
        o.state(&(cfg, rate, extra, seg));
        ensure!(compare(cfg, 1, &short, &short, *rate).map_err(|p| format!("comparison panicked: {p}"))?.is_err(), "{cols} complete windows and {extra} samples were scored although {} windows are needed", cols + 1);
        let full = segment(*seg, *rate, n + h + extra, 1);
        let x = score(cfg, 1, &full, &full, *rate)?;
        ensure!(x.patch_sims.len() == 1, "{} patches in {} frames", x.patch_sims.len(), cols + 1);
        o.trace();
        o.outcome("boundary");
        Ok(())
    });
}
