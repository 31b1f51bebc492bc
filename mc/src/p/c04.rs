//! The file-level numbers of a report follow from the per-patch numbers in the same report.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;
use visqol_rs::similarity_result::SimilarityResult;

pub fn aggregates(x: &SimilarityResult, cfg: &Cfg, rate: u32) -> Verdict {
    let n = x.patch_sims.len() as f64;
    let bands = cfg.bands();
    let e = 1e-9;
    let mean = |f: &dyn Fn(&visqol_rs::similarity_result::SimilarityResult, usize, usize) -> f64, b: usize| (0..x.patch_sims.len()).map(|p| f(x, p, b)).sum::<f64>() / n;
    for b in 0..bands {
        let m = mean(&|x, p, b| x.patch_sims[p].freq_band_means[b], b);
        ensure!(close(x.fvnsim[b], m, e), "fvnsim[{b}] = {} but the patches' mean is {m}", x.fvnsim[b]);
        let m = mean(&|x, p, b| x.patch_sims[p].freq_band_deg_energy[b], b);
        ensure!(close(x.fvdegenergy[b], m, e), "fvdegenergy[{b}] = {} but the patches' mean is {m}", x.fvdegenergy[b]);
    }
    let v = x.fvnsim.iter().sum::<f64>() / bands as f64;
    ensure!(close(x.vnsim, v, e), "vnsim = {} but the mean over bands is {v}", x.vnsim);
    for (i, p) in x.patch_sims.iter().enumerate() {
        let m = p.freq_band_means.iter().sum::<f64>() / bands as f64;
        ensure!(close(p.similarity, m, e), "patch {i} similarity {} but the mean of its bands is {m}", p.similarity);
    }
    // pooled deviation: every patch counts with its number of frames; a duration that is a whole number of
    // frames up to rounding may count either way
    let frame = model::hop_size(rate) as f64 / rate as f64;
    let counts: Vec<Vec<usize>> = x
        .patch_sims
        .iter()
        .map(|p| {
            let f = (p.ref_patch_end_time - p.ref_patch_start_time) / frame;
            if (f - f.round()).abs() < 1e-6 {
                vec![f.round() as usize, f.round() as usize + 1]
            } else {
                vec![f.ceil() as usize]
            }
        })
        .collect();
    let outs: Vec<model::PatchOut> = x
        .patch_sims
        .iter()
        .map(|p| model::PatchOut {
            nsim: model::Nsim { means: p.freq_band_means.clone(), stds: p.freq_band_stddevs.clone(), energy: vec![], sim: 0.0 },
            ref_start: 0.0,
            ref_end: 0.0,
            deg_start: 0.0,
            deg_end: 0.0,
            matched: true,
            coarse_sim: 0.0,
            tight: false,
            lag: 0.0,
            fine: false,
        })
        .collect();
    let choices = counts.iter().map(|c| c.len()).fold(1usize, |a, b| a.saturating_mul(b));
    let many = choices > 4096;
    let picks: Vec<Vec<usize>> = if many {
        // too many roundings to try them all: the straightforward one and the two uniform ones, with more tolerance
        let plain = x.patch_sims.iter().map(|p| ((p.ref_patch_end_time - p.ref_patch_start_time) / frame).ceil() as usize).collect();
        vec![plain, counts.iter().map(|c| c[0]).collect(), counts.iter().map(|c| *c.last().unwrap()).collect()]
    } else {
        (0..choices)
            .map(|mut r| {
                counts
                    .iter()
                    .map(|c| {
                        let v = c[r % c.len()];
                        r /= c.len();
                        v
                    })
                    .collect()
            })
            .collect()
    };
    let mut best = f64::INFINITY;
    let mut witness = vec![];
    for pick in picks {
        let s = model::pool_std(&outs, frame, &pick);
        let d = s.iter().zip(&x.fstdnsim).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
        if d < best {
            best = d;
            witness = s;
        }
    }
    ensure!(best < if many { 1e-3 } else { 1e-6 }, "fstdnsim {:?} is not the pooled deviation of the patches ({:?})", x.fstdnsim, witness);
    let mos = match cfg {
        _ if x.vnsim < 0.15 => 1.0,
        Cfg::Speech { scaled } => model::speech_mos(x.vnsim, *scaled),
        Cfg::Audio => svr().mos(&x.fvnsim),
    };
    ensure!(close(x.moslqo, mos, 5e-5), "moslqo = {} but the reported similarities map to {mos}", x.moslqo);
    let want = model::center_freqs(bands, 50.0, model::max_freq(bands, rate));
    ensure!(close_v(&x.center_freq_bands, &want, 1e-9), "center_freq_bands {:?}, expected {want:?}", x.center_freq_bands);
    Ok(())
}

pub fn run(fw: &Fw) {
    let segs = [Noise, Silence, Tone, Voice];
    let mut ops = ops();
    ops.extend([Op::Replace(3), Op::Swap, Op::Silent, Op::Trunc(0.4)]);
    let mut cs = space(&[WB], &[1000], &[60], &segs, 2, &ops, 1);
    cs.extend(space(&[WB], &[1000], &[60], &segs, fw.pick(3, 4), &ops[..fw.pick(9, 16)], 1));
    cs.extend(space(&[FB], &[1000], &[60], &segs, 2, &ops, 1));
    cs.extend(space(&[WBU], &[2000], &[1], &segs[..2], 2, &ops, 1));
    cs.extend(space(&[WB, FB], &[8000, 11025], &[2], &[Noise, Voice], 1, &ops[..6], 1));
    if fw.thorough {
        cs.extend(space(&[FB], &[1000], &[60], &segs, 3, &ops, 1));
        cs.extend(space(&[WB, FB], &[44100], &[2], &[Noise, Voice], 1, &ops[..6], 1));
    }
    cs.extend(long_cases(fw.thorough, &[Op::Noise(0.05), Op::Dropout(0.4, 0.6)]));
    cs.extend(count_cases(&[WB, FB, WBU], fw.pick(16, 40), 3, &[Op::Noise(0.05), Op::Cut(0.5, 150), Op::Replace(6)]));
    // patches left without a match
    cs.extend(space(&[WB], &[1000], &[3], &[Silence, Noise, Voice], 4, &[Op::Replace(3), Op::Noise(0.5), Op::Swap, Op::Reverse], 1));
    for k in 4..=8usize {
        for o in [vec![], vec![Op::Noise(0.05)], vec![Op::Cut(0.5, 150)], vec![Op::Dropout(0.4, 0.6)]] {
            cs.push(Case { cfg: WB, rate: 1000, radius: 3, word: vec![Voice, Noise, Low, Bursts, Voice, Tone, Noise, Voice][..k].to_vec(), seg: 420, ops: o.clone() });
            cs.push(Case { cfg: FB, rate: 1000, radius: 3, word: vec![Voice, Noise, Low, Bursts, Voice, Tone, Noise, Voice][..k].to_vec(), seg: 420, ops: o });
        }
    }
    fw.family("reports", "words over segments x degradations x modes; 1..75 patches, some of them unmatched", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        o.step(1);
        match compare(&c.cfg, c.radius, &r, &d, c.rate) {
            Err(p) => Err(format!("comparison panicked: {p}")),
            Ok(Err(_)) => {
                o.outcome("refused");
                Ok(())
            }
            Ok(Ok(x)) => {
                o.outcome(format!("{} {} patches", c.cfg.short(), x.patch_sims.len()));
                o.state_f(&flat(&x));
                o.trace();
                if c.ops.len() == 1 {
                    o.sample(format!("{} -> vnsim {} over {} patches", c.key(), x.vnsim, x.patch_sims.len()));
                }
                aggregates(&x, &c.cfg, c.rate)
            }
        }
    });
}
