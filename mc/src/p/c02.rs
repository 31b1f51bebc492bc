//! Every completed comparison reports well-formed finite numbers on their documented scales.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::sig::*;
use visqol_rs::similarity_result::SimilarityResult;

pub fn well_formed(x: &SimilarityResult, cfg: &Cfg, silent_ok: bool) -> Verdict {
    let bands = cfg.bands();
    ensure!(flat(x).iter().all(|v| v.is_finite()), "a reported number is not finite: moslqo {} vnsim {} fvnsim {:?} fstdnsim {:?}", x.moslqo, x.vnsim, x.fvnsim, x.fstdnsim);
    ensure!((1.0..=5.0).contains(&x.moslqo), "moslqo {} outside 1..5", x.moslqo);
    let eps = 1e-9;
    ensure!(x.vnsim <= 1.0 + eps && x.vnsim >= -1.0 - eps, "vnsim {} outside -1..1", x.vnsim);
    for (n, v) in [("fvnsim", &x.fvnsim), ("fstdnsim", &x.fstdnsim), ("fvdegenergy", &x.fvdegenergy), ("center_freq_bands", &x.center_freq_bands)] {
        ensure!(v.len() == bands, "{n} has {} entries for {bands} bands", v.len());
    }
    ensure!(x.fvnsim.iter().all(|v| v.abs() <= 1.0 + eps), "a band similarity lies outside -1..1: {:?}", x.fvnsim);
    ensure!(x.fstdnsim.iter().all(|v| *v >= 0.0 && *v <= 2.0), "a band deviation lies outside 0..2: {:?}", x.fstdnsim);
    ensure!(x.fvdegenergy.iter().all(|v| *v >= 0.0), "a band energy is negative: {:?}", x.fvdegenergy);
    ensure!(!x.patch_sims.is_empty(), "no patch was scored");
    for p in &x.patch_sims {
        for v in [&p.freq_band_means, &p.freq_band_stddevs, &p.freq_band_deg_energy] {
            ensure!(v.len() == bands, "a patch reports {} entries for {bands} bands", v.len());
        }
        ensure!(p.similarity.abs() <= 1.0 + eps, "patch similarity {} outside -1..1", p.similarity);
        ensure!(p.freq_band_means.iter().all(|v| v.abs() <= 1.0 + eps), "a patch band similarity lies outside -1..1");
        ensure!(p.freq_band_stddevs.iter().all(|v| *v >= 0.0), "a patch deviation is negative");
    }
    let _ = silent_ok;
    Ok(())
}

pub fn run(fw: &Fw) {
    let segs = [Noise, Silence, Voice, Square, Dc, NegDc, Quiet, Bursts];
    let mut ops = ops();
    ops.extend([Op::Silent, Op::Replace(5), Op::Reverse, Op::Invert, Op::Swap, Op::Gain(1e-4), Op::Gain(30.0), Op::Extend(300), Op::Trunc(0.45)]);
    let mut cs = space(&[WB], &[1000], &[60], &segs, fw.pick(2, 3), &ops, 1);
    cs.extend(space(&[WBU], &[1000], &[2], &segs[..fw.pick(4, 8)], 2, &ops, 1));
    cs.extend(space(&[FB], &[1000], &[60], &segs[..fw.pick(5, 8)], 2, &ops, 1));
    cs.extend(space(&[WB], &[1000], &[60], &[Loud, LoudTone, Noise, Silence], 2, &ops, 1).into_iter().filter(|c| c.word.iter().any(|s| matches!(s, Loud | LoudTone))));
    cs.extend(space(&[FB], &[1000], &[60], &[Loud, LoudTone], 1, &ops, 1));
    cs.extend(space(&[WB], &[1000], &[60], &[Noise, Silence], 2, &ops, 2));
    cs.extend(space(&[WB, FB], &[8000, 11025, 16000], &[3], &[Noise, Voice], 2, &[Op::Noise(0.5), Op::Dropout(0.4, 0.6)], 1));
    cs.extend(space(&[WB, FB], &[44100, 48000, 96000], &[0], &[Voice], 1, &[Op::Noise(0.5)], 1));
    if fw.thorough {
        cs.extend(space(&[FB], &[1000], &[60], &[Noise, Silence, Voice], 2, &ops, 2));
        cs.extend(space(&[WB, FB], &[44100, 48000], &[3], &[Noise, Voice], 2, &[Op::Noise(0.5), Op::LowPass, Op::Dropout(0.4, 0.6)], 1));
    }
    cs.extend(long_cases(fw.thorough, &[Op::Noise(0.05), Op::Replace(4)]));
    cs.extend(count_cases(&[WB, FB], fw.pick(16, 40), 2, &[Op::Noise(0.5), Op::Silent, Op::Trunc(0.6)]));
    fw.family("pairs", "words over segment kinds x degradation sequences x configurations, incl. silence, DC, clipping, full scale; reports of 1 to 17 patches (40 thorough); signals of up to 31 s at up to 48 kHz", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        o.step(1);
        match compare(&c.cfg, c.radius, &r, &d, c.rate) {
            Err(p) => Err(format!("comparison panicked: {p}")),
            Ok(Err(e)) => {
                o.outcome("refused");
                o.state(&e);
                Ok(())
            }
            Ok(Ok(x)) => {
                o.outcome(format!("{} mos {}", c.cfg.short(), x.moslqo.floor()));
                o.state_f(&flat(&x));
                o.trace();
                if !c.ops.is_empty() {
                    o.sample(format!("{} -> moslqo {} vnsim {}", c.key(), x.moslqo, x.vnsim));
                }
                well_formed(&x, &c.cfg, true)
            }
        }
    });
}
