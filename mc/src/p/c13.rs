//! Frequency bands: reported centre frequencies, and the band a tone shows up in.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;
use std::f64::consts::PI;

pub fn run(fw: &Fw) {
    let mut rates: Vec<u32> = (120..4000).step_by(fw.pick(133, 17)).collect();
    rates.extend([1000, 2000, 4000, 8000, 11025, 12000, 15998, 15999, 16000, 16001]);
    rates.extend(fw.pick(vec![22050, 44100, 48000, 96000], vec![22050, 24000, 32000, 37800, 44056, 44100, 47250, 48000, 50000, 64000, 88200, 96000, 192000]));
    let cs: Vec<(Cfg, u32)> = rates.iter().flat_map(|r| [(WB, *r), (WBU, *r), (FB, *r)]).filter(|c| c.1 < 9000 || c.0 == WB || c.0 == FB && [11025, 16000, 44100, 48000, 96000].contains(&c.1) || fw.thorough).collect();
    fw.family("centres", "sample rates from 120 Hz up x modes: reported centre frequencies", &cs, |c| format!("{} rate={}", c.0.short(), c.1), |(cfg, rate), o| {
        let x = segment(Noise, *rate, seg_len(*rate, if *cfg == FB { 46 } else { 30 }, 1), 0);
        let r = score(cfg, 0, &x, &x, *rate)?;
        o.step(1);
        o.trace();
        o.state_f(&r.center_freq_bands);
        let bands = cfg.bands();
        let hi = model::max_freq(bands, *rate);
        let want = model::center_freqs(bands, 50.0, hi);
        o.outcome(format!("{} top {}", cfg.short(), hi));
        ensure!(close_v(&r.center_freq_bands, &want, 1e-9), "centre frequencies {:?}, expected {want:?}", r.center_freq_bands);
        ensure!(hi <= 50.0 || r.center_freq_bands.windows(2).all(|w| w[0] < w[1]), "centre frequencies are not ascending: {:?}", r.center_freq_bands);
        ensure!(r.center_freq_bands.iter().all(|f| *f >= 50.0 - 1e-6 && *f <= (*rate as f64 / 2.0).max(50.0)), "a centre frequency lies outside 50 Hz..half the sample rate: {:?}", r.center_freq_bands);
        o.sample(format!("{} rate={rate}: {:.1}..{:.1} Hz", cfg.short(), r.center_freq_bands[0], r.center_freq_bands[bands - 1]));
        Ok(())
    });
    // a tone at a band's centre
    let mut ts = vec![];
    for cfg in [WB, FB] {
        for rate in fw.pick(vec![2000u32, 4000, 8000, 16000, 48000], vec![2000, 3000, 4000, 8000, 11025, 16000, 22050, 44100, 48000]) {
            for b in 0..cfg.bands() {
                if rate > 8000 && !fw.thorough && (b % 4 != 0 || rate > 16000 && b % 10 != 0) {
                    continue;
                }
                ts.push((cfg.clone(), rate, b));
            }
        }
    }
    fw.family("tones", "a tone at the centre of every band x sample rates x modes: the reported energy peaks in that band", &ts, |t| format!("{} rate={} band={}", t.0.short(), t.1, t.2), |(cfg, rate, b), o| {
        let f = model::center_freqs(cfg.bands(), 50.0, model::max_freq(cfg.bands(), *rate))[*b];
        let n = seg_len(*rate, if *cfg == FB { 46 } else { 30 }, 1);
        let x: Vec<f64> = (0..n).map(|i| 0.5 * (2.0 * PI * f * i as f64 / *rate as f64 + 0.3).sin()).collect();
        let r = score(cfg, 0, &x, &x, *rate)?;
        o.step(1);
        let e = &r.fvdegenergy;
        o.state_f(e);
        let top = (0..e.len()).max_by(|i, j| e[*i].partial_cmp(&e[*j]).unwrap()).unwrap();
        // the reference decides where neighbours overlap or the tone is close to half the sample rate
        let case = Case { cfg: cfg.clone(), rate: *rate, radius: 0, word: vec![], seg: 0, ops: vec![] };
        let m = model::visqol(&x, &x, *rate, &case.cfg.model(), 0).map_err(|e| format!("{e:?}"))?;
        let want = (0..e.len()).max_by(|i, j| m.energy[*i].partial_cmp(&m.energy[*j]).unwrap()).unwrap();
        o.trace();
        o.outcome(if want == *b { "peak in its own band" } else { "peak elsewhere (band edge)" });
        if !m.any_tight {
            ensure!(close_v(e, &m.energy, 1e-5), "band energies of a {f} Hz tone {e:?}, expected {:?}", m.energy);
        }
        ensure!(top == want, "a tone of {f} Hz, the centre of band {b}, has its energy peak in band {top} ({:?})", e);
        ensure!((top as i64 - *b as i64).abs() <= 1, "a tone of {f} Hz, the centre of band {b}, has its energy peak in band {top}");
        o.sample(format!("{} rate={rate}: {f:.1} Hz peaks in band {top}", cfg.short()));
        Ok(())
    });
}
