//! The reported patch intervals are real intervals of the two signals, and realignment never makes a patch worse.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut ops = ops();
    ops.extend([Op::Swap, Op::Trunc(0.5), Op::Replace(3), Op::Insert(0.35, 9), Op::Cut(0.35, 9), Op::Insert(0.45, 13), Op::Silent, Op::Dropout(0.2, 0.8)]);
    let mut cs = space(&[WB], &[1000], &[60], &[Noise, Voice, Silence], 3, &ops, 1);
    cs.extend(space(&[WB], &[1000], &[1, 3], &[Noise, Voice, Bursts], 2, &ops, 1));
    cs.extend(space(&[FB], &[1000], &[2, 60], &[Noise, Voice], 2, &ops, 1));
    cs.extend(space(&[WB], &[2000], &[2], &[Noise, Voice], 2, &ops, fw.pick(1, 2)));
    cs.extend(space(&[WB], &[11025, 16000], &[2], &[Voice], 2, &[Op::Insert(0.5, 61), Op::Noise(0.05)], 1));
    // lags whose length in seconds is not exact in binary
    cs.extend(space(&[WB], &[11025], &[1], &[Noise], 2, &[Op::Insert(0.5, 15), Op::Insert(0.5, 23), Op::Cut(0.5, 15), Op::Cut(0.5, 23), Op::Insert(0.3, 30)], 1));
    if fw.thorough {
        cs.extend(space(&[WB], &[1000], &[60], &[Noise, Voice, Silence], 3, &ops, 2));
        cs.extend(space(&[FB], &[1000], &[60], &[Noise, Voice, Silence], 2, &ops, 2));
        cs.extend(space(&[FB], &[22050, 48000], &[2], &[Voice], 2, &[Op::Insert(0.5, 61), Op::Noise(0.05)], 1));
    }
    cs.extend(long_cases(fw.thorough, &[Op::Insert(0.4, 33), Op::Cut(0.6, 27)]));
    cs.extend(count_cases(&[WB, FB], fw.pick(16, 40), 2, &[Op::Insert(0.5, 9), Op::Cut(0.3, 413), Op::Trunc(0.77)]));
    cs.extend(space(&[WB], &[1000], &[2, 60], &[Silence, Noise, Voice], 4, &[Op::Replace(3), Op::Noise(0.5), Op::Reverse], 1));
    cs.sort_by_key(|c| (c.ops.len(), c.rate));
    fw.family("intervals", "words x degradation sequences x modes x radii x rates", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        o.step(1);
        let Ok(x) = compare(&c.cfg, c.radius, &r, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))? else {
            o.outcome("refused");
            return Ok(());
        };
        o.state_f(&flat(&x));
        let m = model::visqol(&r, &d, c.rate, &c.cfg.model(), c.radius).map_err(|e| format!("scored, though the reference refuses: {e:?}"))?;
        let frame = model::hop_size(c.rate) as f64 / c.rate as f64;
        let dur = c.cfg.patch() as f64 * frame;
        let smp = 0.1 / c.rate as f64;
        let rlen = r.len() as f64 / c.rate as f64;
        // the degraded signal as it is compared: shifted by the global delay
        let dlen = (d.len() as f64 + if m.ambiguous { r.len() as f64 / 2.0 } else { m.lag as f64 }) / c.rate as f64;
        let mut prev = -1.0;
        for (i, p) in x.patch_sims.iter().enumerate() {
            let (rs, re, ds, de) = (p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time);
            ensure!(rs >= 0.0 && re > rs && re <= rlen + smp, "patch {i}: reference interval {rs}..{re} in a signal of {rlen} s");
            ensure!(rs > prev - dur / 2.0, "patch {i}: reference patches out of order ({rs} after {prev})");
            prev = rs;
            ensure!(re - rs <= dur + smp, "patch {i}: {} s long, a patch is {dur} s", re - rs);
            ensure!(re - rs >= dur / 2.0 - smp, "patch {i}: only {} s of a patch of {dur} s", re - rs);
            if ds == 0.0 && de == 0.0 {
                ensure!(p.similarity == 0.0 && p.freq_band_means.iter().all(|v| *v == 0.0), "patch {i} is unmatched but has similarity {}", p.similarity);
                ensure!((re - rs - dur).abs() < smp, "patch {i} is unmatched but its interval was changed");
                o.outcome("unmatched");
            } else {
                ensure!(de > ds && ds >= 0.0 && ds <= dlen + smp, "patch {i}: degraded interval {ds}..{de} in a signal of {dlen} s");
                ensure!(((de - ds) - (re - rs)).abs() < smp, "patch {i}: intervals of different length {rs}..{re} and {ds}..{de}");
                o.outcome("matched");
            }
        }
        if m.ambiguous {
            o.outcome("ambiguous");
            return Ok(());
        }
        o.trace();
        ensure!(x.patch_sims.len() == m.patches.len(), "{} patches, the reference gives {}", x.patch_sims.len(), m.patches.len());
        for (i, (p, q)) in x.patch_sims.iter().zip(&m.patches).enumerate() {
            ensure!(p.similarity >= q.coarse_sim - 1e-7, "patch {i}: realignment lowered the similarity from {} to {}", q.coarse_sim, p.similarity);
            if q.fine && q.lag != 0.0 {
                o.outcome("realigned");
                o.sample(format!("{} patch {i}: {} -> {} by a shift of {} s", c.key(), q.coarse_sim, p.similarity, q.lag));
            }
        }
        crate::compare::patches(&x, &m, c.rate)
    });
    // the last match may run past the end of the degraded signal: every missing length up to two frames
    let mut es = vec![];
    for (cfg, rate) in [(WB, 1000u32), (FB, 1000), (WB, 441)] {
        let h = model::hop_size(rate);
        for missing in 0..=fw.pick(6, 25) * h + 1 {
            for w in [[Noise, Noise], [Noise, Voice]] {
                for ops in [vec![], vec![Op::Noise(0.1)], vec![Op::Insert(0.5, 7)]] {
                    let frames = if cfg == FB { 46 } else { 42 };
                    let seg = seg_len(rate, frames, 2);
                    let mut o = ops.clone();
                    o.push(Op::Trunc((2 * seg - missing) as f64 / (2 * seg) as f64 + 1e-9));
                    es.push(Case { cfg: cfg.clone(), rate, radius: 1, word: w.to_vec(), seg, ops: o });
                }
            }
        }
    }
    fw.family("missing-end", "degraded signals that end 0..6 frames early (25 thorough), every length, x words x degradations x modes x rates, against the reference", &es, |c| c.key(), crate::conform::conform);
    // a small time jump inside the signal is absorbed by the realignment: the shift is found exactly
    let mut js = vec![];
    for cfg in [WB, FB] {
        for rate in [1000u32, 2000, 8000] {
            for j in 1..=fw.pick(9usize, 40) {
                for sign in [false, true] {
                    if rate == 8000 && j % 4 != 1 && !fw.thorough {
                        continue;
                    }
                    js.push((cfg.clone(), rate, j * rate as usize / 1000, sign));
                }
            }
        }
    }
    fw.family("jump", "a jump of every size below half a frame (and beyond) halfway through a noise signal, both directions: every fully shifted patch is realigned to a perfect match", &js, |j| format!("{} rate={} jump={}{}", j.0.short(), j.1, if j.3 { "+" } else { "-" }, j.2), |(cfg, rate, j, later), o| {
        let frames = if *cfg == FB { 160 } else { 100 };
        let n = seg_len(*rate, frames, 1);
        let r = segment(Noise, *rate, n, 1);
        let d = degrade(&[if *later { Op::Insert(0.5, *j) } else { Op::Cut(0.5, *j) }], &r);
        let x = score(cfg, 1, &r, &d, *rate)?;
        o.step(1);
        o.trace();
        o.state_f(&flat(&x));
        // the global alignment aligns one half; in the other half every patch clear of the jump and of the
        // edges can be realigned by exactly the jump, up to what lies outside the patch
        let jump = *j as f64 / *rate as f64;
        let mid = n as f64 / *rate as f64 / 2.0;
        let dur = cfg.patch() as f64 * model::hop_size(*rate) as f64 / *rate as f64;
        for (i, p) in x.patch_sims.iter().enumerate() {
            let clear = p.ref_patch_end_time < mid - dur / 4.0 || p.ref_patch_start_time > mid + dur / 4.0 + jump;
            if clear && p.deg_patch_end_time != 0.0 {
                ensure!(p.similarity > 0.8, "patch {i} ({}..{}) is clear of a jump of {jump} s at {mid} s but scores only {}", p.ref_patch_start_time, p.ref_patch_end_time, p.similarity);
                o.outcome(format!("clear {}", (p.similarity * 20.0).floor() / 20.0));
            }
        }
        Ok(())
    });
}
