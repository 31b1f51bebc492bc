//! A signal compared with itself is a perfect match, whatever the signal.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;
use visqol_rs::similarity_result::SimilarityResult;

pub fn perfect_mos(cfg: &Cfg) -> f64 {
    match cfg {
        Cfg::Speech { scaled } => model::speech_mos(1.0, *scaled),
        Cfg::Audio => svr().mos(&[1.0; 32]),
    }
}

pub fn is_perfect(x: &SimilarityResult, cfg: &Cfg, exact_times: bool) -> Verdict {
    let e = 1e-7;
    ensure!((x.vnsim - 1.0).abs() < e, "vnsim {} for a signal compared with itself", x.vnsim);
    ensure!(x.fvnsim.iter().all(|v| (v - 1.0).abs() < e), "fvnsim {:?} for a signal compared with itself", x.fvnsim);
    ensure!(x.fstdnsim.iter().all(|v| v.abs() < 1e-3), "fstdnsim {:?} for a signal compared with itself", x.fstdnsim);
    ensure!((x.moslqo - perfect_mos(cfg)).abs() < 1e-3, "moslqo {} for a signal compared with itself, a perfect match scores {}", x.moslqo, perfect_mos(cfg));
    for (i, p) in x.patch_sims.iter().enumerate() {
        ensure!((p.similarity - 1.0).abs() < e, "patch {i} similarity {}", p.similarity);
        if exact_times {
            ensure!(
                (p.ref_patch_start_time - p.deg_patch_start_time).abs() < 1e-9 && (p.ref_patch_end_time - p.deg_patch_end_time).abs() < 1e-9,
                "patch {i} of the signal at {}..{} was matched with {}..{} of the same signal",
                p.ref_patch_start_time,
                p.ref_patch_end_time,
                p.deg_patch_start_time,
                p.deg_patch_end_time
            );
        }
    }
    Ok(())
}

pub fn run(fw: &Fw) {
    let segs = [Noise, Silence, Tone, Voice, Low, Bursts, Square, Quiet, Dc];
    let mut cs = vec![];
    for radius in [0usize, 1, 5, 60] {
        cs.extend(space(&[WB], &[1000], &[radius], &segs, fw.pick(2, 3), &[], 0));
        cs.extend(space(&[FB], &[1000], &[radius], &segs[..fw.pick(6, 9)], 2, &[], 0));
    }
    cs.extend(space(&[WBU], &[1000], &[60], &segs, 2, &[], 0));
    cs.extend(space(&[WB], &[1000], &[60], &segs[..6], 3, &[], 0));
    cs.extend(space(&[WB, FB], &[1001, 2000, 3999, 8000], &[60], &segs[..4], 1, &[], 0));
    cs.extend(space(&[WB, FB], &[11025, 16000, 22050], &[4], &[Noise, Voice], 1, &[], 0));
    if fw.thorough {
        cs.extend(space(&[WB, FB], &[44100, 48000], &[4], &[Noise, Voice, Tone], 1, &[], 0));
        cs.extend(space(&[FB], &[1000], &[60], &segs[..6], 3, &[], 0));
    }
    cs.extend(long_cases(fw.thorough, &[]));
    cs.extend(count_cases(&[WB, FB], fw.pick(16, 40), 2, &[]));
    fw.family("identity", "every word over segment kinds x modes x search radii x sample rates, compared with itself; 1 to 75 patches", &cs, |c| c.key(), |c, o| {
        let r = c.reference();
        let x = score(&c.cfg, c.radius, &r, &r, c.rate)?;
        o.step(1);
        o.trace();
        o.state_f(&r);
        o.outcome(format!("{} {} patches", c.cfg.short(), x.patch_sims.len()));
        // where a signal repeats itself an equally good match may lie elsewhere
        let distinct = c.word.iter().all(|s| matches!(s, Noise | Voice | Bursts));
        is_perfect(&x, &c.cfg, distinct || c.radius == 0)?;
        if c.radius == 0 {
            o.sample(format!("{} -> {}", c.key(), x.moslqo));
        }
        Ok(())
    });
    // every length
    let step = fw.pick(7, 1);
    let lens: Vec<(Cfg, usize)> = (640..1400).step_by(step).map(|n| (WB, n)).chain((960..2100).step_by(step).map(|n| (FB, n))).collect();
    fw.family("lengths", &format!("every {step}th signal length from the shortest scorable to three patches"), &lens, |c| format!("{} n={}", c.0.short(), c.1), |(cfg, n), o| {
        let r = segment(Voice, 1000, *n, 3);
        let x = score(cfg, 2, &r, &r, 1000)?;
        o.step(1);
        o.trace();
        o.state(&(cfg, n, x.patch_sims.len()));
        is_perfect(&x, cfg, true)
    });
    // a wideband comparison cannot beat the perfect match
    let cs = space(&[WB, WBU], &[1000], &[60], &[Noise, Voice, Tone], 2, &ops(), 1);
    fw.family("bound", "no degraded version of a reference scores above the reference itself (wideband)", &cs, |c| c.key(), |c, o| {
        let x = c.real()?;
        o.step(1);
        o.state_f(&flat(&x));
        ensure!(x.moslqo <= perfect_mos(&c.cfg) + 1e-9, "a degraded signal scored {}, above the perfect match {}", x.moslqo, perfect_mos(&c.cfg));
        o.trace();
        Ok(())
    });
    // the same through files, also with several channels
    let mut fs = vec![];
    for cfg in [WB, FB] {
        for ch in [1u16, 2, 3] {
            for w in seg_words(&[Noise, Voice, Tone, Silence], 2, 2) {
                fs.push((cfg.clone(), ch, w));
            }
        }
    }
    fw.family("files", "a file against itself and against a byte-identical copy: 16 words x 1..3 channels x 2 modes", &fs, |c| format!("{} ch={} {:?}", c.0.short(), c.1, c.2), |(cfg, ch, w), o| {
        let x = word(w, 1000, if *cfg == FB { 800 } else { 560 });
        let q = quantize(&x);
        let inter: Vec<i16> = q.iter().flat_map(|s| (0..*ch).map(move |k| s.wrapping_div(k as i16 + 1))).collect();
        let name = format!("id-{}-{ch}-{:?}", cfg.short(), w).replace(['[', ']', ' ', ','], "");
        let (a, b) = (scratch_path(&format!("{name}-a.wav")), scratch_path(&format!("{name}-b.wav")));
        write_wav(&a, *ch, 1000, &inter);
        std::fs::copy(&a, &b).unwrap();
        for (r, d) in [(&a, &a), (&a, &b)] {
            let x = guarded(|| Mgr::new(cfg, 60).run(r, d)).and_then(|x| x)?;
            o.step(1);
            o.state_f(&flat(&x));
            is_perfect(&x, cfg, false)?;
        }
        o.trace();
        Ok(())
    });
}
