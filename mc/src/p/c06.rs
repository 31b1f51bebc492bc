//! A constant delay of the degraded signal, up to half the reference, is compensated before scoring.

use crate::api::*;
use crate::cases::*;
use crate::compare::{patches, scores};
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;
use visqol_rs::similarity_result::SimilarityResult;

pub fn same(a: &SimilarityResult, b: &SimilarityResult, rate: u32, energy: bool) -> Verdict {
    let e = 1e-5;
    ensure!(close(a.moslqo, b.moslqo, e) && close(a.vnsim, b.vnsim, e), "moslqo {} vnsim {} instead of {} {}", b.moslqo, b.vnsim, a.moslqo, a.vnsim);
    ensure!(close_v(&a.fvnsim, &b.fvnsim, e), "band similarities {:?} instead of {:?}", b.fvnsim, a.fvnsim);
    ensure!(a.patch_sims.len() == b.patch_sims.len(), "{} patches instead of {}", b.patch_sims.len(), a.patch_sims.len());
    for (i, (p, q)) in a.patch_sims.iter().zip(&b.patch_sims).enumerate() {
        ensure!(close(p.similarity, q.similarity, e), "patch {i} similarity {} instead of {}", q.similarity, p.similarity);
        let t = 1.5 / rate as f64;
        ensure!(
            (p.ref_patch_start_time - q.ref_patch_start_time).abs() < t && (p.deg_patch_start_time - q.deg_patch_start_time).abs() < t,
            "patch {i} matched {} with {} instead of {} with {}",
            q.ref_patch_start_time,
            q.deg_patch_start_time,
            p.ref_patch_start_time,
            p.deg_patch_start_time
        );
    }
    if energy {
        ensure!(close_v(&a.fvdegenergy, &b.fvdegenergy, e), "energies {:?} instead of {:?}", b.fvdegenergy, a.fvdegenergy);
    }
    Ok(())
}

#[derive(Clone)]
struct D {
    cfg: Cfg,
    rate: u32,
    w: Vec<Seg>,
    n: usize,
    k: usize,
    advance: bool,
    ops: Vec<Op>,
}

pub fn run(fw: &Fw) {
    let key = |d: &D| format!("{} rate={} ref={:?} n={} {}={} ops={:?}", d.cfg.short(), d.rate, d.w, d.n, if d.advance { "advance" } else { "delay" }, d.k, d.ops);
    let mut v: Vec<D> = vec![];
    let mut add = |cfg: &Cfg, rate: u32, w: &[Seg], n: usize, ks: &[usize], ops: &[Op]| {
        for k in ks {
            for advance in [false, true] {
                // an advance loses the beginning: keep it small enough for the remainder to dominate
                if advance && *k > n / 10 {
                    continue;
                }
                // a filter delays a little by itself: stay clear of the limit
                if *k + if ops.contains(&Op::LowPass) { 10 } else { 0 } <= n / 2 {
                    v.push(D { cfg: cfg.clone(), rate, w: w.to_vec(), n, k: *k, advance, ops: ops.to_vec() });
                }
            }
        }
    };
    let all = |n: usize, step: usize| -> Vec<usize> {
        let mut k: Vec<usize> = (0..=n / 2).step_by(step).collect();
        k.extend([1, 2, 3, 19, 20, 21, 255, 256, n / 2 - 1, n / 2]);
        k.sort();
        k.dedup();
        k
    };
    for w in seg_words(&[Noise, Voice, Bursts], 2, 2) {
        add(&WB, 1000, &w, 700, &all(700, fw.pick(9, 1)), &[]);
        add(&WB, 1000, &w, 1024, &all(1024, fw.pick(101, 7)), &[Op::Noise(0.05)]);
        add(&WB, 1000, &w, 801, &all(801, fw.pick(67, 7)), &[Op::LowPass]);
        add(&FB, 1000, &w, 1001, &all(1001, fw.pick(83, 7)), &[]);
    }
    for rate in [8000u32, 11025, 16000] {
        let n = rate as usize * 9 / 10;
        add(&WB, rate, &[Noise, Voice], n, &[1, 7, rate as usize / 10, n / 4, n / 2], &[]);
        add(&FB, rate, &[Noise, Voice], n * 5 / 4, &[1, rate as usize / 7, n / 2], &[]);
    }
    if fw.thorough {
        for rate in [44100u32, 48000] {
            let n = rate as usize * 12 / 10;
            add(&WB, rate, &[Noise, Voice], n, &[1, 7, rate as usize / 10, n / 4, n / 2], &[]);
            add(&FB, rate, &[Noise, Voice], n, &[1, rate as usize / 7, n / 2], &[]);
        }
    }
    for n in (640..1200).step_by(fw.pick(23, 1)) {
        add(&WB, 1000, &[Voice], n, &[37, n / 2], &[]);
    }
    v.sort_by_key(|d| (d.rate, d.ops.len()));
    fw.family("compensated", "delays of every length up to half the reference (prepended silence) and advances (lost beginning) x words x modes x rates x lengths", &v, key, |d, o| {
        let r: Vec<f64> = word(&d.w, d.rate, d.n / d.w.len() + 1)[..d.n].to_vec();
        let base = degrade(&d.ops, &r);
        let (undelayed, delayed) = if d.advance { (degrade(&[Op::Advance(d.k), Op::Delay(d.k)], &base), degrade(&[Op::Advance(d.k)], &base)) } else { (base.clone(), degrade(&[Op::Delay(d.k)], &base)) };
        let a = score(&d.cfg, 60, &r, &undelayed, d.rate)?;
        let b = score(&d.cfg, 60, &r, &delayed, d.rate)?;
        o.step(2);
        o.trace();
        o.state(&(key(d), b.moslqo.to_bits()));
        o.outcome(if d.advance { "advance" } else { "delay" });
        if d.k > 50 {
            o.sample(format!("{} -> {}", key(d), b.moslqo));
        }
        same(&a, &b, d.rate, false).map_err(|e| format!("a {} of {} samples was not compensated: {e}", if d.advance { "lead" } else { "delay" }, d.k))
    });
    // against the reference model, also where the delay is too long to be compensated
    let mut cs = vec![];
    for cfg in [WB, FB] {
        for n in [700usize, 1001, 1024, 1200] {
            let n = if cfg == FB { n.max(1001) } else { n };
            for k in [n / 2 - 1, n / 2, n / 2 + 1, n / 2 + 2, n * 3 / 4, n - 100] {
                for w in seg_words(&[Noise, Voice, Tone, Silence], 1, 2) {
                    if cfg == FB && w.len() == 2 && !fw.thorough {
                        continue;
                    }
                    cs.push(Case { cfg: cfg.clone(), rate: 1000, radius: 60, seg: n / w.len(), word: w, ops: vec![Op::Delay(k)] });
                }
            }
        }
    }
    cs.extend(space(&[WB], &[1000, 2000], &[60], &[Noise, Voice, Tone, Silence, Dc], 2, &[Op::Delay(3), Op::Delay(250), Op::Advance(11), Op::Advance(90), Op::Gain(0.1), Op::Noise(0.5), Op::Trunc(0.7)], fw.pick(1, 2)));
    cs.extend(long_cases(fw.thorough, &[Op::Delay(1200), Op::Delay(7777), Op::Advance(2500)]));
    cs.extend(count_cases(&[WB, FB], fw.pick(12, 30), 2, &[Op::Delay(400), Op::Advance(123)]));
    fw.family("reference-model", "delays around and beyond half the reference, and delay/degradation sequences, signals of up to 31 s, against the reference model", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        o.step(1);
        let m = model::visqol(&r, &d, c.rate, &c.cfg.model(), c.radius);
        let x = compare(&c.cfg, c.radius, &r, &d, c.rate)?;
        match (m, x) {
            (Ok(m), Ok(x)) => {
                if m.ambiguous {
                    o.outcome("ambiguous");
                    return Ok(());
                }
                o.trace();
                o.state_f(&flat(&x));
                o.outcome(if m.lag == 0 { "no global lag" } else { "global lag" });
                scores(&x, &m)?;
                patches(&x, &m, c.rate)
            }
            (Err(_), Err(_)) => {
                o.outcome("refused");
                Ok(())
            }
            (m, x) => Err(format!("the reference model gives {:?}, the implementation {:?}", m.map(|m| m.moslqo), x.map(|x| x.moslqo))),
        }
    });
}
