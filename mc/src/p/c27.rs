//! Comparing two files gives exactly the result of comparing the signals they contain.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::sig::*;

#[derive(Clone)]
struct F {
    cfg: Cfg,
    rate: u32,
    ch: (u16, u16),
    w: Vec<Seg>,
    op: Vec<Op>,
}

pub fn interleave(x: &[i16], ch: u16) -> Vec<i16> {
    // the channels differ, their mean is not one of them
    x.iter().flat_map(|v| (0..ch).map(move |c| if c % 2 == 0 { *v } else { v / 3 })).collect()
}

pub fn run(fw: &Fw) {
    let mut cs = vec![];
    for cfg in [WB, WBU, FB] {
        for rate in [1000u32, 1600, 8000] {
            for ch in [(1u16, 1u16), (2, 2), (1, 2), (3, 1)] {
                for w in seg_words(&[Noise, Voice, Silence], 1, fw.pick(2, 3)) {
                    for op in op_words(&[Op::Noise(0.1), Op::Delay(30), Op::Gain(0.1), Op::Trunc(0.7), Op::Clip(0.2), Op::Trunc(0.01)], 0, 1) {
                        if rate == 8000 && (w.len() > 1 || ch.0 != 2) {
                            continue;
                        }
                        if cfg != WB && (rate == 1600 || w.len() > fw.pick(1, 2)) {
                            continue;
                        }
                        cs.push(F { cfg: cfg.clone(), rate, ch, w: w.clone(), op });
                    }
                }
            }
        }
    }
    fw.family("files", "words x degradations x channel counts x rates x modes: from files, and from the decoded samples", &cs, |f| format!("{} rate={} ch={:?} {:?} {:?}", f.cfg.short(), f.rate, f.ch, f.w, f.op), |f, o| {
        let r = word(&f.w, f.rate, seg_len(f.rate, if f.cfg == FB { 50 } else { 36 }, f.w.len()));
        let d = degrade(&f.op, &r);
        let (qr, qd) = (interleave(&quantize(&r), f.ch.0), interleave(&quantize(&d), f.ch.1));
        let id = hash_of(&format!("{}{}{:?}{:?}{:?}", f.cfg.short(), f.rate, f.ch, f.w, f.op));
        let (pr, pd) = (scratch_path(&format!("r{id}.wav")), scratch_path(&format!("d{id}.wav")));
        write_wav(&pr, f.ch.0, f.rate, &qr);
        write_wav(&pd, f.ch.1, f.rate, &qd);
        let x = guarded(|| Mgr::new(&f.cfg, 3).run(&pr, &pd));
        std::fs::remove_file(&pr).ok();
        std::fs::remove_file(&pd).ok();
        let x = x.map_err(|p| format!("comparison panicked: {p}"))?;
        let mono = |q: &[i16], ch: u16| -> Vec<f64> { q.chunks(ch as usize).map(|c| c.iter().map(|s| *s as f64 / 32767.0).sum::<f64>() / ch as f64).collect() };
        let y = compare(&f.cfg, 3, &mono(&qr, f.ch.0), &mono(&qd, f.ch.1), f.rate).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(2);
        o.trace();
        match (x, y) {
            (Ok(x), Ok(y)) => {
                o.state_f(&flat(&x));
                o.outcome("scored");
                o.sample(format!("{} {:?} {:?} ch {:?}: {}", f.cfg.short(), f.w, f.op, f.ch, x.moslqo));
                let (a, b) = (flat(&x), flat(&y));
                ensure!(a.len() == b.len(), "results of different shape");
                // several channels may be summed in another order
                let e = if f.ch == (1, 1) { 1e-12 } else { 1e-6 };
                ensure!(close_v(&a, &b, e), "from files: moslqo {} vnsim {}, from the samples: {} {}", x.moslqo, x.vnsim, y.moslqo, y.vnsim);
                Ok(())
            }
            (Err(x), Err(y)) => {
                o.outcome("refused");
                o.state(&x);
                ensure!(x == y, "from files refused with {x}, from the samples with {y}");
                Ok(())
            }
            (x, y) => Err(format!("from files {:?}, from the samples {:?}", x.map(|x| x.moslqo), y.map(|y| y.moslqo))),
        }
    });
}
