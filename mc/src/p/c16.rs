//! Fullband quality mapping: the score is the prediction of the given model file, limited to 1..5.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model::Svr;
use crate::sig::*;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

#[derive(Clone, Debug)]
struct M {
    name: String,
    text: String,
}

fn file(gamma: f64, rho: f64, sv: &[(f64, Vec<f64>)]) -> String {
    let mut s = format!("svm_type nu_svr\nkernel_type rbf\ngamma {gamma}\nnr_class 2\ntotal_sv {}\nrho {rho}\nSV\n", sv.len());
    for (c, v) in sv {
        s += &format!("{c} ");
        for (i, x) in v.iter().enumerate() {
            s += &format!("{}:{} ", i + 1, x);
        }
        s += "\n";
    }
    s
}

fn models() -> Vec<M> {
    let mut v = vec![];
    let ones = vec![1.0; 32];
    // constant predictions around and beyond the limits
    for rho in [2.0, 0.0, -0.5, -0.999, -1.0, -1.001, -2.5, -4.999, -5.0, -5.001, -7.0, -1000.0] {
        v.push(M { name: format!("constant {}", -rho), text: file(0.01, rho, &[(0.0, ones.clone())]) });
    }
    // sensitive to one band only
    for b in 0..32 {
        let mut x = vec![0.0; 32];
        x[b] = 4.0;
        v.push(M { name: format!("band {b}"), text: file(0.05, -2.0, &[(5.0, x)]) });
    }
    // two and three vectors of both signs, several widths
    let half: Vec<f64> = (0..32).map(|i| i as f64 / 32.0).collect();
    let rev: Vec<f64> = half.iter().rev().cloned().collect();
    for gamma in [0.001, 0.01, 0.1, 1.0] {
        for rho in [-3.0, -1.5] {
            for (c, d) in [(1.0, -1.0), (2.0, 0.5), (-1.5, -0.5)] {
                v.push(M { name: format!("gamma {gamma} rho {rho} coefficients {c} {d}"), text: file(gamma, rho, &[(c, half.clone()), (d, rev.clone()), (0.25, ones.clone())]) });
            }
        }
    }
    v
}

fn with_model(path: &str, radius: usize, r: &[f64], d: &[f64]) -> Result<visqol_rs::similarity_result::SimilarityResult, String> {
    guarded(|| {
        let mut m = VisqolManager::<32>::new(Variant::Fullband { model_path: path.into() }, radius);
        let mut a = crate::signal!(r, 1000);
        let mut b = crate::signal!(d, 1000);
        m.compute_results(&mut a, &mut b).map_err(|e| e.to_string())
    })?
}

fn mos_of(svr: &Svr, x: &visqol_rs::similarity_result::SimilarityResult) -> f64 {
    if x.vnsim < 0.15 {
        1.0
    } else {
        svr.mos(&x.fvnsim)
    }
}

pub fn run(fw: &Fw) {
    let pairs: Vec<(Seg, Op)> = [Noise, Voice, Bursts].iter().flat_map(|s| [Op::Noise(0.0), Op::Noise(0.03), Op::Noise(0.3), Op::LowPass, Op::Dropout(0.4, 0.6)].map(|o| (*s, o))).collect();
    let ms = models();
    let cs: Vec<(usize, Seg, Op)> = (0..ms.len()).flat_map(|m| pairs.iter().enumerate().filter(move |(i, _)| m < 12 || (i + m) % 5 == 0).map(move |(_, p)| (m, p.0, p.1))).collect();
    fw.family("model-files", "model files: constant predictions around both limits, one model per band, widths x offsets x coefficients; x signal pairs", &cs, |c| format!("{} {:?} {:?}", ms[c.0].name, c.1, c.2), |(m, s, op), o| {
        let path = scratch_path(&format!("model-{m}-{s:?}-{}.txt", hash_of(&format!("{op:?}"))));
        std::fs::write(&path, &ms[*m].text).map_err(|e| e.to_string())?;
        let r = segment(*s, 1000, 1000, 2);
        let d = apply(*op, &r);
        let x = with_model(&path, 0, &r, &d);
        std::fs::remove_file(&path).ok();
        let x = x?;
        let svr = Svr::parse(&ms[*m].text, 32);
        let want = mos_of(&svr, &x);
        o.step(1);
        o.trace();
        o.state_f(&[x.moslqo, x.vnsim, *m as f64]);
        let raw = svr.raw(&x.fvnsim);
        o.outcome(if raw < 1.0 { "limited to 1" } else if raw > 5.0 { "limited to 5" } else { "within" });
        o.sample(format!("{} {s:?} {op:?} -> {} (unlimited {raw})", ms[*m].name, x.moslqo));
        ensure!((1.0..=5.0).contains(&x.moslqo), "score {} outside 1..5", x.moslqo);
        ensure!((x.moslqo - want).abs() < 1e-4, "score {} but the model file predicts {want} (unlimited {raw}) for the reported band similarities {:?}", x.moslqo, x.fvnsim);
        Ok(())
    });
    // the shipped model
    let mut o = ops();
    for a in [0.001, 0.01, 0.03, 0.1, 0.3, 1.0, 3.0] {
        o.push(Op::Noise(a));
    }
    o.extend([Op::Replace(3), Op::Silent, Op::Reverse]);
    let mut cs = space(&[FB], &[1000], &[1], &[Noise, Voice, Tone, Bursts], fw.pick(1, 2), &o, 1);
    cs.extend(space(&[FB], &[1000], &[0], &[Noise, Voice], 1, &o, 2));
    cs.extend(space(&[FB], &[2000, 8000], &[0], &[Noise, Voice], 1, &o, 1));
    if fw.thorough {
        cs.extend(space(&[FB], &[16000, 44100], &[0], &[Noise, Voice], 1, &o, 1));
        cs.extend(space(&[FB], &[1000], &[0], &[Noise, Voice, Tone, Bursts], 1, &o, 2));
    }
    fw.family("shipped-model", "words x degradation sequences: score against the shipped model's prediction from the reported band similarities", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        o.step(1);
        let Ok(x) = compare(&FB, c.radius, &r, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))? else {
            o.outcome("refused");
            return Ok(());
        };
        let want = mos_of(&svr(), &x);
        o.trace();
        o.state_f(&flat(&x));
        o.outcome(format!("mos {:.1}", (x.moslqo * 5.0).floor() / 5.0));
        if (x.vnsim - 0.15).abs() > 1e-9 {
            ensure!((x.moslqo - want).abs() < 1e-4, "score {} but the model predicts {want} for the reported band similarities", x.moslqo);
        }
        Ok(())
    });
    // evaluators with different models side by side, in every order of use
    let orders = words(3, 1, fw.pick(3, 4));
    fw.family("side-by-side", "all sequences of uses of three evaluators with different model files", &orders, |w| format!("{w:?}"), |w, o| {
        let t = ["constant 2.5", "band 3", "gamma 0.1 rho -3 coefficients 2 0.5"];
        let texts: Vec<&M> = t.iter().map(|n| ms.iter().find(|m| m.name == *n).unwrap()).collect();
        let paths: Vec<String> = (0..3).map(|i| scratch_path(&format!("side-{}-{i}.txt", hash_of(w)))).collect();
        for (p, m) in paths.iter().zip(&texts) {
            std::fs::write(p, &m.text).map_err(|e| e.to_string())?;
        }
        let mut ev: Vec<VisqolManager<32>> = paths.iter().map(|p| VisqolManager::new(Variant::Fullband { model_path: p.clone() }, 0)).collect();
        for p in &paths {
            std::fs::remove_file(p).ok();
        }
        let r = segment(Voice, 1000, 960, 2);
        for (k, i) in w.iter().enumerate() {
            let d = apply([Op::Noise(0.05), Op::LowPass, Op::Noise(0.5)][k % 3], &r);
            let mut a = crate::signal!(&r, 1000);
            let mut b = crate::signal!(&d, 1000);
            let x = ev[*i].compute_results(&mut a, &mut b).map_err(|e| e.to_string())?;
            o.step(1);
            o.state_f(&[x.moslqo, *i as f64, k as f64]);
            let want = mos_of(&Svr::parse(&texts[*i].text, 32), &x);
            ensure!((x.moslqo - want).abs() < 1e-4, "use {k}: evaluator {i} scores {} but its model predicts {want}", x.moslqo);
        }
        o.trace();
        o.outcome(format!("{} uses", w.len()));
        Ok(())
    });
}
