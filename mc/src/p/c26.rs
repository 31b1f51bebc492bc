//! Files with different sample rates are never scored.

use crate::api::*;
use crate::ensure;
use crate::fw::*;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut rates: Vec<u32> = vec![1, 7, 100, 999, 1000, 1001, 2000, 4000, 8000, 8001, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 44101, 48000, 96000, 192000, 1 << 20, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX];
    if fw.thorough {
        rates.extend((7990..8010).chain(1 << 16..(1 << 16) + 10).chain(47990..48010));
        rates.sort();
        rates.dedup();
    }
    let paths: Vec<(u32, String)> = rates
        .iter()
        .map(|r| {
            let p = scratch_path(&format!("rate-{r}.wav"));
            let x = quantize(&segment(Voice, 1000, 1000, 1));
            let mut b = wav_bytes(1, 1, &x);
            b[24..28].copy_from_slice(&r.to_le_bytes());
            b[28..32].copy_from_slice(&r.wrapping_mul(2).to_le_bytes());
            std::fs::write(&p, b).expect("write");
            (*r, p)
        })
        .collect();
    let cs: Vec<(Cfg, usize, usize)> = [WB, FB].iter().flat_map(|c| (0..paths.len()).flat_map(move |i| (0..rates_len(i)).map(move |j| (c.clone(), i, j)))).filter(|c| c.2 < paths.len()).collect();
    fn rates_len(_: usize) -> usize {
        256
    }
    fw.family("rate-pairs", "all ordered pairs of sample rates x modes", &cs, |c| format!("{} {} {}", c.0.short(), rates[c.1], rates[c.2]), |(cfg, i, j), o| {
        let (a, b) = (paths[*i].0, paths[*j].0);
        // a pair at one rate may be scored or refused for its length
        if a == b && a != 1000 && a != 999 {
            return Ok(());
        }
        let x = guarded(|| Mgr::new(cfg, 1).run(&paths[*i].1, &paths[*j].1)).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(1);
        o.trace();
        o.state(&(cfg, a, b, x.is_ok()));
        match x {
            Ok(x) => {
                o.outcome("scored");
                ensure!(a == b, "files at {a} Hz and {b} Hz were scored {}", x.moslqo);
            }
            Err(e) => {
                o.outcome("refused");
                ensure!(a != b, "two files at {a} Hz were refused: {e}");
                let t: Vec<&str> = e.split(|c: char| !c.is_ascii_digit()).collect();
                let both = t.contains(&a.to_string().as_str()) && t.contains(&b.to_string().as_str());
                // a rate whose byte rate overflows the header makes the file itself unreadable
                ensure!(both || a.max(b) >= 1 << 31, "files at {a} Hz and {b} Hz were refused without naming the rates: {e}");
                o.sample(e);
            }
        }
        Ok(())
    });
    // the same in memory
    let x = segment(Voice, 1000, 1000, 1);
    fw.family("rate-pairs-in-memory", "all ordered pairs of sample rates x modes, as signals in memory", &cs, |c| format!("{} {} {}", c.0.short(), rates[c.1], rates[c.2]), |(cfg, i, j), o| {
        let (a, b) = (rates[*i], rates[*j]);
        if a == b && a != 1000 && a != 999 {
            return Ok(());
        }
        let r = guarded(|| Mgr::new(cfg, 1).compare(&x, &x, a, b)).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(1);
        o.trace();
        o.state(&(cfg, a, b, r.is_ok(), "memory"));
        match r {
            Ok(r) => {
                o.outcome("scored");
                ensure!(a == b, "signals at {a} Hz and {b} Hz were scored {}", r.moslqo);
            }
            Err(e) => {
                o.outcome("refused");
                ensure!(a != b, "two signals at {a} Hz were refused: {e}");
                let t: Vec<&str> = e.split(|c: char| !c.is_ascii_digit()).collect();
                ensure!(t.contains(&a.to_string().as_str()) && t.contains(&b.to_string().as_str()), "signals at {a} Hz and {b} Hz were refused without naming the rates: {e}");
            }
        }
        Ok(())
    });
    // an evaluator that has refused a pair still scores the next one, and the other way round
    let seqs = words(5, 1, fw.pick(4, 5));
    let ids: Vec<usize> = [1000u32, 999, 8000].iter().map(|r| paths.iter().position(|p| p.0 == *r).unwrap()).collect();
    fw.family("sequences", "all sequences of matching and mismatching pairs on one evaluator", &seqs, |s| format!("{s:?}"), |s, o| {
        let mut m = Mgr::new(&WB, 1);
        let mem: Vec<f64> = quantize(&segment(Voice, 1000, 1000, 1)).iter().map(|v| *v as f64 / 32767.0).collect();
        let want = Mgr::new(&WB, 1).run(&paths[ids[0]].1, &paths[ids[0]].1).map_err(|e| format!("reference run failed: {e}"))?;
        for (k, a) in s.iter().enumerate() {
            let (i, j) = [(0, 0), (0, 1), (2, 0)][*a % 3];
            let x = if *a < 3 { m.run(&paths[ids[i]].1, &paths[ids[j]].1) } else { m.compare(&mem, &mem, paths[ids[i]].0, paths[ids[j]].0) };
            o.step(1);
            o.state(&(k, a, x.is_ok()));
            ensure!(x.is_ok() == (*a % 3 == 0), "step {k} of {s:?}: {:?}", x.map(|x| x.moslqo));
            if let Ok(x) = x {
                ensure!(bits(&x) == bits(&want), "step {k} of {s:?}: another result than on a fresh evaluator");
            }
        }
        o.trace();
        o.outcome(format!("{} steps", s.len()));
        Ok(())
    });
}
