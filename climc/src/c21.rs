//! The results file.

use crate::fw::*;
use crate::tool::*;

/// File names that need care in a comma separated file.
const NAMES: [&str; 8] = ["plain.wav", "with space.wav", "with,comma.wav", "with\"quote.wav", "\"quoted\".wav", "umlaut-ä-漢.wav", "semi;colon'.wav", "a,b,\"c\" d.wav"];

pub fn run(fw: &Fw) {
    let mut cs: Vec<(Vec<(usize, usize)>, bool, usize)> = vec![];
    for r in 0..8 {
        for d in 0..8 {
            for single in [true, false] {
                cs.push((vec![(r, d)], single, (r + d) % 3));
            }
        }
    }
    for w in words(4, 2, fw.pick(3, 4)) {
        let p: Vec<(usize, usize)> = w.iter().enumerate().map(|(k, i)| (i * 2 % 8, (i * 3 + k) % 8)).collect();
        cs.push((p, false, w.len() % 3));
    }
    fw.family("rows", "all pairs of 8 awkward file names, single and in batches of up to 3 (4 thorough); fresh, longer and shorter existing results file", &cs, |c| format!("{c:?}"), |(ps, single, pre), o| {
        let dir = Dir::new();
        for (i, n) in NAMES.iter().enumerate() {
            std::fs::copy(audio(["r1", "d1", "r2", "d2"][i % 4]), dir.file(&format!("R{n}"))).unwrap();
            std::fs::copy(audio(["d1", "r1", "d3", "d1"][i % 4]), dir.file(&format!("D{n}"))).unwrap();
        }
        let csv = dir.file("results.csv");
        match pre {
            1 => std::fs::write(&csv, "old\n".repeat(2000)).unwrap(),
            2 => std::fs::write(&csv, "x").unwrap(),
            _ => (),
        }
        // relative and absolute paths
        let named: Vec<(String, String)> = ps.iter().enumerate().map(|(k, (r, d))| if k % 2 == 0 { (format!("R{}", NAMES[*r]), dir.file(&format!("D{}", NAMES[*d]))) } else { (dir.file(&format!("R{}", NAMES[*r])), format!("./D{}", NAMES[*d])) }).collect();
        let mut a = if *single { v(&["--reference_file", &named[0].0, "--degraded_file", &named[0].1]) } else { v(&["--batch_input_csv", &batch(&dir, "in.csv", &named)]) };
        a.extend(v(&["--results_csv", "results.csv", "wideband"]));
        let x = tool(&dir, &a)?;
        o.step(1);
        o.state(&(ps, single, pre));
        ensure!(x.ok, "failed: {}", x.stderr);
        let text = std::fs::read_to_string(&csv).map_err(|e| format!("no results file: {e}"))?;
        ensure!(text.lines().next() == Some("reference,degraded,moslqo"), "the results file starts with {:?}", text.lines().next());
        let r = rows(&csv)?;
        let got = printed(&x.stdout);
        o.sample(format!("{:?}", &r[1..]));
        o.outcome(format!("{} rows", r.len() - 1));
        ensure!(r.len() == ps.len() + 1 && got.len() == ps.len(), "{} rows and {} printed scores for {} pairs", r.len() - 1, got.len(), ps.len());
        for (k, row) in r[1..].iter().enumerate() {
            ensure!(row.len() == 3, "row {k} has {} fields: {row:?}", row.len());
            ensure!(row[0] == named[k].0 && row[1] == named[k].1, "row {k} names {:?}, given were {:?}", &row[..2], named[k]);
            let s: f64 = row[2].parse().map_err(|_| format!("row {k}: score {:?}", row[2]))?;
            ensure!(s.to_bits() == got[k].to_bits(), "row {k} says {s}, printed was {}", got[k]);
            let (a, b) = (ps[k].0 % 4, ps[k].1 % 4);
            if let Some(e) = expected(Wb, 60, ["r1", "d1", "r2", "d2"][a], ["d1", "r1", "d3", "d1"][b]) {
                ensure!(near(s, e.moslqo), "row {k} says {s}, the pair scores {}", e.moslqo);
            }
        }
        o.trace();
        Ok(())
    });
    // a results file feeds back as a batch: same rows again
    let ws = words(3, 1, fw.pick(3, 4));
    fw.family("feedback", "all batches of up to 3 pairs: the results file, used as the next batch, gives the same results file", &ws, |w| format!("{w:?}"), |w, o| {
        let dir = Dir::new();
        let good = [("r1", "d1"), ("r2", "d2"), ("r1", "d3")];
        let pairs: Vec<(String, String)> = w.iter().map(|i| (audio(good[*i].0), audio(good[*i].1))).collect();
        let b = batch(&dir, "in.csv", &pairs);
        let x = tool(&dir, &v(&["--batch_input_csv", &b, "--results_csv", "one.csv", "wideband"]))?;
        // the first two columns are the batch format
        let r = rows(&dir.file("one.csv"))?;
        let again: Vec<(String, String)> = r[1..].iter().map(|r| (r[0].clone(), r[1].clone())).collect();
        let b = batch(&dir, "in2.csv", &again);
        let y = tool(&dir, &v(&["--batch_input_csv", &b, "--results_csv", "two.csv", "wideband"]))?;
        o.step(2);
        o.trace();
        o.state(w);
        o.outcome("same");
        ensure!(x.ok && y.ok, "failed");
        ensure!(std::fs::read(dir.file("one.csv")).unwrap() == std::fs::read(dir.file("two.csv")).unwrap(), "the second results file differs");
        Ok(())
    });
}
