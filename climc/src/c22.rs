//! The debug file: one complete record per pair, appended, over any history of runs.

use crate::fw::*;
use crate::tool::*;

/// One run of a history.
const RUNS: [(&str, &[(&str, &str)], Mode, usize); 7] = [
    ("single", &[("r1", "d1")], Wb, 0),
    ("single fullband", &[("r2", "d2")], Fb, 0),
    ("batch of two", &[("r1", "d3"), ("r2", "d2")], Wb, 0),
    ("empty batch", &[], Wb, 0),
    ("failing batch", &[("r1", "d1"), ("r1", "missing")], Wb, 0),
    ("single to the other file", &[("r1", "d3")], Wbu, 1),
    ("without debug file", &[("r1", "d1")], Wb, 2),
];
const INITIAL: [Option<&str>; 4] = [None, Some(""), Some("{\"old\": 1}\n"), Some("{\"old\": [1, 2]}\n{\"older\": null}")];

pub fn run(fw: &Fw) {
    let mut cs: Vec<(usize, Vec<usize>)> = vec![];
    for init in 0..INITIAL.len() {
        for w in words(RUNS.len(), 1, if init == 0 { fw.pick(3, 4) } else { fw.pick(2, 3) }) {
            cs.push((init, w));
        }
    }
    cs.sort_by_key(|c| c.1.len());
    fw.family("histories", "all histories of up to 3 runs (4 thorough) of 7 kinds (single, batch, empty, failing, other file, none) x 4 initial file contents", &cs, |c| format!("{c:?}"), |(init, w), o| {
        let dir = Dir::new();
        let files = [dir.file("a.json"), dir.file("b.json")];
        let mut want: [Option<String>; 2] = [INITIAL[*init].map(String::from), None];
        let mut recs: [usize; 2] = [records(INITIAL[*init].unwrap_or(""))?.len(), 0];
        if let Some(t) = &want[0] {
            std::fs::write(&files[0], t).unwrap();
        }
        for (k, i) in w.iter().enumerate() {
            let (name, pairs, mode, target) = &RUNS[*i];
            let named: Vec<(String, String)> = pairs.iter().map(|(r, d)| (audio(r), audio(d))).collect();
            let mut a = if pairs.len() == 1 { v(&["--reference_file", &named[0].0, "--degraded_file", &named[0].1]) } else { v(&["--batch_input_csv", &batch(&dir, "in.csv", &named)]) };
            if *target < 2 {
                a.extend(v(&["--output_debug", &files[*target]]));
            }
            a.extend(mode.args());
            let x = tool(&dir, &a)?;
            o.step(1);
            let fails = pairs.iter().any(|p| p.1 == "missing");
            ensure!(x.ok != fails, "step {k} ({name}) ended with {:?}: {}", x.code, x.stderr);
            let now: Vec<Option<String>> = files.iter().map(|f| std::fs::read_to_string(f).ok()).collect();
            for f in 0..2 {
                if f != *target || fails {
                    ensure!(now[f] == want[f], "step {k} ({name}) changed a debug file it was not asked to write");
                    continue;
                }
                let (Some(n), old) = (&now[f], want[f].clone().unwrap_or_default()) else {
                    return Err(format!("step {k} ({name}) wrote no debug file"));
                };
                ensure!(n.starts_with(&old), "step {k} ({name}) did not keep the previous contents of the debug file");
                let r = records(n).map_err(|e| format!("after step {k} ({name}): {e}"))?;
                ensure!(r.len() == recs[f] + pairs.len(), "step {k} ({name}) with {} pairs added {} records", pairs.len(), r.len() as i64 - recs[f] as i64);
                for (j, (p, rec)) in pairs.iter().zip(&r[recs[f]..]).enumerate() {
                    let e = expected(*mode, 60, p.0, p.1).ok_or("library refuses the pair")?;
                    same_record(rec, &e).map_err(|m| format!("step {k} ({name}) record {j}: {m}"))?;
                }
                recs[f] = r.len();
                want[f] = Some(n.clone());
            }
            o.state(&(now, i));
        }
        o.trace();
        o.outcome(format!("{} records", recs[0] + recs[1]));
        o.sample(format!("{:?}: {} records", w.iter().map(|i| RUNS[*i].0).collect::<Vec<_>>(), recs[0]));
        Ok(())
    });
}
