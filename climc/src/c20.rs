//! Batches: every pair scored as on its own, in order, all or nothing.

use crate::fw::*;
use crate::tool::*;

const GOOD: [(&str, &str); 4] = [("r1", "d1"), ("r2", "d2"), ("r1", "d3"), ("r2", "r2")];
const BAD: [(&str, &str); 6] = [("missing", "d1"), ("r1", "missing"), ("r1", "rate"), ("torn", "d1"), ("r1", "text"), ("short", "d1")];

fn paths(p: &[(&str, &str)]) -> Vec<(String, String)> {
    p.iter().map(|(r, d)| (audio(r), audio(d))).collect()
}

pub fn run(fw: &Fw) {
    let mut cs: Vec<(Mode, Vec<usize>)> = vec![];
    for m in [Wb, Wbu, Fb] {
        for w in words(4, 0, if m == Wb { fw.pick(4, 5) } else { fw.pick(3, 4) }) {
            cs.push((m, w));
        }
    }
    cs.sort_by_key(|c| c.1.len());
    fw.family("order", "all batches of up to 4 pairs (5 thorough) over 4 distinct pairs (repetitions included) x modes: console, results file and debug file", &cs, |c| format!("{:?} {:?}", c.0, c.1), |(m, w), o| {
        let dir = Dir::new();
        let pairs: Vec<(&str, &str)> = w.iter().map(|i| GOOD[*i]).collect();
        let b = batch(&dir, "batch.csv", &paths(&pairs));
        let (csv, json) = (dir.file("out.csv"), dir.file("out.json"));
        let mut a = v(&["--batch_input_csv", &b, "--results_csv", &csv, "--output_debug", &json]);
        a.extend(m.args());
        let x = tool(&dir, &a)?;
        o.step(1);
        ensure!(x.ok, "a batch of good pairs failed ({:?}): {}", x.code, x.stderr);
        let want: Vec<_> = pairs.iter().map(|(r, d)| expected(*m, 60, r, d).ok_or(format!("library refuses {r} {d}"))).collect::<Result<_, _>>()?;
        let got = printed(&x.stdout);
        o.state(&(m, got.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        o.outcome(format!("{m:?} {} pairs", w.len()));
        o.sample(format!("{m:?} {w:?}: {got:?}"));
        ensure!(got.len() == want.len(), "{} scores printed for {} pairs: {got:?}", got.len(), want.len());
        for (i, (g, e)) in got.iter().zip(&want).enumerate() {
            ensure!(near(*g, e.moslqo), "pair {i} of {w:?} printed as {g}, on its own it scores {}", e.moslqo);
        }
        let r = rows(&csv)?;
        ensure!(r.len() == want.len() + 1, "{} rows in the results file for {} pairs", r.len() as i64 - 1, want.len());
        for (i, (g, e)) in r[1..].iter().zip(&want).enumerate() {
            ensure!(g.len() == 3 && g[0] == audio(pairs[i].0) && g[1] == audio(pairs[i].1), "row {i} of the results file names {g:?}, the pair is {:?}", pairs[i]);
            ensure!(near(g[2].parse().unwrap_or(f64::NAN), e.moslqo), "row {i} of the results file says {}, the pair scores {}", g[2], e.moslqo);
        }
        let j = records(&std::fs::read_to_string(&json).unwrap_or_default())?;
        ensure!(j.len() == want.len(), "{} debug records for {} pairs", j.len(), want.len());
        for (g, e) in j.iter().zip(&want) {
            same_record(g, e)?;
        }
        o.trace();
        Ok(())
    });
    // failures
    let mut fs: Vec<(Mode, Vec<usize>, bool)> = vec![];
    for w in words(8, 1, fw.pick(3, 4)) {
        // symbols 0,1: good pairs; 2..7: bad ones
        let bad = w.iter().filter(|i| **i > 1).count();
        if bad == 0 || bad > 1 && w.len() > 2 {
            continue;
        }
        for pre in [false, true] {
            fs.push((Wb, w.clone(), pre));
            if w.len() < 3 {
                fs.push((Fb, w.clone(), pre));
            }
        }
    }
    fs.sort_by_key(|f| f.1.len());
    fw.family("all-or-nothing", "all batches of up to 3 pairs (4 thorough) with one unscorable pair of any kind at any position (two for length 2) x existing or absent output files", &fs, |f| format!("{:?} {:?} existing={}", f.0, f.1, f.2), |(m, w, pre), o| {
        let dir = Dir::new();
        let pairs: Vec<(&str, &str)> = w.iter().map(|i| if *i < 2 { GOOD[*i] } else { BAD[*i - 2] }).collect();
        let b = batch(&dir, "batch.csv", &paths(&pairs));
        let (csv, json) = (dir.file("out.csv"), dir.file("out.json"));
        if *pre {
            std::fs::write(&csv, "reference,degraded,moslqo\nold,old,1\n").unwrap();
            std::fs::write(&json, "{\"old\": 1}\n").unwrap();
        }
        let before = dir.listing();
        let mut a = v(&["--batch_input_csv", &b, "--results_csv", &csv, "--output_debug", &json]);
        a.extend(m.args());
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        o.state(&(m, w, pre, x.code));
        o.outcome(format!("exit {:?}", x.code));
        ensure!(!x.ok, "a batch with an unscorable pair {w:?} ended successfully: {}", x.stdout);
        ensure!(printed(&x.stdout).is_empty(), "scores of a failed batch were printed: {}", x.stdout);
        ensure!(!x.stderr.trim().is_empty() || !x.stdout.trim().is_empty(), "a failed batch says nothing");
        ensure!(dir.listing() == before, "a failed batch left files behind: {:?}", dir.listing());
        if *pre {
            ensure!(std::fs::read_to_string(&csv).unwrap() == "reference,degraded,moslqo\nold,old,1\n", "a failed batch changed the results file");
            ensure!(std::fs::read_to_string(&json).unwrap() == "{\"old\": 1}\n", "a failed batch changed the debug file");
        }
        Ok(())
    });
    // the text of the batch file
    const ROWS: [(&str, Option<(&str, &str)>); 9] = [
        ("r1.wav,d1.wav", Some(("r1", "d1"))),
        ("#r2.wav,d2.wav", Some(("r2", "d2"))),
        ("\"r1.wav\",\"d,3.wav\"", Some(("r1", "d3"))),
        (" r2.wav,d2.wav ", Some(("r2", "d2"))),
        ("'r1.wav',d\"3.wav", Some(("r1", "d3"))),
        ("", None),
        ("r1.wav", Some(("", ""))),
        ("r1.wav,d1.wav,d1.wav", Some(("", ""))),
        ("r1.wav;d1.wav", Some(("", ""))),
    ];
    let mut ts: Vec<(Vec<usize>, usize)> = vec![];
    for w in words(9, 1, fw.pick(2, 3)) {
        for ending in 0..3 {
            if w.len() < 3 || ending == 0 {
                ts.push((w.clone(), ending));
            }
        }
    }
    fw.family("batch-files", "all batch files of up to 2 lines (3 thorough) over plain, commented-looking, quoted, padded, blank and malformed lines x line endings: every well-formed line is a pair, a malformed one fails the batch", &ts, |t| format!("{t:?}"), |(w, ending), o| {
        let dir = Dir::new();
        for (name, from) in [("r1.wav", "r1"), ("d1.wav", "d1"), ("#r2.wav", "r2"), ("d2.wav", "d2"), ("d,3.wav", "d3"), (" r2.wav", "r2"), ("d2.wav ", "d2"), ("'r1.wav'", "r1"), ("d\"3.wav", "d3")] {
            std::fs::copy(audio(from), dir.file(name)).unwrap();
        }
        let eol = ["\n", "\r\n", "\n"][*ending];
        let mut text = format!("reference,degraded{eol}{}", w.iter().map(|i| format!("{}{eol}", ROWS[*i].0)).collect::<String>());
        if *ending == 2 {
            text.pop();
        }
        std::fs::write(dir.file("batch.csv"), text).unwrap();
        let before = dir.listing();
        let x = tool(&dir, &v(&["--batch_input_csv", "batch.csv", "--results_csv", "out.csv", "wideband"]))?;
        let got = printed(&x.stdout);
        o.step(1);
        o.trace();
        o.state(&(w, ending, x.code));
        let lines: Vec<(&str, &str)> = w.iter().filter_map(|i| ROWS[*i].1).collect();
        if lines.contains(&("", "")) {
            o.outcome("refused");
            ensure!(!x.ok && got.is_empty(), "a batch with a malformed line ended with {:?} and {got:?}", x.code);
            ensure!(dir.listing() == before, "a failed batch left files behind: {:?}", dir.listing());
            return Ok(());
        }
        o.outcome(format!("{} pairs", lines.len()));
        ensure!(x.ok, "failed ({:?}): {}", x.code, x.stderr);
        let want: Vec<f64> = lines.iter().map(|(r, d)| expected(Wb, 60, r, d).map(|e| e.moslqo).ok_or(format!("library refuses {r} {d}"))).collect::<Result<_, _>>()?;
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| near(*a, *b)), "printed {got:?}, the pairs named score {want:?}");
        ensure!(rows(&dir.file("out.csv"))?.len() == want.len() + 1, "{} rows for {} pairs", rows(&dir.file("out.csv"))?.len(), want.len());
        Ok(())
    });
    // single pairs
    let mut ss: Vec<(Mode, &str, &str)> = vec![];
    for m in [Wb, Wbu, Fb] {
        for r in ["r1", "r2", "short", "torn", "missing", "rate"] {
            for d in ["d1", "d2", "d3", "r1", "text", "rate", "missing"] {
                ss.push((m, r, d));
            }
        }
    }
    fw.family("single", "42 reference/degraded combinations (good and unusable files) x modes: same as the library", &ss, |s| format!("{s:?}"), |(m, r, d), o| {
        let dir = Dir::new();
        let mut a = v(&["--reference_file", &audio(r), "--degraded_file", &audio(d)]);
        a.extend(m.args());
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        o.state(&(m, r, d, x.code));
        match expected(*m, 60, r, d) {
            Some(e) => {
                o.outcome("scored");
                let got = printed(&x.stdout);
                ensure!(x.ok && got.len() == 1 && near(got[0], e.moslqo), "printed {got:?} (exit {:?}), the library scores {}", x.code, e.moslqo);
            }
            None => {
                o.outcome("refused");
                ensure!(!x.ok && printed(&x.stdout).is_empty(), "an unscorable pair ended with {:?} and {:?}", x.code, printed(&x.stdout));
            }
        }
        ensure!(dir.listing().is_empty(), "files were created without being asked for: {:?}", dir.listing());
        Ok(())
    });
}
