//! Command line arguments: which combinations are accepted, and what each of them does.

use crate::fw::*;
use crate::tool::*;

#[derive(Clone, Debug, Hash)]
struct A {
    sub: usize,
    batch: bool,
    reference: bool,
    degraded: bool,
    csv: bool,
    json: bool,
    verbose: bool,
    radius: Option<usize>,
}
const SUBS: [&str; 5] = ["none", "wideband", "wideband unscaled", "fullband", "fullband default model"];

fn pieces(stdout: &str) -> Vec<Vec<String>> {
    // the output of each pair; the score line ends up in the pair's piece
    let mut v: Vec<Vec<String>> = vec![];
    for l in stdout.lines() {
        if l.starts_with("Reference Filepath:") {
            v.push(vec![]);
        }
        if let Some(p) = v.last_mut() {
            p.push(l.to_string());
        }
    }
    v
}

/// What --verbose prints for one pair: the files, one score, the similarity of every band and of every patch.
fn described(p: &[String], e: &visqol_rs::similarity_result::SimilarityResult, r: &str, d: &str) -> Verdict {
    let (r, d) = (audio(r), audio(d));
    ensure!(p[0].ends_with(&r) && p.iter().any(|l| l.starts_with("Degraded Filepath:") && l.ends_with(&d)), "described as {:?}", &p[..2.min(p.len())]);
    ensure!(p.iter().filter(|l| l.starts_with("MOS-LQO:")).count() == 1, "not exactly one score");
    let cells: Vec<Vec<String>> = p.iter().filter(|l| l.contains('|')).map(|l| l.split('|').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect()).collect();
    let num = |s: &String| s.parse::<f64>().unwrap_or(f64::NAN);
    for (f, cf) in e.fvnsim.iter().zip(&e.center_freq_bands) {
        ensure!(cells.iter().any(|r| r.len() == 2 && near(num(&r[0]), *f) && near(num(&r[1]), *cf)), "the similarity {f} of the band at {cf} Hz is not in the table");
    }
    ensure!(cells.iter().filter(|r| r.len() == 2 && num(&r[0]).is_finite()).count() == e.fvnsim.len(), "wrong number of bands in the table");
    for (i, q) in e.patch_sims.iter().enumerate() {
        ensure!(cells.iter().any(|r| r.len() == 4 && r[0] == i.to_string() && near(num(&r[1]), q.similarity) && r[2].contains(&q.ref_patch_start_time.to_string()) && r[3].contains(&q.deg_patch_start_time.to_string())), "patch {i} is not in the table");
    }
    ensure!(cells.iter().filter(|r| r.len() == 4 && r[0].parse::<usize>().is_ok()).count() == e.patch_sims.len(), "wrong number of patches in the table");
    Ok(())
}

pub fn run(fw: &Fw) {
    let mut cs = vec![];
    for sub in 0..5 {
        for bits in 0..64u32 {
            let b = |i: u32| bits >> i & 1 == 1;
            for radius in [None, Some(0usize), Some(1)] {
                if radius.is_some() && (b(3) || b(4)) && !fw.thorough {
                    continue;
                }
                cs.push(A { sub, batch: b(0), reference: b(1), degraded: b(2), csv: b(3), json: b(4), verbose: b(5), radius });
            }
        }
    }
    fw.family("combinations", "all subsets of --batch_input_csv, --reference_file, --degraded_file, --results_csv, --output_debug, --verbose x 5 subcommand variants x search radius", &cs, |c| format!("{} {c:?}", SUBS[c.sub]), |c, o| {
        let dir = Dir::new();
        let pairs = [("r1", "d1"), ("r2", "d2")];
        let named: Vec<(String, String)> = pairs.iter().map(|(r, d)| (audio(r), audio(d))).collect();
        let b = batch(&dir, "in.csv", &named);
        if c.sub == 4 {
            std::fs::create_dir(dir.file("model")).unwrap();
            std::fs::copy(MODEL, dir.file("model/libsvm_nu_svr_model.txt")).unwrap();
        }
        let before = dir.listing();
        let mut a: Vec<String> = vec![];
        if c.batch {
            a.extend(v(&["--batch_input_csv", &b]));
        }
        if c.reference {
            a.extend(v(&["--reference_file", &named[1].0]));
        }
        if c.degraded {
            a.extend(v(&["--degraded_file", &named[1].1]));
        }
        if c.csv {
            a.extend(v(&["--results_csv", "o.csv"]));
        }
        if c.json {
            a.extend(v(&["--output_debug", "o.json"]));
        }
        if c.verbose {
            a.push("--verbose".into());
        }
        if let Some(r) = c.radius {
            a.extend(v(&["--search_window_radius", &r.to_string()]));
        }
        let mode = [Wb, Wb, Wbu, Fb, Fb][c.sub];
        match c.sub {
            0 => (),
            4 => a.push("fullband".into()),
            _ => a.extend(mode.args()),
        }
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        // a batch together with single files is refused, or (as the help text puts it) the single files are ignored
        let mixed = c.batch && (c.reference || c.degraded);
        let files: &[(&str, &str)] = if c.batch { &pairs } else if c.reference { &pairs[1..] } else { &[] };
        let valid = c.sub != 0 && (if mixed { x.ok } else { c.reference == c.degraded });
        o.state(&(c, x.code));
        if !valid {
            o.outcome(format!("rejected {:?}", x.code));
            ensure!(!x.ok, "accepted: {}", x.stdout);
            ensure!(printed(&x.stdout).is_empty() && dir.listing() == before, "rejected, but something was computed: {:?}", dir.listing());
            return Ok(());
        }
        if files.is_empty() {
            // nothing to compare: nothing may be reported
            o.outcome("nothing to compare");
            ensure!(printed(&x.stdout).is_empty(), "scores without files");
            return Ok(());
        }
        o.outcome("accepted");
        ensure!(x.ok, "failed with {:?}: {}", x.code, x.stderr);
        let want: Vec<_> = files.iter().map(|(r, d)| expected(mode, c.radius.unwrap_or(60), r, d).ok_or("library refuses")).collect::<Result<_, _>>()?;
        let got = printed(&x.stdout);
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, e)| near(*g, e.moslqo)), "printed {got:?}, the library scores {:?}", want.iter().map(|w| w.moslqo).collect::<Vec<_>>());
        o.sample(format!("{} {:?}: {got:?}", SUBS[c.sub], a.iter().filter(|s| s.starts_with("--")).collect::<Vec<_>>()));
        let mut after = before.clone();
        if c.csv {
            after.push("o.csv".into());
        }
        if c.json {
            after.push("o.json".into());
        }
        after.sort();
        ensure!(dir.listing() == after, "files afterwards: {:?}, expected {after:?}", dir.listing());
        if c.csv {
            ensure!(rows(&dir.file("o.csv"))?.len() == files.len() + 1, "wrong number of rows");
        }
        if c.json {
            let r = records(&std::fs::read_to_string(dir.file("o.json")).unwrap())?;
            ensure!(r.len() == files.len(), "{} debug records", r.len());
            for (g, e) in r.iter().zip(&want) {
                same_record(g, e)?;
            }
        }
        let ps = pieces(&x.stdout);
        if c.verbose {
            ensure!(ps.len() == files.len(), "{} pairs described, {} compared", ps.len(), files.len());
            for (k, (p, e)) in ps.iter().zip(&want).enumerate() {
                described(p, e, files[k].0, files[k].1).map_err(|m| format!("pair {k}: {m}"))?;
            }
        } else {
            ensure!(ps.is_empty() && !x.stdout.contains("FVNSIM"), "details were printed without --verbose");
        }
        Ok(())
    });
    // search radii, and values that are none
    let rs: Vec<(usize, String)> = ["0", "1", "2", "3", "5", "10", "60", "61", "-1", "1.5", "abc", "", " 1", "1 ", "0x10", "99999999999999999999999"].iter().flat_map(|r| [1usize, 3].map(|s| (s, r.to_string()))).collect();
    fw.family("radii", "valid and malformed search radii x modes", &rs, |r| format!("{r:?}"), |(sub, r), o| {
        let dir = Dir::new();
        let mode = [Wb, Wb, Wbu, Fb][*sub];
        let mut a = v(&["--reference_file", &audio("r1"), "--degraded_file", &audio("d3"), &format!("--search_window_radius={r}")]);
        a.extend(mode.args());
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        o.state(&(sub, r, x.code));
        match r.parse::<usize>() {
            Ok(n) => {
                o.outcome("accepted");
                let e = expected(mode, n, "r1", "d3").ok_or("library refuses")?;
                ensure!(x.ok && printed(&x.stdout).len() == 1 && near(printed(&x.stdout)[0], e.moslqo), "printed {:?}, the library scores {}", printed(&x.stdout), e.moslqo);
            }
            Err(_) => {
                o.outcome("rejected");
                ensure!(!x.ok && printed(&x.stdout).is_empty(), "accepted as a search radius");
            }
        }
        Ok(())
    });
    // tables of every size
    let ls: Vec<(usize, usize, bool)> = (0..LENGTHS).flat_map(|k| [1usize, 2, 3].map(|s| (k, s, false))).chain((1..LENGTHS).step_by(7).map(|k| (k, 1, true))).collect();
    fw.family("table-sizes", "files of 600, 1200, .. samples (1 to 44 patches) x modes, alone and in a batch, with --verbose, --results_csv and --output_debug", &ls, |c| format!("{c:?}"), |(k, sub, several), o| {
        let dir = Dir::new();
        let mode = [Wb, Wb, Wbu, Fb][*sub];
        let files: Vec<(String, String)> = if *several { (0..=*k).rev().collect() } else { vec![*k] }.iter().map(|k| (format!("lr{k}"), format!("ld{k}"))).collect();
        let want: Vec<_> = files.iter().filter_map(|(r, d)| expected(mode, 2, r, d)).collect();
        let named: Vec<(String, String)> = files.iter().map(|(r, d)| (audio(r), audio(d))).collect();
        let mut a = if *several { v(&["--batch_input_csv", &batch(&dir, "in.csv", &named)]) } else { v(&["--reference_file", &named[0].0, "--degraded_file", &named[0].1]) };
        a.extend(v(&["--verbose", "--search_window_radius", "2", "--results_csv", "o.csv", "--output_debug", "o.json"]));
        a.extend(mode.args());
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        o.state(&(k, sub, several, x.code));
        if want.len() < files.len() {
            o.outcome("refused");
            ensure!(!x.ok, "accepted, though the library refuses");
            return Ok(());
        }
        ensure!(x.ok, "failed with {:?}: {}", x.code, x.stderr);
        let ps = pieces(&x.stdout);
        ensure!(ps.len() == files.len(), "{} pairs described, {} compared", ps.len(), files.len());
        let js = records(&std::fs::read_to_string(dir.file("o.json")).unwrap())?;
        ensure!(js.len() == files.len() && rows(&dir.file("o.csv"))?.len() == files.len() + 1, "wrong number of records or rows");
        for (i, e) in want.iter().enumerate() {
            described(&ps[i], e, &files[i].0, &files[i].1).map_err(|m| format!("pair {i}: {m}"))?;
            same_record(&js[i], e)?;
            o.outcome(format!("{} patches", e.patch_sims.len()));
        }
        Ok(())
    });
    // unusable models and batch files
    let us: Vec<usize> = (0..6).collect();
    fw.family("unusable", "missing or malformed model and batch files: an error and no outputs", &us, |u| format!("{u}"), |u, o| {
        let dir = Dir::new();
        std::fs::write(dir.file("bad.txt"), "not a model").unwrap();
        std::fs::write(dir.file("one.csv"), "reference,degraded\nonly-one-field\n").unwrap();
        let pair = v(&["--reference_file", &audio("r1"), "--degraded_file", &audio("d1")]);
        let outs = v(&["--results_csv", "o.csv", "--output_debug", "o.json"]);
        let a: Vec<String> = match u {
            0 => [pair, outs, v(&["fullband", "--similarity_to_quality_model", "missing.txt"])].concat(),
            1 => [pair, outs, v(&["fullband", "--similarity_to_quality_model", "bad.txt"])].concat(),
            2 => [v(&["--batch_input_csv", "missing.csv"]), outs, v(&["wideband"])].concat(),
            3 => [v(&["--batch_input_csv", "one.csv"]), outs, v(&["wideband"])].concat(),
            4 => [pair, outs, v(&["narrowband"])].concat(),
            _ => [pair, outs, v(&["--no_such_flag", "wideband"])].concat(),
        };
        let before = dir.listing();
        let x = tool(&dir, &a)?;
        o.step(1);
        o.trace();
        o.state(&(u, x.code));
        o.outcome(format!("exit {:?}", x.code));
        ensure!(!x.ok, "ended successfully: {}", x.stdout);
        ensure!(dir.listing() == before && printed(&x.stdout).is_empty(), "outputs of a run that could not be done: {:?}", dir.listing());
        Ok(())
    });
}
