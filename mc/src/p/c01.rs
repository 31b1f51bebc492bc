//! History independence: every sequence of comparisons on one evaluator (and on interleaved evaluators)
//! gives, for each comparison, exactly what a pristine process gives.

use crate::api::*;
use crate::fw::*;
use crate::sig::*;
use crate::{ensure, signal};

#[derive(Clone, Debug)]
pub enum Job {
    Mem { name: &'static str, r: Vec<f64>, d: Vec<f64>, rr: u32, rd: u32 },
    Files { name: &'static str, r: String, d: String },
}
impl Job {
    pub fn name(&self) -> &'static str {
        match self {
            Job::Mem { name, .. } | Job::Files { name, .. } => name,
        }
    }
}

pub fn jobs(fb: bool) -> Vec<Job> {
    let n = if fb { 360 } else { 240 };
    let w = |s: &[Seg]| word(s, 1000, n);
    let a = w(&[Noise, Voice, Tone]);
    let twin = w(&[Noise, Low, Tone]);
    let da = degrade(&[Op::Noise(0.05)], &a);
    let m = |name, r: &[f64], d: &[f64], rate| Job::Mem { name, r: r.to_vec(), d: d.to_vec(), rr: rate, rd: rate };
    let wav = |name: &str, x: &[f64], rate: u32| {
        let p = scratch_path(name);
        if !std::path::Path::new(&p).exists() {
            write_wav(&p, 1, rate, &quantize(x));
        }
        p
    };
    let long = word(&[Voice, Noise, Low, Noise, Voice], 2000, n);
    vec![
        m("noisy", &a, &da, 1000),
        m("same-ref-other-deg", &a, &degrade(&[Op::Dropout(0.4, 0.6)], &a), 1000),
        m("other-ref-same-deg", &twin, &da, 1000),
        m("other-rate-same-samples", &a, &da, 2000),
        m("longer", &long, &degrade(&[Op::Delay(30)], &long), 2000),
        m("too-short", &a[..50], &da[..50], 1000),
        m("empty", &a, &[], 1000),
        m("silent-ref", &vec![0.0; a.len()], &da, 1000),
        m("silent-deg", &a, &vec![0.0; a.len()], 1000),
        m("identical", &a, &a, 1000),
        Job::Files { name: "files", r: wav("h_a.wav", &a, 1000), d: wav("h_d.wav", &da, 1000) },
        Job::Files { name: "rate-mismatch", r: wav("h_a.wav", &a, 1000), d: wav("h_x.wav", &da, 1001) },
        Job::Files { name: "missing-file", r: wav("h_a.wav", &a, 1000), d: scratch_path("nope.wav") },
    ]
}

/// Runs one job; the outcome as a list of words (bit patterns, or the error text).
pub fn run_job(m: &mut Mgr, j: &Job) -> Result<Vec<u64>, String> {
    let r = match j {
        Job::Mem { r, d, rr, rd, .. } => {
            let mut a = signal!(r, *rr);
            let mut b = signal!(d, *rd);
            let x = match m {
                Mgr::S(m) => m.compute_results(&mut a, &mut b).map_err(|e| e.to_string()),
                Mgr::A(m) => m.compute_results(&mut a, &mut b).map_err(|e| e.to_string()),
            };
            ensure!(a.data_matrix.to_vec() == *r && a.sample_rate == *rr, "the comparison changed the reference it was given");
            ensure!(b.data_matrix.to_vec() == *d && b.sample_rate == *rd, "the comparison changed the degraded signal it was given");
            x
        }
        Job::Files { r, d, .. } => {
            let before = (std::fs::read(r).ok(), std::fs::read(d).ok());
            let x = m.run(r, d);
            ensure!(before == (std::fs::read(r).ok(), std::fs::read(d).ok()), "the comparison changed its input files");
            x
        }
    };
    Ok(match r {
        Ok(x) => bits(&x),
        Err(e) => vec![hash_of(&"error"), hash_of(&e)],
    })
}

pub fn cfgs() -> Vec<(&'static str, Cfg, usize)> {
    vec![("wb", WB, 60), ("wbu", WBU, 60), ("wb-r1", WB, 1), ("fb", FB, 60), ("fb-r2", FB, 2)]
}

/// Child process: outcome of each job on a brand-new evaluator that has done nothing else.
pub fn baseline_child(cfg: usize, job: usize, scratch: &str) {
    init_at(scratch);
    let (_, c, radius) = cfgs()[cfg].clone();
    let j = &jobs(c == FB)[job];
    let r = guarded(|| run_job(&mut Mgr::new(&c, radius), j)).and_then(|x| x);
    println!("{}", serde_json::json!({ "r": r }));
}

fn baselines(fw: &Fw, wanted: &[usize]) -> Vec<Vec<Result<Vec<u64>, String>>> {
    let exe = std::env::current_exe().unwrap();
    let mut out = vec![vec![]; cfgs().len()];
    for c in wanted {
        let c = *c;
        let n = jobs(cfgs()[c].1 == FB).len();
        let hs: Vec<_> = (0..n)
            .map(|j| {
                std::process::Command::new(&exe)
                    .args(["--baseline", &c.to_string(), &j.to_string(), &scratch_path("")])
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("baseline child")
            })
            .collect();
        for h in hs {
            let o = h.wait_with_output().unwrap();
            let v: serde_json::Value = serde_json::from_slice(&o.stdout).expect("baseline output");
            out[c].push(serde_json::from_value(v["r"].clone()).unwrap());
        }
    }
    let _ = fw;
    out
}

pub fn run(fw: &Fw) {
    for c in 0..cfgs().len() {
        jobs(cfgs()[c].1 == FB); // creates the files once
    }
    let base = baselines(fw, &(0..cfgs().len()).collect::<Vec<_>>());
    let all: Vec<usize> = (0..jobs(false).len()).collect();
    let names: Vec<&'static str> = jobs(false).iter().map(|j| j.name()).collect();
    let both = [jobs(false), jobs(true)];
    let expect = |c: usize, j: usize, got: Result<Vec<u64>, String>, hist: &str| -> Verdict {
        match (&base[c][j], &got) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "after {hist} the comparison '{}' gave another outcome than on a fresh evaluator in a fresh process", names[j]);
                Ok(())
            }
            (_, Err(e)) => Err(format!("after {hist}: comparison '{}': {e}", names[j])),
            (Err(e), _) => Err(format!("comparison '{}' on a fresh evaluator: {e}", names[j])),
        }
    };

    // one evaluator, all histories
    for (c, quick, thorough) in [(0usize, 3usize, 4usize), (3, 2, 3), (2, 2, 3), (1, 2, 3)] {
        let (cname, cfg, radius) = cfgs()[c].clone();
        let depth = fw.pick(quick, thorough);
        let seqs = words(all.len(), depth, depth);
        let js = &both[(cfg == FB) as usize];
        fw.family(
            &format!("history-{cname}"),
            &format!("every sequence of {depth} comparisons over {} kinds on one evaluator ({cname}), checked after each", all.len()),
            &seqs,
            |s| s.iter().map(|j| names[*j]).collect::<Vec<_>>().join(","),
            |s, o| {
                let mut m = Mgr::new(&cfg, radius);
                let mut hist = String::from("[]");
                let mut path = vec![];
                for j in s {
                    let got = guarded(|| run_job(&mut m, &js[*j])).and_then(|x| x);
                    o.step(1);
                    path.push(*j);
                    o.state(&(c, &path, got.as_ref().ok()));
                    o.outcome(format!("{cname}:{}", if got.as_ref().map(|g| g.len() == 2).unwrap_or(true) { "refused" } else { "scored" }));
                    expect(c, *j, got, &hist)?;
                    hist = format!("{:?}", path.iter().map(|p| names[*p]).collect::<Vec<_>>());
                }
                o.trace();
                o.sample(hist);
                Ok(())
            },
        );
    }

    // two or three evaluators whose comparisons interleave
    let sub = [0usize, 2, 5, 4];
    let ms = [0usize, 1, 2];
    let depth = fw.pick(3, 4);
    let ev: Vec<(usize, usize)> = ms.iter().flat_map(|m| sub.iter().map(move |j| (*m, *j))).collect();
    let seqs: Vec<Vec<(usize, usize)>> = words(ev.len(), depth, depth).into_iter().map(|w| w.into_iter().map(|i| ev[i]).collect::<Vec<_>>()).filter(|w: &Vec<(usize, usize)>| w.iter().any(|x| x.0 != w[0].0)).collect();
    fw.family(
        "interleaved",
        &format!("every interleaving of {depth} comparisons over 3 evaluators (scaled, unscaled, small radius) x 4 kinds"),
        &seqs,
        |s| s.iter().map(|(m, j)| format!("{}:{}", cfgs()[*m].0, names[*j])).collect::<Vec<_>>().join(","),
        |s, o| {
            let mut m: Vec<Mgr> = ms.iter().map(|c| Mgr::new(&cfgs()[*c].1, cfgs()[*c].2)).collect();
            for (k, (c, j)) in s.iter().enumerate() {
                let got = guarded(|| run_job(&mut m[*c], &both[0][*j])).and_then(|x| x);
                o.step(1);
                o.state(&(&s[..=k], got.as_ref().ok()));
                expect(*c, *j, got, &format!("{:?}", &s[..k]))?;
            }
            o.trace();
            Ok(())
        },
    );

    // long repetitive histories
    let mut cyc: Vec<(usize, Vec<usize>)> = vec![];
    for c in [0usize, 3] {
        for a in &all {
            cyc.push((c, vec![*a]));
        }
        for p in [[0usize, 4], [5, 0], [7, 0], [12, 0], [11, 10], [0, 9]] {
            cyc.push((c, p.to_vec()));
        }
    }
    let reps = fw.pick(24, 120);
    fw.family(
        "cycles",
        &format!("one evaluator, cycles of one or two kinds repeated for {reps} comparisons"),
        &cyc,
        |s| format!("{} {:?}", cfgs()[s.0].0, s.1.iter().map(|j| names[*j]).collect::<Vec<_>>()),
        |(c, cy), o| {
            let (_, cfg, radius) = cfgs()[*c].clone();
            let mut m = Mgr::new(&cfg, radius);
            for k in 0..reps {
                let j = cy[k % cy.len()];
                let got = guarded(|| run_job(&mut m, &both[(cfg == FB) as usize][j])).and_then(|x| x);
                o.step(1);
                o.state(&(c, cy, k, got.as_ref().ok()));
                expect(*c, j, got, &format!("{k} comparisons cycling {cy:?}"))?;
            }
            o.trace();
            Ok(())
        },
    );
}
