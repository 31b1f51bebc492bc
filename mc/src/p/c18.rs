//! Torn and corrupted files: an error, never a crash, a hang or invented samples.

use super::c17::{layouts, load, mean, with_file};
use crate::api::*;
use crate::ensure;
use crate::fw::*;

/// What a reader may at most make of the bytes: channels, rate and samples as declared, if all are there.
fn declared(b: &[u8], lenient: bool) -> Option<(u16, u32, Vec<i16>)> {
    let u16a = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32a = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    if b.len() < 12 {
        return None;
    }
    let (mut pos, mut fmt) = (12usize, None);
    while pos + 8 <= b.len() {
        let (id, len) = (&b[pos..pos + 4], u32a(pos + 4) as usize);
        pos += 8;
        if id == b"fmt " {
            if pos + 16 > b.len() {
                return None;
            }
            // an extensible header states the size of a sample twice
            let bits = if u16a(pos) == 0xfffe && pos + 20 <= b.len() && u16a(pos + 18) == 16 { 16 } else { u16a(pos + 14) };
            fmt = Some((u16a(pos + 2), u32a(pos + 4), bits));
            if lenient && len > 40 {
                // an oversized format chunk may be taken to end where its known fields end
                pos += 40;
                continue;
            }
        } else if id == b"data" {
            let (ch, rate, bits) = fmt?;
            if bits != 16 || ch == 0 || pos + len > b.len() {
                return None;
            }
            return Some((ch, rate, b[pos..pos + len].chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()));
        }
        pos = pos.checked_add(len)?;
    }
    None
}

fn judge(bytes: &[u8], o: &mut Obs) -> Verdict {
    let r = load(bytes).map_err(|p| format!("reading crashed: {p}"))?;
    o.step(1);
    o.trace();
    match r {
        Err(e) => {
            o.outcome(if e.is_empty() { "refused without a reason".into() } else { format!("refused: {}", e.chars().take(40).collect::<String>()) });
            o.state(&e);
            ensure!(!e.is_empty(), "refused without a reason");
            Ok(())
        }
        Ok((x, rate)) => {
            o.outcome("read");
            o.state_f(&x);
            let one = |lenient| {
                let Some((ch, r, s)) = declared(bytes, lenient) else {
                    return Err(format!("{} samples were read from a file that does not declare and hold them", x.len()));
                };
                ensure!(rate == r, "sample rate {rate} read, {r} declared");
                let want = mean(&s, ch as usize);
                ensure!(x.len() == want.len(), "{} samples read, {} declared", x.len(), want.len());
                ensure!(x.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-12), "other samples than the file holds");
                Ok(())
            };
            one(false).or_else(|e| one(true).map_err(|_| e))
        }
    }
}

fn base(ch: u16, n: usize) -> Vec<i16> {
    (0..n * ch as usize).map(|i| (i as i32 * 7919 % 65536 - 32768) as i16).collect()
}

pub fn run(fw: &Fw) {
    let mut ts = vec![];
    for ch in [1u16, 2, 3] {
        for k in 0..9usize {
            let b = &layouts(ch, 8000, &base(ch, 40))[k].1;
            for cut in 0..b.len() {
                ts.push((ch, k, cut));
            }
        }
    }
    fw.family("truncated", "every truncation point of files in nine layouts with 1..3 channels", &ts, |t| format!("ch={} layout={} cut={}", t.0, t.1, t.2), |(ch, k, cut), o| {
        let s = base(*ch, 40);
        let b = &layouts(*ch, 8000, &s)[*k].1;
        judge(&b[..*cut], o)?;
        let at = b.windows(4).position(|w| w == b"data").unwrap() + 8;
        if *cut < at + s.len() * 2 {
            ensure!(load(&b[..*cut])?.is_err(), "a file torn at byte {cut} of {} was read", b.len());
        }
        Ok(())
    });
    // every value of every header byte
    let mut ms = vec![];
    for (ch, k) in [(1u16, 0usize), (2, 0), (2, 1), (1, 3), (1, 2)] {
        let b = &layouts(ch, 8000, &base(ch, 6))[k].1;
        let at = b.windows(4).position(|w| w == b"data").unwrap() + 8;
        for i in 0..at {
            for v in 0..=255u8 {
                ms.push((ch, k, i, v));
            }
        }
    }
    fw.family("corrupted", "every value of every header byte, five layouts", &ms, |m| format!("ch={} layout={} byte={} value={}", m.0, m.1, m.2, m.3), |(ch, k, i, v), o| {
        let mut b = layouts(*ch, 8000, &base(*ch, 6)).swap_remove(*k).1;
        b[*i] = *v;
        judge(&b, o)
    });
    // pairs of header fields
    let fields: [(usize, usize); 8] = [(4, 4), (16, 4), (20, 2), (22, 2), (24, 4), (32, 2), (34, 2), (40, 4)];
    let vals = [0u32, 1, 2, 3, 7, 8, 16, 17, 24, 32, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff];
    let mut ps = vec![];
    for a in 0..8 {
        for b in a + 1..8 {
            for x in 0..vals.len() {
                for y in 0..vals.len() {
                    ps.push((a, x, b, y));
                }
            }
        }
    }
    fw.family("field-pairs", "all pairs of header fields x boundary values", &ps, |p| format!("{p:?}"), |(a, x, b, y), o| {
        let mut w = wav_bytes(2, 8000, &base(2, 6));
        for (f, v) in [(a, x), (b, y)] {
            let (at, n) = fields[*f];
            w[at..at + n].copy_from_slice(&vals[*v].to_le_bytes()[..n]);
        }
        judge(&w, o)
    });
    // declared data length against what is there
    let ls: Vec<(u32, usize)> = (0..=90u32).flat_map(|d| (0..=90usize).map(move |n| (d, n))).collect();
    fw.family("lengths", "every declared data length x every actual length up to 90 bytes, stereo", &ls, |l| format!("{l:?}"), |(d, n), o| {
        let mut w = wav_bytes(2, 8000, &base(2, 23));
        w.truncate(44 + n);
        w[40..44].copy_from_slice(&d.to_le_bytes());
        judge(&w, o)?;
        if (*d as usize) > *n {
            ensure!(load(&w)?.is_err(), "{d} bytes declared, {n} present, read without an error");
        }
        Ok(())
    });
    // a comparison with a torn, foreign or missing file fails as a whole, on either side
    let good = wav_bytes(1, 1000, &crate::api::quantize(&crate::sig::segment(crate::sig::Voice, 1000, 1000, 1)));
    let mut cs: Vec<(bool, String, Vec<u8>)> = vec![];
    for side in [false, true] {
        for cut in (0..good.len()).step_by(fw.pick(7, 1)) {
            cs.push((side, format!("cut={cut}"), good[..cut].to_vec()));
        }
        for (n, b) in [("text", b"not a wav file at all, but long enough to be one".to_vec()), ("zeros", vec![0; 500]), ("rifx", [b"RIFX".to_vec(), good[4..].to_vec()].concat())] {
            cs.push((side, n.into(), b));
        }
    }
    fw.family("comparisons", "a comparison of a good file with a torn or foreign one, either side", &cs, |c| format!("{} {}", if c.0 { "degraded" } else { "reference" }, c.1), |(side, name, bytes), o| {
        let g = with_file(&good, |g| {
            with_file(bytes, |b| {
                let mut m = Mgr::new(&WB, 1);
                let x = guarded(|| if *side { m.run(g, b) } else { m.run(b, g) });
                // and the evaluator remains usable
                let again = guarded(|| m.run(g, g));
                (x, again)
            })
        });
        o.step(2);
        o.trace();
        o.state(&(side, name));
        o.outcome("refused");
        let x = g.0.map_err(|p| format!("comparison crashed: {p}"))?;
        ensure!(x.is_err(), "a comparison with a damaged file ({name}) was scored {:?}", x.map(|x| x.moslqo));
        ensure!(matches!(&g.1, Ok(Ok(x)) if (x.vnsim - 1.0).abs() < 1e-6), "the evaluator is unusable after a damaged file");
        Ok(())
    });
    let miss: Vec<(usize, bool)> = (0..4).flat_map(|k| [(k, false), (k, true)]).collect();
    fw.family("missing", "missing files, directories, empty paths, on either side", &miss, |m| format!("{m:?}"), |(k, side), o| {
        let dir = scratch_path("");
        let p = [scratch_path("does-not-exist.wav"), dir, String::new(), "\0".into()][*k].clone();
        let x = with_file(&good, |g| guarded(|| if *side { Mgr::new(&WB, 1).run(g, &p) } else { Mgr::new(&WB, 1).run(&p, g) })).map_err(|p| format!("crashed: {p}"))?;
        o.step(1);
        o.state(&(k, side));
        o.outcome("refused");
        ensure!(x.is_err(), "scored without a file");
        Ok(())
    });
}
