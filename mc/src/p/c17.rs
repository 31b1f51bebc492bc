//! Decoding: every 16-bit PCM file is read exactly, several channels become their mean.

use crate::api::*;
use crate::ensure;
use crate::fw::*;
use visqol_rs::audio_utils::load_as_mono;

pub fn with_file<T>(bytes: &[u8], f: impl FnOnce(&str) -> T) -> T {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = scratch_path(&format!("c17-{}.wav", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&p, bytes).expect("write");
    let r = f(&p);
    std::fs::remove_file(&p).ok();
    r
}

/// Samples and rate, or the error message; outer Err: panic.
pub fn load(bytes: &[u8]) -> Result<Result<(Vec<f64>, u32), String>, String> {
    with_file(bytes, |p| guarded(|| load_as_mono(p).map(|s| (s.data_matrix.to_vec(), s.sample_rate)).map_err(|e| e.to_string())))
}

pub fn mean(samples: &[i16], ch: usize) -> Vec<f64> {
    samples.chunks(ch).map(|c| c.iter().map(|s| *s as f64).sum::<f64>() / ch as f64 / 32767.0).collect()
}

fn same(got: &(Vec<f64>, u32), want: &[f64], rate: u32) -> Verdict {
    ensure!(got.1 == rate, "sample rate {} instead of {rate}", got.1);
    ensure!(got.0.len() == want.len(), "{} samples instead of {}", got.0.len(), want.len());
    for (i, (a, b)) in got.0.iter().zip(want).enumerate() {
        ensure!((a - b).abs() < 1e-12, "sample {i} is {a} instead of {b}");
    }
    Ok(())
}

/// Header layouts that all carry the same samples.
pub fn layouts(ch: u16, rate: u32, s: &[i16]) -> Vec<(&'static str, Vec<u8>)> {
    let data: Vec<u8> = s.iter().flat_map(|v| v.to_le_bytes()).collect();
    let fmt = |extra: &[u8], tag: u16| -> Vec<u8> {
        let mut v = b"fmt ".to_vec();
        v.extend((16 + extra.len() as u32).to_le_bytes());
        v.extend(tag.to_le_bytes());
        v.extend(ch.to_le_bytes());
        v.extend(rate.to_le_bytes());
        v.extend((rate * ch as u32 * 2).to_le_bytes());
        v.extend((ch * 2).to_le_bytes());
        v.extend(16u16.to_le_bytes());
        v.extend(extra);
        v
    };
    let chunk = |id: &[u8], body: &[u8]| -> Vec<u8> {
        let mut v = id.to_vec();
        v.extend((body.len() as u32).to_le_bytes());
        v.extend(body);
        v
    };
    let riff = |parts: &[Vec<u8>]| -> Vec<u8> {
        let body: Vec<u8> = parts.concat();
        let mut v = b"RIFF".to_vec();
        v.extend((body.len() as u32 + 4).to_le_bytes());
        v.extend(b"WAVE");
        v.extend(body);
        v
    };
    let mut ext = 22u16.to_le_bytes().to_vec();
    ext.extend(16u16.to_le_bytes());
    ext.extend(((1u32 << ch.min(18)) - 1).to_le_bytes());
    ext.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    let d = chunk(b"data", &data);
    vec![
        ("plain", riff(&[fmt(&[], 1), d.clone()])),
        ("extensible", riff(&[fmt(&ext, 0xfffe), d.clone()])),
        ("fmt with empty extension", riff(&[fmt(&[0, 0], 1), d.clone()])),
        ("LIST before data", riff(&[fmt(&[], 1), chunk(b"LIST", b"INFOISFT\x04\x00\x00\x00abc\0"), d.clone()])),
        ("fact before data", riff(&[fmt(&[], 1), chunk(b"fact", &(s.len() as u32).to_le_bytes()), d.clone()])),
        ("two chunks before data", riff(&[fmt(&[], 1), chunk(b"junk", &[0; 28]), chunk(b"bext", &[7; 602]), d.clone()])),
        ("chunk before fmt", riff(&[chunk(b"JUNK", &[0; 16]), fmt(&[], 1), d.clone()])),
        ("LIST after data", riff(&[fmt(&[], 1), d.clone(), chunk(b"LIST", b"INFOISFT\x04\x00\x00\x00abc\0")])),
        ("extensible, LIST before data", riff(&[fmt(&ext, 0xfffe), chunk(b"LIST", b"INFOISFT\x04\x00\x00\x00abc\0"), d])),
    ]
}

pub fn run(fw: &Fw) {
    // every sample value
    let blocks: Vec<i32> = (-32768..32768).step_by(256).collect();
    fw.family("values", "all 65536 sample values, mono and as either channel of a stereo file", &blocks, |b| format!("{b}.."), |b, o| {
        let s: Vec<i16> = (*b..*b + 256).map(|v| v as i16).collect();
        for ch in [1u16, 2] {
            for swap in [false, true] {
                let i: Vec<i16> = if ch == 1 { s.clone() } else { s.iter().flat_map(|v| if swap { [0, *v] } else { [*v, 0] }).collect() };
                let got = load(&wav_bytes(ch, 8000, &i))?.map_err(|e| format!("not readable: {e}"))?;
                o.step(1);
                same(&got, &mean(&i, ch as usize), 8000)?;
                ensure!(got.0.iter().all(|v| v.abs() <= 1.0001), "a sample lies outside -1..1");
                o.state_f(&got.0);
            }
        }
        o.trace();
        o.outcome("exact");
        Ok(())
    });
    // channel words
    let alpha = [0i16, 1, -1, 32767, -32768];
    let mut fs: Vec<(u16, Vec<i16>)> = vec![];
    for ch in 1u16..=3 {
        for w in words(5, 0, fw.pick(6, 7)) {
            if w.len() % ch as usize == 0 {
                fs.push((ch, w.iter().map(|i| alpha[*i]).collect()));
            }
        }
    }
    for ch in 4u16..=8 {
        for w in words(3, ch as usize, ch as usize) {
            fs.push((ch, w.iter().map(|i| alpha[[0, 3, 4][*i]]).collect()));
        }
        // every channel on its own, over several frames
        for c in 0..ch as usize {
            fs.push((ch, (0..ch as usize * 5).map(|i| if i % ch as usize == c { 1000 * (i as i16 / ch as i16 + 1) } else { 0 }).collect()));
        }
    }
    for ch in [9u16, 12, 16, 18, 32] {
        for c in 0..ch as usize {
            fs.push((ch, (0..ch as usize * 3).map(|i| if i % ch as usize == c { 30000 } else { -7 }).collect()));
        }
    }
    fw.family("channels", "1..8 channels: all sample words over {0,1,-1,max,min} of up to 6 samples (7 thorough) for 1..3 channels, all single frames over {0,max,min} beyond; up to 32 channels", &fs, |f| format!("ch={} {:?}", f.0, f.1), |(ch, s), o| {
        let got = load(&wav_bytes(*ch, 16000, s))?.map_err(|e| format!("not readable: {e}"))?;
        o.step(1);
        o.trace();
        o.state_f(&got.0);
        o.outcome(format!("{ch} channels"));
        same(&got, &mean(s, *ch as usize), 16000)
    });
    // layouts x rates x channels
    let mut ls = vec![];
    for ch in [1u16, 2, 6] {
        for rate in [1u32, 7999, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, (1 << 24) + 1] {
            for n in [0usize, 1, 2, 255, 4000] {
                for k in 0..9 {
                    ls.push((ch, rate, n, k));
                }
            }
        }
    }
    fw.family("layouts", "header layouts (plain, extensible, extra chunks before and after) x channels x sample rates x lengths", &ls, |l| format!("ch={} rate={} frames={} layout={}", l.0, l.1, l.2, layouts(1, 8000, &[])[l.3].0), |(ch, rate, n, k), o| {
        let s: Vec<i16> = (0..n * *ch as usize).map(|i| (i as i32 * 7919 % 65536 - 32768) as i16).collect();
        let (name, bytes) = layouts(*ch, *rate, &s).swap_remove(*k);
        let got = load(&bytes)?.map_err(|e| format!("{name}: not readable: {e}"))?;
        o.step(1);
        o.trace();
        o.state(&(ch, rate, n, k));
        o.outcome(name);
        same(&got, &mean(&s, *ch as usize), *rate)
    });
    // long files
    let mut gs = vec![];
    for ch in [1u16, 2, 3] {
        for e in 12..=fw.pick(20u32, 23) {
            for d in [-1i64, 0, 1] {
                gs.push((ch, ((1i64 << e) + d) as usize));
            }
        }
    }
    fw.family("lengths", "1..3 channels x lengths around every power of two up to 2^20 frames (2^23 thorough)", &gs, |g| format!("ch={} frames={}", g.0, g.1), |(ch, n), o| {
        let s: Vec<i16> = (0..n * *ch as usize).map(|i| ((i as u64 * 7919 + i as u64 / 65536) % 65536) as u16 as i16).collect();
        let got = load(&wav_bytes(*ch, 48000, &s))?.map_err(|e| format!("not readable: {e}"))?;
        o.step(1);
        o.trace();
        o.state(&(ch, n));
        o.outcome(format!("{ch} channels"));
        same(&got, &mean(&s, *ch as usize), 48000)
    });
    // other sample formats are refused
    let mut rs: Vec<(u16, u16, u16)> = vec![];
    for tag in [1u16, 3] {
        for bits in [8u16, 24, 32, 64] {
            for ch in [1u16, 2] {
                rs.push((tag, bits, ch));
            }
        }
    }
    fw.family("other-formats", "8, 24, 32, 64 bit integer and floating-point files x channels: refused", &rs, |r| format!("format={} bits={} ch={}", r.0, r.1, r.2), |(tag, bits, ch), o| {
        let bytes_per = bits / 8;
        let data = vec![0x3fu8; 960 * (bytes_per * ch) as usize];
        let mut v = b"RIFF".to_vec();
        v.extend((36 + data.len() as u32).to_le_bytes());
        v.extend(b"WAVEfmt ");
        v.extend(16u32.to_le_bytes());
        v.extend(tag.to_le_bytes());
        v.extend(ch.to_le_bytes());
        v.extend(8000u32.to_le_bytes());
        v.extend((8000 * (bytes_per * ch) as u32).to_le_bytes());
        v.extend((bytes_per * ch).to_le_bytes());
        v.extend(bits.to_le_bytes());
        v.extend(b"data");
        v.extend((data.len() as u32).to_le_bytes());
        v.extend(data);
        o.step(1);
        o.trace();
        o.state(&(tag, bits, ch));
        match load(&v)? {
            Ok(_) => Err(format!("a file with {bits} bit samples was read as 16 bit")),
            Err(e) => {
                o.outcome("refused");
                o.sample(format!("{bits} bit format {tag}: {e}"));
                if *tag == 1 && *bits <= 32 {
                    ensure!(e.contains("16") && e.contains(&bits.to_string()), "{bits} bit samples were refused with: {e}");
                }
                Ok(())
            }
        }
    });
}
