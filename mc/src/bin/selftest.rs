use mc::{api::*, cases::*, compare, fw::*, sig};
fn main() {
    let fw = Fw::from_args("self");
    init(&fw.scratch);
    for rate in [1000u32, 2000, 8000, 16000] {
        for cfg in [WB, FB] {
            let c = space(&[cfg.clone()], &[rate], &[60], &[sig::Noise, sig::Voice, sig::Silence], 3, &sig::ops()[..4], if rate < 3000 { 1 } else { 0 });
            let c = if rate > 5000 { c[..8].to_vec() } else { c };
            fw.family(&format!("{}{}", rate, cfg.short()), "", &c, |c| c.key(), |c, o| {
                let t = std::time::Instant::now();
                let x = c.real()?;
                let t1 = t.elapsed().as_micros();
                let m = c.model().map_err(|e| format!("{e:?}"))?;
                let t2 = t.elapsed().as_micros() - t1;
                o.outcome(format!("{rate}{} real {}ms", c.cfg.short(), t1 / 4000 * 4));
                o.outcome(format!("{rate}{} model {}ms", c.cfg.short(), t2 / 4000 * 4));
                o.outcome(format!("amb {} tight {}", m.ambiguous, m.any_tight));
                if m.ambiguous { return Ok(()); }
                compare::scores(&x, &m)?;
                compare::patches(&x, &m, c.rate)
            });
        }
    }
    cleanup();
    fw.finish_and_exit();
}
