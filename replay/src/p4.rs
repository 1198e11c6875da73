//! Pulse shaping and carrier recovery (in-crate modules, reached through the guarded hook).
use crate::cx::*;

#[cfg(not(komunikilo_verif))]
pub fn c34(c: &mut Cx) {
    c.skip("hook unavailable");
}
#[cfg(not(komunikilo_verif))]
pub fn c35(c: &mut Cx) {
    c.skip("hook unavailable");
}

/// the root-raised-cosine impulse response and a bound on the rounding error of evaluating it; None too near a singularity
/// (`exact`: all parameters are such that a singular time is met without rounding)
#[cfg(komunikilo_verif)]
fn rrc(t: f64, beta: f64, ts: f64, exact: bool) -> Option<(f64, f64)> {
    use std::f64::consts::PI;
    let x = t / ts;
    let y = 4.0 * beta * x;
    if t == 0.0 {
        return Some(((1.0 + beta * (4.0 / PI - 1.0)) / ts, 1e-12 / ts));
    }
    if exact && y.abs() == 1.0 {
        let q = PI / (4.0 * beta);
        let v = beta / (ts * 2f64.sqrt()) * ((1.0 + 2.0 / PI) * q.sin() + (1.0 - 2.0 / PI) * q.cos());
        return Some((v, 1e-12 / ts));
    }
    if (y.abs() - 1.0).abs() < 1e-6 || x.abs() < 1e-9 {
        return None;
    }
    let d = PI * x * (1.0 - y * y);
    let n = (PI * x * (1.0 - beta)).sin() + y * (PI * x * (1.0 + beta)).cos();
    Some((n / d / ts, 1e-13 * (1.0 + y.abs()) * (1.0 + x.abs()) / (d * ts).abs() + 1e-14 * (n / d / ts).abs()))
}

#[cfg(komunikilo_verif)]
pub fn c34(c: &mut Cx) {
    let n = c.size("n", 0, 40, 2000);
    let n = if c.large_round() { c.large(1_000_000) } else { n };
    // powers of two make the singular times exact
    let exact = c.chance(0.7);
    let (beta, ts, fs) = if exact {
        let b = [1.0, 0.5, 0.25, 0.125, 0.0, 0.0625][c.below(6)];
        let t = [1.0, 2.0, 0.5, 4.0, 0.25, 3.0, 0.001953125][c.below(7)];
        (b, t, [1.0, 2.0, 4.0, 8.0, 0.5, 16.0, 1024.0][c.below(7)] / if t != 3.0 && c.chance(0.3) { t } else { 1.0 })
    } else {
        (c.real("beta", 0.0, 1.0).clamp(0.0, 1.0), c.real("T", 0.01, 5.0).abs().max(1e-3), c.real("fs", 0.5, 100.0).abs().max(1e-2))
    };
    c.case(format!("rrcosfilter({n}, {beta}, {ts}, {fs})"), n > 0, || {
        let g = komunikilo::verif::rrcosfilter(n, beta, ts, fs);
        if g.len() != n {
            return Err(format!("{} taps, expected {n}", g.len()));
        }
        for (i, &v) in g.iter().enumerate() {
            let t = (i as f64 - n as f64 / 2.0) / fs;
            if let Some((w, tol)) = rrc(t, beta, ts, exact) {
                if !((v - w).abs() <= tol + 1e-11 * w.abs()) {
                    return Err(format!("tap {i} = {v}, expected {w}"));
                }
            }
        }
        Ok(())
    });
}

#[cfg(komunikilo_verif)]
pub fn c35(c: &mut Cx) {
    use num_complex::Complex;
    let kind = c.below(3);
    let n = match kind {
        0 => c.size("n", 1, 30, 100),
        1 => c.int("n", 1, 3),
        _ => c.size("n", 1, 400, 20000),
    };
    let n = if kind == 2 && c.large_round() { c.large(2_000_000) } else { n };
    let amp = if kind == 1 { 20.0 } else { 1.0 };
    let (ph, df) = (c.real("offset", -3.0, 3.0), c.real("drift", -0.01, 0.01).clamp(-0.01, 0.01));
    let zs: Vec<Complex<f64>> = if kind == 2 {
        let m = c.bits(n);
        m.iter().enumerate().map(|(k, &b)| Complex::from_polar(if b { 1.0 } else { -1.0 }, ph + df * k as f64)).collect()
    } else {
        (0..n)
            .map(|_| {
                let (r, a) = (c.unit() * amp, c.unit() * 7.0);
                Complex::from_polar(r, a)
            })
            .collect()
    };
    let two = c.bool();
    c.case(format!("Costas loop, {n} samples of kind {kind}, offset {ph} drift {df} first {:?}", &zs[..n.min(3)]), true, || {
        let mut l = komunikilo::verif::CostasLoop::new();
        let mut other = komunikilo::verif::CostasLoop::new();
        let (mut p, mut f) = (0f64, 0f64);
        for (k, &z) in zs.iter().enumerate() {
            let w = z * Complex::from_polar(1.0, -p);
            let e = w.re * w.im;
            f += 0.00932 * e;
            p += 0.132 * e + f;
            let g = l.update(z);
            if two {
                // another loop keeps its own estimates
                other.update(z * 0.5 + 0.25);
            }
            if !((g - w).norm() <= 1e-6 * (1.0 + w.norm())) {
                return Err(format!("output {k} = {g}, expected {w}"));
            }
        }
        Ok(())
    });
}
