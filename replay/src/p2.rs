use crate::cx::*;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
use std::f64::consts::PI;

pub type C64 = Complex<f64>;

pub fn nrz(b: bool) -> f64 {
    if b {
        1.0
    } else {
        -1.0
    }
}

pub struct Rates {
    pub s: usize,
    pub baud: usize,
    pub fs: usize,
    pub fc: f64,
}

pub fn rates(c: &mut Cx, smax: usize) -> Rates {
    let s = c.intc("K", 1, smax, 2000);
    let baud = match c.below(4) {
        0 => 1,
        1 => 1 + c.below(20),
        2 => [100, 900, 1000, 441, 220][c.below(5)],
        _ => c.intc("R", 1, 60, 3000),
    };
    let fs = s * baud;
    let h = (fs / 2) as f64;
    let fc = match c.below(8) {
        0 => (baud as f64 * (1 + c.below(3)) as f64).min(h),
        1 => h,
        2 => fs as f64 / 4.0,
        3 => (h / 2.0).floor(),
        _ => c.real("f", 0.0, h),
    };
    let fc = if c.chance(0.08) { -fc } else { fc };
    Rates { s, baud, fs, fc }
}

pub fn carg(fc: f64, i: usize, fs: usize) -> f64 {
    // reduce in turns to keep the oracle accurate
    let t = fc * i as f64 / fs as f64;
    2.0 * PI * t
}

/// a message without an end whose bits are not periodic
pub fn endless_bits() -> impl Iterator<Item = bool> + Clone {
    (0u64..).map(bit_at)
}

pub fn bit_at(k: u64) -> bool {
    k.wrapping_mul(0x9e3779b97f4a7c15) >> 40 & 1 != 0
}

/// rounds that follow a waveform beyond 2^24 samples
pub fn long_round(c: &mut Cx) -> bool {
    c.round == 12 || (c.deep && c.large_round())
}

/// sample i of an endless waveform is want(i): near the start, now and then, and beyond 2^24
pub fn long_wave<I: Iterator<Item = f64>>(what: &str, it: I, want: impl Fn(usize) -> f64) -> Result<(), String> {
    let n = (1usize << 24) + 3000;
    let mut k = 0;
    for (i, g) in it.take(n).enumerate() {
        if i < 2000 || i + 4000 > n || i % 40_009 == 0 {
            let w = want(i);
            if (g - w).abs() > 1e-5 * (1.0 + w.abs()) {
                return Err(format!("{what}[{i}] = {g}, expected {w}"));
            }
        }
        k += 1;
    }
    if k != n {
        return Err(format!("{what}: the waveform ends after {k} samples of an endless message"));
    }
    Ok(())
}

/// rates for a long waveform: the carrier well inside the band, so that one sample more or less shows
pub fn long_rates(c: &mut Cx) -> Rates {
    let s = 2 + 2 * c.below(12);
    let baud = 1 + c.below(50);
    let fs = s * baud;
    Rates { s, baud, fs, fc: fs as f64 * (0.11 + 0.01 * c.below(30) as f64) }
}

pub fn bpsk_wave(m: &[bool], r: &Rates) -> Vec<f64> {
    (0..m.len() * r.s).map(|i| nrz(m[i / r.s]) * carg(r.fc, i, r.fs).cos()).collect()
}

pub fn qpsk_wave(m: &[bool], r: &Rates) -> Vec<f64> {
    (0..m.len() / 2 * r.s)
        .map(|i| {
            let k = i / r.s;
            nrz(m[2 * k]) * carg(r.fc, i, r.fs).cos() - nrz(m[2 * k + 1]) * carg(r.fc, i, r.fs).sin()
        })
        .collect()
}

/// signs of block correlations: None when too close to zero for rounding to decide
pub fn corr(x: &[f64], r: &Rates, quad: bool, at0: bool) -> Vec<Option<bool>> {
    x.chunks_exact(r.s)
        .enumerate()
        .map(|(k, b)| {
            let mut v = 0.0;
            let mut e = 0.0;
            for (j, &y) in b.iter().enumerate() {
                let a = carg(r.fc, k * r.s + j, r.fs);
                let p = y * if quad { -a.sin() } else { a.cos() };
                v += p;
                e += y.abs();
            }
            if e == 0.0 {
                Some(at0)
            } else if v.abs() < 1e-7 * e {
                None
            } else {
                Some(v > 0.0)
            }
        })
        .collect()
}

pub fn decide(what: &str, got: &[bool], want: &[Option<bool>]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} bits, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if let Some(w) = want[i] {
            if got[i] != w {
                return Err(format!("{what}[{i}] = {}, expected {w}", got[i]));
            }
        }
    }
    Ok(())
}

pub fn c07(c: &mut Cx) {
    let n = c.size("n", 0, 60, 5000);
    let m = c.bits(n);
    let q2 = 2f64.sqrt();
    c.case(format!("message {}", bs(&m)), n > 0, || {
        let g: Vec<C64> = tx_baseband_bpsk_signal(m.iter().cloned()).collect();
        let w: Vec<C64> = m.iter().map(|&b| C64::new(nrz(b), 0.0)).collect();
        eq("bpsk symbol", &g, &w)?;
        let r: Vec<bool> = rx_baseband_bpsk_signal(g.into_iter()).collect();
        eq("bpsk bit", &r, &m)?;
        let g: Vec<C64> = tx_baseband_qpsk_signal(m.iter().cloned()).collect();
        let w: Vec<C64> = m.chunks_exact(2).map(|p| C64::new(nrz(p[0]) * q2, nrz(p[1]) * q2)).collect();
        closec("qpsk symbol", &g, &w)?;
        let r: Vec<bool> = rx_baseband_qpsk_signal(g.into_iter()).collect();
        eq("qpsk bit", &r, &m[..n / 2 * 2])
    });
    let z = c.cplx(n);
    c.case(format!("symbols {:?}", &z[..n.min(6)]), n > 0, || {
        let r: Vec<bool> = rx_baseband_bpsk_signal(z.iter().cloned()).collect();
        eq("bpsk decision", &r, &z.iter().map(|s| s.re >= 0.0).collect::<Vec<_>>())?;
        let r: Vec<bool> = rx_baseband_qpsk_signal(z.iter().cloned()).collect();
        eq("qpsk decision", &r, &z.iter().flat_map(|s| [s.re >= 0.0, s.im >= 0.0]).collect::<Vec<_>>())
    });
    let t = [1e-300, -1e-300, 1e-12, -1e-12, 0.0, 1e300, -1e300];
    let z: Vec<C64> = (0..12).map(|_| C64::new(t[c.below(7)], t[c.below(7)])).collect();
    c.case(format!("edge symbols {z:?}"), true, || {
        let r: Vec<bool> = rx_baseband_bpsk_signal(z.iter().cloned()).collect();
        eq("bpsk decision", &r, &z.iter().map(|s| s.re >= 0.0).collect::<Vec<_>>())?;
        let r: Vec<bool> = rx_baseband_qpsk_signal(z.iter().cloned()).collect();
        eq("qpsk decision", &r, &z.iter().flat_map(|s| [s.re >= 0.0, s.im >= 0.0]).collect::<Vec<_>>())
    });
}

fn len_for(c: &mut Cx, s: usize) -> usize {
    let n = c.size("n", 0, 40, 3000);
    n.min(200_000 / s.max(1))
}

pub fn c08(c: &mut Cx) {
    if long_round(c) {
        let r = long_rates(c);
        c.case(format!("long fs={} baud={} fc={}", r.fs, r.baud, r.fc), true, || {
            let w = |i: usize| nrz(bit_at((i / r.s) as u64)) * carg(r.fc, i, r.fs).cos();
            long_wave("sample", tx_bpsk_signal(endless_bits(), r.fs, r.baud, r.fc), w)?;
            // every decision, long after the start
            let b = rx_bpsk_signal((0..).map(w), r.fs, r.baud, r.fc);
            for (k, g) in b.take((1 << 24) / r.s + 200).enumerate() {
                if g != bit_at(k as u64) && (0..r.s).map(|j| carg(r.fc, k * r.s + j, r.fs).cos().powi(2)).sum::<f64>() > 1e-3 {
                    return Err(format!("recovered bit[{k}] = {g}, expected {}", !g));
                }
            }
            Ok(())
        });
    }
    let r = rates(c, 24);
    let n = len_for(c, r.s);
    let m = c.bits(n);
    let d = format!("fs={} baud={} fc={} message {}", r.fs, r.baud, r.fc, bs(&m));
    c.case(format!("tx/rx: {d}"), n > 0, || {
        let g: Vec<f64> = tx_bpsk_signal(m.iter().cloned(), r.fs, r.baud, r.fc).collect();
        close("sample", &g, &bpsk_wave(&m, &r))?;
        let o: Vec<bool> = rx_bpsk_signal(g.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let e: Vec<f64> = (0..n).map(|k| (0..r.s).map(|j| carg(r.fc, k * r.s + j, r.fs).cos().powi(2)).sum()).collect();
        let w: Vec<Option<bool>> = (0..n).map(|k| if e[k] > 1e-9 * r.s as f64 { Some(m[k]) } else { None }).collect();
        decide("recovered bit", &o, &w)
    });
    let x = { let l = n * r.s + c.below(r.s); c.reals(l.min(200_000)) };
    c.case(format!("rx: {d} tail {} signal {:?}", x.len() % r.s, &x[..x.len().min(6)]), n > 0, || {
        let o: Vec<bool> = rx_bpsk_signal(x.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let w = corr(&x, &r, false, false);
        decide("decision", &o, &w)
    });
}

pub fn c09(c: &mut Cx) {
    if long_round(c) {
        let r = long_rates(c);
        c.case(format!("long fs={} baud={} fc={}", r.fs, r.baud, r.fc), true, || {
            let w = |i: usize| {
                let (k, a) = ((i / r.s) as u64, carg(r.fc, i, r.fs));
                nrz(bit_at(2 * k)) * a.cos() - nrz(bit_at(2 * k + 1)) * a.sin()
            };
            long_wave("sample", tx_qpsk_signal(endless_bits(), r.fs, r.baud, r.fc), w)?;
            let mut b = rx_qpsk_signal((0..).map(w), r.fs, r.baud, r.fc);
            for k in 0..(1 << 24) / r.s + 200 {
                let (mut cc, mut ss, mut cs) = (0.0, 0.0, 0.0);
                let (g, h) = (b.next(), b.next());
                let e = (Some(bit_at(2 * k as u64)), Some(bit_at(2 * k as u64 + 1)));
                if (g, h) == e {
                    continue;
                }
                for j in 0..r.s {
                    let a = carg(r.fc, k * r.s + j, r.fs);
                    cc += a.cos() * a.cos();
                    ss += a.sin() * a.sin();
                    cs += a.cos() * a.sin();
                }
                if f64::abs(cs) + 1e-3 * (r.s as f64) < f64::min(cc, ss) {
                    return Err(format!("recovered bits[{}] = {:?}, expected {e:?}", 2 * k, (g, h)));
                }
            }
            Ok(())
        });
    }
    let r = rates(c, 24);
    let n = len_for(c, r.s);
    let m = c.bits(n);
    let d = format!("fs={} baud={} fc={} message {}", r.fs, r.baud, r.fc, bs(&m));
    c.case(format!("tx/rx: {d}"), n > 1, || {
        let g: Vec<f64> = tx_qpsk_signal(m.iter().cloned(), r.fs, r.baud, r.fc).collect();
        close("sample", &g, &qpsk_wave(&m, &r))?;
        let o: Vec<bool> = rx_qpsk_signal(g.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let mut w = vec![];
        for k in 0..n / 2 {
            let (mut cc, mut ss, mut cs) = (0.0, 0.0, 0.0);
            for j in 0..r.s {
                let a = carg(r.fc, k * r.s + j, r.fs);
                cc += a.cos() * a.cos();
                ss += a.sin() * a.sin();
                cs += a.cos() * a.sin();
            }
            let ok = f64::abs(cs) + 1e-7 * (r.s as f64) < f64::min(cc, ss);
            w.push(if ok { Some(m[2 * k]) } else { None });
            w.push(if ok { Some(m[2 * k + 1]) } else { None });
        }
        decide("recovered bit", &o, &w)
    });
    let x = { let l = n * r.s + c.below(r.s); c.reals(l.min(200_000)) };
    c.case(format!("rx: {d} signal {:?}", &x[..x.len().min(6)]), n > 0, || {
        let o: Vec<bool> = rx_qpsk_signal(x.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let i = corr(&x, &r, false, true);
        let q = corr(&x, &r, true, true);
        let w: Vec<Option<bool>> = i.iter().zip(&q).flat_map(|(&a, &b)| [a, b]).collect();
        decide("decision", &o, &w)
    });
}

pub fn c10(c: &mut Cx) {
    let n = c.size("n", 0, 30, 600);
    let l = c.intc("L", 1, 20, 600);
    let n = n.min(100_000 / l);
    // keys beyond the small integer types
    let (n, l) = match c.round {
        20 => (4, 256),
        30 => (5, 257),
        40 => (4, 600),
        50 => (3, 1031),
        60 => (2, 65_537),
        _ => (n, l),
    };
    let m = c.bits(n);
    let key = c.bits(l);
    c.case(format!("key {} message {}", bs(&key), bs(&m)), n > 0, || {
        let g: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).collect();
        let w: Vec<bool> = (0..n * l).map(|i| m[i / l] ^ key[i % l]).collect();
        eq("chip", &g, &w)?;
        let o: Vec<bool> = rx_baseband_cdma(g.iter().cloned(), &key).collect();
        eq("bit", &o, &m)
    });
    // flips: fewer than half of the chips of every bit
    let mut flips = vec![false; n * l];
    for k in 0..n {
        let f = c.below(l.div_ceil(2));
        for _ in 0..f {
            flips[k * l + c.below(l)] = true;
        }
    }
    let chips = { let t = c.below(l + 1); c.bits(n * l + t) };
    c.case(format!("key {} message {} flips {}", bs(&key), bs(&m), bs(&flips)), n > 0, || {
        let g: Vec<bool> = (0..n * l).map(|i| m[i / l] ^ key[i % l] ^ flips[i]).collect();
        let o: Vec<bool> = rx_baseband_cdma(g.iter().cloned(), &key).collect();
        eq("bit under chip errors", &o, &m)
    });
    c.case(format!("key {} chips {}", bs(&key), bs(&chips)), n > 0, || {
        let o: Vec<bool> = rx_baseband_cdma(chips.iter().cloned(), &key).collect();
        let w: Vec<bool> =
            chips.chunks(l).map(|b| 2 * b.iter().zip(&key).filter(|(a, b)| a != b).count() > l).collect();
        eq("despread decision", &o, &w)
    });
}

pub fn c11(c: &mut Cx) {
    if long_round(c) {
        let l = 2 + c.below(9);
        let spc = 2 + c.below(4);
        let s = spc * l;
        let baud = 1 + c.below(50);
        let fs = s * baud;
        let r = Rates { s, baud, fs, fc: fs as f64 * (0.11 + 0.01 * c.below(30) as f64) };
        let key = c.bits(l);
        c.case(format!("long fs={} baud={} fc={} key {}", r.fs, r.baud, r.fc, bs(&key)), true, || {
            let chip = |i: usize| nrz(key[(i % s) / spc]);
            let w = |i: usize| chip(i) * nrz(bit_at((i / r.s) as u64)) * carg(r.fc, i, r.fs).cos();
            long_wave("bpsk sample", tx_cdma_bpsk_signal(endless_bits(), r.fs, r.baud, r.fc, &key), w)?;
            let w = |i: usize| {
                let (k, a) = ((i / r.s) as u64, carg(r.fc, i, r.fs));
                chip(i) * (nrz(bit_at(2 * k)) * a.cos() - nrz(bit_at(2 * k + 1)) * a.sin())
            };
            long_wave("qpsk sample", tx_cdma_qpsk_signal(endless_bits(), r.fs, r.baud, r.fc, &key), w)
        });
    }
    let l = c.intc("L", 1, 9, 64);
    // chip rate L*baud <= fs/2: s >= 2 L
    let spc = c.intc("spc", 2, 7, 600);
    let s = spc * l;
    let baud = c.intc("R", 1, 40, 2000);
    let fs = s * baud;
    let fc = c.real("f", 0.0, (fs / 2) as f64);
    let r = Rates { s, baud, fs, fc };
    let n = c.size("n", 0, 24, 800).min(60_000 / s);
    let m = c.bits(n);
    let key = c.bits(l);
    let chip = |i: usize| nrz(key[(i % s) / spc]);
    let d = format!("fs={fs} baud={baud} fc={fc} key {} message {}", bs(&key), bs(&m));
    c.case(format!("bpsk {d}"), n > 0, || {
        let g: Vec<f64> = tx_cdma_bpsk_signal(m.iter().cloned(), fs, baud, fc, &key).collect();
        let w: Vec<f64> = bpsk_wave(&m, &r).iter().enumerate().map(|(i, x)| x * chip(i)).collect();
        close("sample", &g, &w)?;
        let o: Vec<bool> = rx_cdma_bpsk_signal(g.iter().cloned(), fs, baud, fc, &key).collect();
        let plain: Vec<bool> = rx_bpsk_signal(bpsk_wave(&m, &r).into_iter(), fs, baud, fc).collect();
        eq("bit", &o, &plain)
    });
    c.case(format!("qpsk {d}"), n > 1, || {
        let g: Vec<f64> = tx_cdma_qpsk_signal(m.iter().cloned(), fs, baud, fc, &key).collect();
        let w: Vec<f64> = qpsk_wave(&m, &r).iter().enumerate().map(|(i, x)| x * chip(i)).collect();
        close("sample", &g, &w)?;
        let o: Vec<bool> = rx_cdma_qpsk_signal(g.iter().cloned(), fs, baud, fc, &key).collect();
        let x: Vec<f64> = g.iter().enumerate().map(|(i, x)| x * chip(i)).collect();
        let wi = corr(&x, &r, false, true);
        let wq = corr(&x, &r, true, true);
        let w: Vec<Option<bool>> = wi.iter().zip(&wq).flat_map(|(&a, &b)| [a, b]).collect();
        decide("bit", &o, &w)
    });
    let x = { let l = n * s + c.below(s); c.reals(l) };
    c.case(format!("rx {d} signal {:?}", &x[..x.len().min(6)]), n > 0, || {
        let y: Vec<f64> = x.iter().enumerate().map(|(i, x)| x * chip(i)).collect();
        let w = corr(&y, &r, false, false);
        let wi = corr(&y, &r, false, true);
        let wq: Vec<Option<bool>> = wi.iter().zip(&corr(&y, &r, true, true)).flat_map(|(&a, &b)| [a, b]).collect();
        let o: Vec<bool> = rx_cdma_bpsk_signal(x.iter().cloned(), fs, baud, fc, &key).collect();
        decide("bpsk decision", &o, &w)?;
        let o: Vec<bool> = rx_cdma_qpsk_signal(x.iter().cloned(), fs, baud, fc, &key).collect();
        decide("qpsk decision", &o, &wq)
    });
    let fc2 = baud as f64 * (1 + c.below(s / 2)) as f64;
    let nn = c.below(70);
    let m = c.bits(nn);
    c.case(format!("coded fs={fs} baud={baud} fc={fc2} key {} message {}", bs(&key), bs(&m)), nn > 0, || {
        let g: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, baud, fc2, &key).collect();
        #[cfg(komunikilo_verif)]
        {
            let coded: Vec<bool> = komunikilo::verif::bch_stream_encode(m.iter().cloned()).collect();
            let r2 = Rates { s, baud, fs, fc: fc2 };
            let w: Vec<f64> = bpsk_wave(&coded, &r2).iter().enumerate().map(|(i, x)| x * chip(i)).collect();
            close("coded sample", &g, &w)?;
        }
        let o: Vec<bool> = rx_coded_cdma_bpsk_signal(g.iter().cloned(), fs, baud, fc2, &key).collect();
        let mut w = m.clone();
        w.resize(nn.div_ceil(8) * 8, false);
        eq("coded bit", &o, &w)?;
        // two corrupted bytes per frame are corrected
        let mut x = g.clone();
        let frame = 12 * 8 * s;
        for f in x.chunks_mut(frame) {
            let b = f.len() / (8 * s);
            for p in [b - 1, b / 2] {
                for v in f[p * 8 * s..(p + 1) * 8 * s].iter_mut() {
                    *v = -*v;
                }
            }
        }
        let o: Vec<bool> = rx_coded_cdma_bpsk_signal(x.iter().cloned(), fs, baud, fc2, &key).collect();
        eq("coded bit after two byte errors per frame", &o, &w)
    });
}

pub struct Band {
    pub low: f64,
    pub high: f64,
    pub nf: usize,
}

pub fn band(c: &mut Cx, fs: usize) -> Band {
    let h = (fs / 2) as f64;
    let low = c.real("low", 0.0, h * 0.7);
    let high = c.real("high", low + h * 0.05, h.max(low + h * 0.05));
    Band { low, high: high.min(h), nf: c.intc("nf", 1, 12, 300) }
}

#[cfg(komunikilo_verif)]
pub fn hops(b: &Band, n: usize) -> Option<Vec<f64>> {
    Some(komunikilo::verif::hop_table(b.low, b.high, b.nf, 64).take(n).collect())
}
#[cfg(not(komunikilo_verif))]
pub fn hops(_b: &Band, _n: usize) -> Option<Vec<f64>> {
    None
}

pub fn c14(c: &mut Cx) {
    if long_round(c) {
        let r = long_rates(c);
        let b = Band { low: 0.1 * r.fs as f64, high: 0.4 * r.fs as f64, nf: 1 + c.below(9) };
        if let Some(h) = hops(&b, (1 << 24) / r.s + 4000) {
            c.case(format!("long fs={} baud={} nf={}", r.fs, r.baud, b.nf), true, || {
                let w = |i: usize| nrz(bit_at((i / r.s) as u64)) * carg(h[i / r.s], i % r.s, r.fs).cos();
                long_wave("sample", tx_fh_bpsk_signal(endless_bits(), b.low, b.high, b.nf, r.fs, r.baud), w)
            });
        }
    }
    let r = rates(c, 24);
    let b = band(c, r.fs);
    let n = len_for(c, r.s);
    let m = c.bits(n);
    let d = format!(
        "fs={} baud={} low={} high={} nf={} message {}",
        r.fs, r.baud, b.low, b.high, b.nf, bs(&m)
    );
    let h = hops(&b, n + 1);
    if h.is_none() {
        c.skip("hop waveform needs the hook");
    }
    let x = { let l = n * r.s + c.below(r.s); c.reals(l) };
    c.case(format!("tx/rx {d}"), n > 0, || {
        let g: Vec<f64> = tx_fh_bpsk_signal(m.iter().cloned(), b.low, b.high, b.nf, r.fs, r.baud).collect();
        if let Some(h) = &h {
            let w: Vec<f64> =
                (0..n * r.s).map(|i| nrz(m[i / r.s]) * carg(h[i / r.s], i % r.s, r.fs).cos()).collect();
            close("sample", &g, &w)?;
        }
        let o: Vec<bool> = rx_fh_bpsk_signal(g.iter().cloned(), b.low, b.high, b.nf, r.fs, r.baud).collect();
        eq("bit", &o, &m)
    });
    if let Some(h) = &h {
        c.case(format!("rx {d} signal {:?}", &x[..x.len().min(6)]), n > 0, || {
            let o: Vec<bool> = rx_fh_bpsk_signal(x.iter().cloned(), b.low, b.high, b.nf, r.fs, r.baud).collect();
            let mut w = vec![];
            for (k, blk) in x.chunks_exact(r.s).enumerate() {
                let rr = Rates { s: r.s, baud: r.baud, fs: r.fs, fc: h[k] };
                w.extend(corr(blk, &rr, false, false));
            }
            decide("decision", &o, &w)
        });
        c.case(format!("mixer fc={} {d}", r.fc), n > 0, || {
            let g: Vec<f64> =
                tx_fh_bpsk_signal_old(m.iter().cloned(), b.low, b.high, b.nf, r.fs, r.baud, r.fc).collect();
            let w: Vec<f64> = (0..n * r.s)
                .map(|i| {
                    let (k, j) = (i / r.s, i % r.s);
                    nrz(m[k]) * carg(r.fc, k + j, r.fs).cos() * carg(h[k], k + j, r.fs).cos()
                })
                .collect();
            close("mixer sample", &g, &w)
        });
    }
}

fn chirp_wave(rate: f64, fs: usize, f0: f64, f1: f64) -> Vec<f64> {
    let n = (fs as f64 / rate).floor() as usize;
    (0..n)
        .map(|i| {
            let t = i as f64 * (1.0 / rate) / n as f64;
            (2.0 * PI * (f0 + (f1 - f0) * rate * t / 2.0) * t).cos()
        })
        .collect()
}

pub fn c15(c: &mut Cx) {
    let fs = c.intc("fs", 8, 4000, 48000);
    let rate = c.real("rate", 0.7, 60.0).max(fs as f64 / 20000.0);
    let f0 = c.real("f0", -50.0, 900.0);
    let f1 = c.real("f1", -50.0, 900.0);
    let bw = c.real("bw", -400.0, 400.0);
    c.case(format!("chirp rate={rate} fs={fs} f0={f0} f1={f1} bw={bw}"), true, || {
        let g: Vec<f64> = linear_chirp(rate, fs, f0, f1).collect();
        close("chirp", &g, &chirp_wave(rate, fs, f0, f1))?;
        let g: Vec<f64> = linear_upchirp_centered(rate, f0, bw, fs).collect();
        close("up-chirp", &g, &chirp_wave(rate, fs, f0 - bw / 2.0, f0 + bw / 2.0))?;
        let g: Vec<f64> = linear_downchirp_centered(rate, f0, bw, fs).collect();
        close("down-chirp", &g, &chirp_wave(rate, fs, f0 + bw / 2.0, f0 - bw / 2.0))
    });
    let r = rates(c, 24);
    let b = band(c, r.fs);
    let n = len_for(c, r.s);
    let m = c.bits(n);
    let Some(h) = hops(&b, n) else {
        c.skip("hop waveform needs the hook");
        return;
    };
    c.case(
        format!("fh-css fs={} baud={} low={} high={} nf={} message {}", r.fs, r.baud, b.low, b.high, b.nf, bs(&m)),
        n > 0,
        || {
            let g: Vec<f64> = tx_fh_css_signal(m.iter().cloned(), r.fs, r.baud, b.low, b.high, b.nf).collect();
            let hb = (b.high - b.low) / b.nf as f64 / 2.0;
            let w: Vec<f64> = (0..n)
                .flat_map(|k| {
                    let (a, z) = if m[k] { (h[k] - hb, h[k] + hb) } else { (h[k] + hb, h[k] - hb) };
                    chirp_wave(r.baud as f64, r.fs, a, z)
                })
                .collect();
            close("sample", &g, &w)
        },
    );
}

pub fn c16(c: &mut Cx) {
    if long_round(c) {
        let r = long_rates(c);
        let (fl, fh) = (0.15 * r.fs as f64, 0.35 * r.fs as f64);
        c.case(format!("long fs={} baud={} fl={fl} fh={fh} fc={}", r.fs, r.baud, r.fc), true, || {
            let w = |i: usize| carg(if bit_at((i / r.s) as u64) { fh } else { fl }, i, r.fs).cos();
            long_wave("bfsk", tx_bfsk_signal(endless_bits(), r.fs, r.baud, fl, fh), w)?;
            long_wave("mfsk", tx_mfsk_signal(endless_bits(), r.fs, r.baud, fl, fh, 2), w)?;
            long_wave("fsk", tx_fsk_signal(endless_bits(), r.fs, r.baud, &[fh, fl]), w)?;
            let w = |i: usize| carg(r.fc * (1.0 + 0.025 * nrz(bit_at((i / r.s) as u64))), i, r.fs).cos();
            long_wave("carrier-relative fsk", tx_fsk(endless_bits(), r.fs, r.baud, r.fc), w)?;
            // alternating unit samples: the running sum stays within one symbol
            let w = |i: usize| {
                let (k, j) = (i / r.s, i % r.s + 1);
                let s = if k % 2 == 0 { j } else { r.s - j };
                (carg(r.fc, i, r.fs) + 0.05 * s as f64).cos()
            };
            let x = (0u64..).map(|k| if k % 2 == 0 { 1.0 } else { -1.0 });
            long_wave("fm", tx_fm(x, r.fs, r.baud, r.fc), w)
        });
    }
    let r = rates(c, 24);
    let n = len_for(c, r.s);
    let m = c.bits(n);
    let h = (r.fs / 2) as f64;
    let sgn = if c.chance(0.1) { -1.0 } else { 1.0 };
    let fl = sgn * c.real("fl", 0.0, h);
    let fh = c.real("fh", 0.0, h);
    let d = format!("fs={} baud={} fl={fl} fh={fh} fc={} message {}", r.fs, r.baud, r.fc, bs(&m));
    c.case(format!("fsk {d}"), n > 0, || {
        let w: Vec<f64> =
            (0..n * r.s).map(|i| carg(if m[i / r.s] { fh } else { fl }, i, r.fs).cos()).collect();
        let g: Vec<f64> = tx_bfsk_signal(m.iter().cloned(), r.fs, r.baud, fl, fh).collect();
        close("bfsk", &g, &w)?;
        let g: Vec<f64> = tx_mfsk_signal(m.iter().cloned(), r.fs, r.baud, fl, fh, 2 + n % 3).collect();
        close("mfsk", &g, &w)?;
        let g: Vec<f64> = tx_fsk_signal(m.iter().cloned(), r.fs, r.baud, &[fh, fl]).collect();
        close("fsk", &g, &w)?;
        let g: Vec<f64> = tx_fsk_signal(m.iter().cloned(), r.fs, r.baud, &[fh, fl, 1.0]).collect();
        close("fsk with a third entry", &g, &w)?;
        let g: Vec<f64> = tx_fsk(m.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let w: Vec<f64> =
            (0..n * r.s).map(|i| carg(r.fc * (1.0 + 0.025 * nrz(m[i / r.s])), i, r.fs).cos()).collect();
        close("carrier-relative fsk", &g, &w)
    });
    let x = c.reals(n);
    c.case(format!("fm {d} signal {:?}", &x[..n.min(6)]), n > 0, || {
        let g: Vec<f64> = tx_fm(x.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let mut s = 0.0;
        let w: Vec<f64> = (0..n * r.s)
            .map(|i| {
                s += x[i / r.s];
                (carg(r.fc, i, r.fs) + 0.05 * s).cos()
            })
            .collect();
        close("fm", &g, &w)
    });
    let y = { let l = n * r.s + c.below(r.s); c.reals(l) };
    c.case(format!("rx_fsk {d} signal {:?}", &y[..y.len().min(6)]), n > 0, || {
        let o: Vec<bool> = rx_fsk(y.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let w: Vec<Option<bool>> = y
            .chunks(r.s)
            .enumerate()
            .map(|(k, b)| {
                // the energy at one frequency does not depend on where the phase reference is
                let en = |f: f64| {
                    let (mut a, mut q) = (0.0, 0.0);
                    for (j, v) in b.iter().enumerate() {
                        a += v * carg(f, k + j, r.fs).cos();
                        q += v * carg(f, k + j, r.fs).sin();
                    }
                    a * a + q * q
                };
                let (e1, e0) = (en(r.fc * 1.025), en(r.fc * 0.975));
                let tot: f64 = b.iter().map(|v| v.abs()).sum::<f64>().powi(2);
                if tot == 0.0 {
                    Some(true)
                } else if (e1 - e0).abs() < 1e-7 * tot {
                    None
                } else {
                    Some(e1 > e0)
                }
            })
            .collect();
        decide("decision", &o, &w)
    });
}

fn orbit(x0: f64, n: usize) -> Vec<f64> {
    let mut v = x0;
    (0..n)
        .map(|_| {
            v = 3.9 * v * (1.0 - v);
            v
        })
        .collect()
}

pub fn c18(c: &mut Cx) {
    use komunikilo::csk::tx_baseband_csk;
    use komunikilo::dcsk::*;
    // chaos amplifies rounding: the oracle follows the same rounding for at most a few hundred steps
    let n = c.size("n", 0, 60, 2000);
    let m = c.bits(n);
    // the carriers themselves, taken from the code where rounding would separate an independent orbit
    let car: Vec<f64> = tx_baseband_csk(std::iter::repeat(true)).take(n).collect();
    let dar: Vec<f64> = tx_baseband_csk(std::iter::repeat(false)).take(n).collect();
    c.case(format!("message {}", bs(&m)), n > 0, || {
        let (o1, o2) = (orbit(0.1, n), orbit(0.15, n));
        let k = n.min(40);
        close("carrier for 1", &car[..k], &o1[..k])?;
        close("carrier for 0", &dar[..k], &o2[..k])?;
        for i in 1..n {
            near("carrier recurrence for 1", car[i], 3.9 * car[i - 1] * (1.0 - car[i - 1]))?;
            near("carrier recurrence for 0", dar[i], 3.9 * dar[i - 1] * (1.0 - dar[i - 1]))?;
        }
        let g: Vec<f64> = tx_baseband_csk(m.iter().cloned()).collect();
        let w: Vec<f64> = (0..n).map(|i| if m[i] { car[i] } else { dar[i] }).collect();
        close("csk sample", &g, &w)?;
        let g: Vec<f64> = tx_baseband_dcsk(m.iter().cloned()).collect();
        let w: Vec<f64> = (0..n).flat_map(|i| [car[i], nrz(m[i]) * car[i]]).collect();
        close("dcsk sample", &g, &w)?;
        let r: Vec<bool> = rx_baseband_dcsk(g.into_iter()).collect();
        eq("dcsk bit", &r, &m)
    });
    let x = c.reals(n);
    c.case(format!("dcsk rx {:?}", &x[..n.min(8)]), n > 1, || {
        let r: Vec<bool> = rx_baseband_dcsk(x.iter().cloned()).collect();
        let w: Vec<bool> = x.chunks_exact(2).map(|p| p[0] * p[1] > 0.0).collect();
        eq("dcsk decision", &r, &w)
    });
    #[cfg(komunikilo_verif)]
    {
        use komunikilo::verif::rx_baseband_csk;
        c.case(format!("csk rx {} {:?}", bs(&m), &x[..n.min(8)]), n > 0, || {
            let g: Vec<f64> = tx_baseband_csk(m.iter().cloned()).collect();
            let r: Vec<bool> = rx_baseband_csk(g.into_iter()).collect();
            let w: Vec<Option<bool>> =
                (0..n).map(|i| if (car[i] - dar[i]).abs() > 1e-7 { Some(m[i]) } else { None }).collect();
            decide("csk bit", &r, &w)?;
            let r: Vec<bool> = rx_baseband_csk(x.iter().cloned()).collect();
            let w: Vec<Option<bool>> = (0..n)
                .map(|i| {
                    let (a, b) = ((x[i] - car[i]).abs(), (x[i] - dar[i]).abs());
                    if (a - b).abs() < 1e-9 {
                        None
                    } else {
                        Some(a < b)
                    }
                })
                .collect();
            decide("csk decision", &r, &w)?;
            // equidistant samples decide 0: the midpoints whose distances are computed without rounding
            let x: Vec<f64> = (0..n).map(|i| (car[i] + dar[i]) / 2.0).collect();
            let near2 = |a: f64, b: f64| a / 2.0 <= b && b <= 2.0 * a;
            let w: Vec<Option<bool>> = (0..n)
                .map(|i| {
                    let exact = near2(x[i], car[i]) && near2(x[i], dar[i]) && car[i] != dar[i];
                    if exact && (x[i] - car[i]).abs() == (x[i] - dar[i]).abs() { Some(false) } else { None }
                })
                .collect();
            let r: Vec<bool> = rx_baseband_csk(x.into_iter()).collect();
            decide("csk decision on an equidistant sample", &r, &w)
        });
    }
}
