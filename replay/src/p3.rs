use crate::cx::*;
use crate::p2::*;
use komunikilo::bpf::bandpass;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use komunikilo::ssca::*;
use std::f64::consts::PI;

fn cis(a: f64) -> C64 {
    C64::new(a.cos(), a.sin())
}

fn dft(x: &[C64], sign: f64) -> Vec<C64> {
    let n = x.len();
    (0..n)
        .map(|k| (0..n).map(|i| x[i] * cis(sign * 2.0 * PI * ((k * i) % n) as f64 / n as f64)).sum())
        .collect()
}

fn shift<T: Clone>(x: &[T]) -> Vec<T> {
    let h = x.len().div_ceil(2);
    (0..x.len()).map(|i| x[(i + h) % x.len()].clone()).collect()
}

/// data carriers as the statement lists them
fn carriers(n: usize, p: usize) -> Vec<usize> {
    let lo = (p - 1) - (p - 1) / 2;
    let hi = n - 1 - (p - 1) / 2;
    (lo..=hi).filter(|&k| k != n / 2).collect()
}

fn ofdm_tx(sym: &[C64], n: usize, p: usize) -> Vec<C64> {
    let cs = carriers(n, p);
    let mut out = vec![];
    for ch in sym.chunks(n - p) {
        let mut d = vec![C64::new(0.0, 0.0); n];
        for (j, &x) in ch.iter().enumerate() {
            d[cs[j]] = x;
        }
        let f: Vec<C64> = dft(&shift(&d), 1.0).iter().map(|x| x / n as f64).collect();
        out.extend_from_slice(&f[n - n / 4..]);
        out.extend_from_slice(&f);
    }
    out
}

fn ofdm_rx(x: &[C64], n: usize, p: usize) -> Vec<C64> {
    let cs = carriers(n, p);
    let mut out = vec![];
    for f in x.chunks(n + n / 4) {
        let d = shift(&dft(&f[n / 4..], -1.0));
        out.extend(cs.iter().map(|&k| d[k]));
    }
    out
}

fn ofdm_dims(c: &mut Cx) -> (usize, usize) {
    let n = if c.chance(0.1) { 64 } else { 2 * (2 + c.below(11)) };
    let p = c.int("p", 1, n - 2);
    (n, p)
}

pub fn c19(c: &mut Cx) {
    let (n, p) = ofdm_dims(c);
    let m = c.size("n", 0, 60, 700);
    let sym = c.cplx(m);
    c.case(format!("N={n} pilots={p} symbols={m} {:?}", &sym[..m.min(4)]), m > 0, || {
        if carriers(n, p).len() != n - p {
            return Err("oracle".into());
        }
        let g: Vec<C64> = tx_baseband_ofdm_signal(sym.iter().cloned(), n, p).collect();
        closec("frame sample", &g, &ofdm_tx(&sym, n, p))?;
        let r: Vec<C64> = rx_baseband_ofdm_signal(g.into_iter(), n, p).collect();
        let mut w = sym.clone();
        w.resize(m.div_ceil(n - p) * (n - p), C64::new(0.0, 0.0));
        closec("recovered symbol", &r, &w)
    });
    let fr = c.below(5);
    let x = c.cplx(fr * (n + n / 4));
    c.case(format!("rx N={n} pilots={p} frames={fr} {:?}", &x[..x.len().min(4)]), fr > 0, || {
        let r: Vec<C64> = rx_baseband_ofdm_signal(x.iter().cloned(), n, p).collect();
        closec("received symbol", &r, &ofdm_rx(&x, n, p))
    });
}

pub fn c20(c: &mut Cx) {
    let (n, p) = ofdm_dims(c);
    let s = c.intc("K", 1, 10, 60);
    let baud = 1 + c.below(50);
    let fs = s * baud;
    let fc = c.real("f", 0.0, (fs / 2) as f64) * if c.chance(0.1) { -1.0 } else { 1.0 };
    let nb = c.below(120);
    let m = c.bits(nb);
    let q2 = 2f64.sqrt();
    c.case(format!("tx N={n} pilots={p} fs={fs} baud={baud} fc={fc} message {}", bs(&m)), nb > 1, || {
        let sym: Vec<C64> = m.chunks_exact(2).map(|b| C64::new(nrz(b[0]) * q2, nrz(b[1]) * q2)).collect();
        let z = ofdm_tx(&sym, n, p);
        let g: Vec<f64> = tx_ofdm_qpsk_signal(m.iter().cloned(), n, p, fs, baud, fc).collect();
        let w: Vec<f64> = (0..z.len() * s).map(|i| (z[i / s] * cis(carg(fc, i, fs))).re).collect();
        close("sample", &g, &w)
    });
    // receiver: windows ending at m*s, m = 1, 2, .., as long as the window still overlaps the signal (n+s-1 sums)
    let frames = c.below(4);
    let want = frames * (n + n / 4);
    if frames == 0 {
        return;
    }
    // number of outputs of take_every(s).skip(1) over len+s-1 sums must be `want`
    let len = want * s - c.below(s.min(2)) - 0;
    let len = if s == 1 { want + 1 } else { len };
    let x = c.reals(len);
    let tot = len + s - 1;
    let cnt = tot.div_ceil(s) - 1;
    if cnt % (n + n / 4) != 0 && cnt % (n + n / 4) <= n / 4 {
        c.skip("trailing fragment shorter than a prefix");
        return;
    }
    if cnt % (n + n / 4) != 0 {
        c.skip("incomplete frame");
        return;
    }
    c.case(format!("rx N={n} pilots={p} fs={fs} baud={baud} fc={fc} len={len} {:?}", &x[..len.min(4)]), true, || {
        let mix: Vec<C64> = x
            .iter()
            .enumerate()
            .map(|(i, v)| C64::new(v * carg(fc, i, fs).cos(), -v * carg(fc, i, fs).sin()))
            .collect();
        let z: Vec<C64> = (1..=cnt)
            .map(|m| (0..s).filter(|j| m * s >= *j && m * s - j < len).map(|j| mix[m * s - j]).sum())
            .collect();
        let sym = ofdm_rx(&z, n, p);
        let w: Vec<Option<bool>> = sym
            .iter()
            .flat_map(|y| [y.re, y.im])
            .map(|v| if v.abs() < 1e-6 { None } else { Some(v >= 0.0) })
            .collect();
        let g: Vec<bool> = rx_ofdm_qpsk_signal(x.iter().cloned(), n, p, fs, baud, fc).collect();
        decide("decision", &g, &w)
    });
}

fn cheb(n: usize) -> Vec<f64> {
    komunikilo::chaos::Chebyshev::new(0.5).take(n).collect()
}

fn perms(frames: usize) -> Vec<Vec<usize>> {
    use rand::prelude::*;
    let mut rng = StdRng::seed_from_u64(64);
    (0..frames)
        .map(|_| {
            let mut v: Vec<usize> = (0..8).collect();
            v.shuffle(&mut rng);
            v
        })
        .collect()
}

fn fod_tx(m: &[bool]) -> Vec<C64> {
    let fr = m.len().div_ceil(7);
    let ch = cheb(fr * 8);
    let pm = perms(fr);
    let mut out = vec![];
    for k in 0..fr {
        let pre: Vec<C64> = (0..8)
            .map(|j| {
                let c = ch[8 * k + j];
                let v = if j == 0 { c } else { m.get(7 * k + j - 1).map_or(0.0, |&b| nrz(b) * c) };
                C64::new(v, 0.0)
            })
            .collect();
        let hop: Vec<C64> = pm[k].iter().map(|&i| pre[i]).collect();
        let f: Vec<C64> = dft(&shift(&hop), 1.0).iter().map(|x| x / 8.0).collect();
        out.extend_from_slice(&f[6..]);
        out.extend_from_slice(&f);
    }
    out
}

pub fn c21(c: &mut Cx) {
    let n = c.size("n", 0, 60, 1500);
    let m = c.bits(n);
    c.case(format!("baseband {}", bs(&m)), n > 0, || {
        // the recurrence of the chaotic samples themselves (few steps: chaos amplifies rounding)
        let mut v = 0.5;
        for (i, x) in cheb(20).into_iter().enumerate() {
            v = 3.0 * v * v * v - 2.0 * v;
            near(&format!("chaotic sample {i}"), x, v)?;
        }
        let g: Vec<C64> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
        closec("frame sample", &g, &fod_tx(&m))?;
        let r: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(g.into_iter()).collect();
        let ch = cheb(n.div_ceil(7) * 8);
        let w: Vec<Option<bool>> = (0..n.div_ceil(7) * 7)
            .map(|i| {
                let (k, j) = (i / 7, i % 7);
                let p = ch[8 * k] * ch[8 * k] * 0.0 + (ch[8 * k] * ch[8 * k + j + 1]).abs();
                let _ = p;
                // conj(reference) * carrier = c0 * c_j * bit
                let pr = ch[8 * k] * ch[8 * k + j + 1];
                if i >= n || pr.abs() < 1e-9 {
                    None
                } else {
                    Some(pr * nrz(m[i]) > 0.0)
                }
            })
            .collect();
        decide("bit", &r, &w)
    });
    let fr = c.below(6);
    let mut x = c.cplx(fr * 10);
    if fr > 0 && c.chance(0.1) {
        // a silent frame: every statistic is a positive zero
        let k = c.below(fr);
        x[10 * k..10 * k + 10].fill(C64::new(0.0, 0.0));
    }
    c.case(format!("receiver {fr} frames {:?}", &x[..x.len().min(4)]), fr > 0, || {
        let r: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(x.iter().cloned()).collect();
        let pm = perms(fr);
        let mut w = vec![];
        for (k, f) in x.chunks(10).enumerate() {
            if f.iter().all(|z| z.re.to_bits() == 0 && z.im.to_bits() == 0) {
                w.extend([Some(true); 7]);
                continue;
            }
            let d = shift(&dft(&f[2..], -1.0));
            let mut u = vec![C64::new(0.0, 0.0); 8];
            for (j, &i) in pm[k].iter().enumerate() {
                u[i] = d[j];
            }
            for j in 1..8 {
                let v = (u[0].conj() * u[j]).re;
                w.push(if v.abs() < 1e-7 { None } else { Some(v > 0.0) });
            }
        }
        decide("decision", &r, &w)
    });
    let r = rates(c, 12);
    let b = band(c, r.fs);
    let n = n.min(300);
    let m = m[..n].to_vec();
    let d = format!("fs={} baud={} fc={} message {}", r.fs, r.baud, r.fc, bs(&m));
    let z = fod_tx(&m);
    if z.len() * r.s > 100_000 {
        return;
    }
    c.case(format!("carrier {d}"), n > 0, || {
        let g: Vec<f64> = tx_fh_ofdm_dcsk_signal_2(m.iter().cloned(), r.fs, r.baud, r.fc).collect();
        let w: Vec<f64> = (0..z.len() * r.s).map(|i| (z[i / r.s] * cis(-carg(r.fc, i, r.fs))).re).collect();
        close("sample", &g, &w)
    });
    if let Some(h) = hops(&b, z.len()) {
        c.case(format!("hopped {d} low={} high={} nf={}", b.low, b.high, b.nf), n > 0, || {
            let g: Vec<f64> =
                tx_fh_ofdm_dcsk_signal(m.iter().cloned(), b.low, b.high, b.nf, r.fs, r.baud).collect();
            let w: Vec<f64> =
                (0..z.len() * r.s).map(|i| (z[i / r.s] * cis(-carg(h[i / r.s], i, r.fs))).re).collect();
            close("hopped sample", &g, &w)
        });
    } else {
        c.skip("hop waveform needs the hook");
    }
}

fn hamming(n: usize) -> Vec<f64> {
    (0..n).map(|k| 0.54 - 0.46 * (2.0 * PI * k as f64 / n as f64).cos()).collect()
}

pub fn c25(c: &mut Cx) {
    let np = c.int("np", 1, 9);
    let n = np + 1 + c.below(14);
    let extra = c.below(4);
    let mut s = c.reals(n + np + extra);
    // exactly zero bins: equal, alternating or mostly zero samples
    match c.below(8) {
        0 => s.iter_mut().for_each(|x| *x = 1.0),
        1 => s.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { 1.0 } else { -1.0 }),
        2 => s.iter_mut().enumerate().for_each(|(i, x)| *x = if i % np == 0 { 2.0 } else { 0.0 }),
        3 => {
            let z = c.below(s.len());
            s.iter_mut().enumerate().for_each(|(i, x)| *x = if i == z { 1.0 } else { 0.0 });
        }
        _ => {}
    }
    c.case(format!("n={n} np={np} signal {:?}", &s), true, || {
        let a = hamming(np);
        let g = hamming(n);
        let mut cols = vec![vec![C64::new(0.0, 0.0); n]; np];
        for i in 0..n {
            let seg: Vec<C64> = (0..np).map(|j| C64::new(s[i + j] * a[j], 0.0)).collect();
            let d = shift(&dft(&seg, -1.0));
            for k in 0..np {
                let e = cis(-2.0 * PI * (k as f64 - np as f64 / 2.0) * i as f64 / np as f64);
                cols[k][i] = d[k] * e * s[np / 2 + i] * g[i];
            }
        }
        let cols: Vec<Vec<C64>> = cols.iter().map(|x| shift(&dft(x, -1.0))).collect();
        let m = ssca_base(s.clone(), n, np);
        if m.shape() != [n, np] {
            return Err(format!("shape {:?}, expected {n} x {np}", m.shape()));
        }
        for q in 0..n {
            for k in 0..np {
                closec(&format!("entry ({q}, {k})"), &[m[[q, k]]], &[cols[k][q]])?;
            }
        }
        let f = ssca_mapped(s.clone(), n, np);
        if f.shape() != [np + 1, 2 * n + 1] {
            return Err(format!("mapped shape {:?}", f.shape()));
        }
        // exact rational floors; cells whose position is an exact integer may round either way and are skipped
        let mut want = vec![vec![None; 2 * n + 1]; np + 1];
        let mut unsure = vec![vec![false; 2 * n + 1]; np + 1];
        for q in 0..n {
            for k in 0..np {
                // np (k/2np - q/2n + 1/2) = (k n - q np + np n) / 2n ;  n (k/np + q/n) = (k n + q np) / np
                let (rn, rd) = (k * n + np * n - q * np, 2 * n);
                let (cn, cd) = (k * n + q * np, np);
                let amb = rn % rd == 0 || cn % cd == 0;
                for (dr, dc) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                    let (r, cc) = ((rn / rd).wrapping_sub(dr), (cn / cd).wrapping_sub(dc));
                    if amb && r <= np && cc <= 2 * n {
                        unsure[r][cc] = true;
                    }
                }
                if !amb {
                    want[rn / rd][cn / cd] = Some((q, k));
                }
            }
        }
        for r in 0..=np {
            for cc in 0..=2 * n {
                if unsure[r][cc] {
                    continue;
                }
                let w = want[r][cc].map_or(C64::new(0.0, 0.0), |(q, k): (usize, usize)| m[[q, k]]);
                closec(&format!("mapped ({r}, {cc})"), &[f[[r, cc]]], &[w])?;
            }
        }
        // the unsure cells hold some entry or zero, never anything else
        for r in 0..=np {
            for cc in 0..=2 * n {
                let v = f[[r, cc]];
                if v.norm() > 0.0 && !m.iter().any(|x| (x - v).norm() <= 1e-9) {
                    return Err(format!("mapped ({r}, {cc}) is no entry of the array"));
                }
            }
        }
        Ok(())
    });
    if c.round == 2 {
        for (n, np) in [(4usize, 4usize), (3, 4), (8, 8)] {
            c.case(format!("n={n} np={np} is rejected"), true, || {
                if panics(|| ssca_base(vec![0.5; 64], n, np)) {
                    Ok(())
                } else {
                    Err("accepted".into())
                }
            });
        }
    }
}

pub fn c26(c: &mut Cx) {
    let cap = if c.chance(0.1) { 60 } else { 16 };
    let len = 2 * (1 + c.below(cap));
    let blocks = c.below(5);
    let fs = c.intc("fs", 2, 200, 48000);
    let h = fs as f64 / 2.0;
    let low = c.real("low", 0.0, h);
    let high = c.real("high", 0.0, h);
    let x = c.reals(len * blocks);
    let step = fs as f64 / len as f64;
    let near_bin = |f: f64| {
        let k = (f / step).round();
        let d = (f - k * step).abs();
        d > 0.0 && d < 1e-9 * fs as f64
    };
    if near_bin(low) || near_bin(high) {
        c.skip("band edge within rounding of a bin");
        return;
    }
    c.case(format!("len={len} blocks={blocks} fs={fs} band {low}..{high} {:?}", &x[..x.len().min(5)]), blocks > 0, || {
        let g: Vec<f64> = bandpass(low, high, x.iter().cloned(), fs, len).collect();
        let mut w = vec![];
        for b in x.chunks(len) {
            let mut d = dft(&b.iter().map(|&v| C64::new(v, 0.0)).collect::<Vec<_>>(), -1.0);
            for k in 0..len {
                let kk = k.min(len - k);
                let f = (kk * fs) as f64 / len as f64;
                if f < low || f > high {
                    d[k] = C64::new(0.0, 0.0);
                }
            }
            w.extend(dft(&d, 1.0).iter().map(|v| v.re / len as f64));
        }
        close("filtered", &g, &w)?;
        let g: Vec<f64> = bandpass(0.0, h, x.iter().cloned(), fs, len).collect();
        close("full band", &g, &x)
    });
}

fn rej(name: &str, want: bool, f: impl FnOnce()) -> Result<(), String> {
    let p = panics(f);
    if p == want {
        Ok(())
    } else if want {
        Err(format!("{name} accepts it"))
    } else {
        Err(format!("{name} rejects or fails on it"))
    }
}

pub fn c28(c: &mut Cx) {
    // any combination: mostly near the limits
    let fs = if c.chance(0.5) { 1 + c.below(40) } else { c.intc("fs", 1, 4000, 48000) };
    let baud = if c.chance(0.5) {
        let d: Vec<usize> = (1..=fs.min(400)).filter(|d| fs % d == 0).collect();
        d[c.below(d.len())]
    } else {
        c.intc("baud", 1, fs + 3, 48000)
    };
    // now and then many samples per symbol, a whole number or not
    let (fs, baud) = if c.chance(0.06) { (9000 + c.below(60_000), 1 + c.below(5)) } else { (fs, baud) };
    // and rates far beyond 32 bits, a hair off a whole ratio or not
    let (fs, baud) = if c.chance(0.08) {
        let off = [0, 0, 1, 2][c.below(4)];
        if c.bool() {
            let baud = 10usize.pow(7 + c.below(7) as u32) + c.below(1000);
            (baud * (1 + c.below(4)) + off, baud)
        } else {
            let baud = 1 + c.below(8);
            (baud * ((1usize << (30 + c.below(8))) + c.below(1000)) + off, baud)
        }
    } else {
        (fs, baud)
    };
    let h = fs / 2;
    let top = match c.below(6) {
        0 => h as f64,
        1 => h as f64 + 1.0,
        2 => h as f64 + 0.5,
        3 => (h as f64 - 1.0).max(0.0),
        4 => h as f64 + 1.0 + c.unit() * 100.0,
        _ => c.unit() * fs as f64,
    };
    let top = if c.chance(0.1) { top.max(1.0) * 1e6 } else { top };
    let l = 1 + c.below(8);
    let key = c.bits(l);
    let nf = 1 + c.below(6);
    let low = top * c.unit() * 0.9;
    let whole = fs % baud == 0;
    let low_enough = top.floor() <= h as f64;
    let ok = whole && low_enough;
    let chip = h >= l * baud && fs % (baud * l) == 0;
    let n = c.below(12);
    let m = c.bits(n);
    let d = format!("fs={fs} baud={baud} top={top} low={low} nf={nf} key length {l} message {}", bs(&m));
    let mi = || m.iter().cloned();
    c.case(format!("constructors: {d}"), true, || {
        rej("tx_bpsk_signal", !ok, || drop(tx_bpsk_signal(mi(), fs, baud, top)))?;
        rej("tx_cdma_bpsk_signal", !(ok && chip), || drop(tx_cdma_bpsk_signal(mi(), fs, baud, top, &key)))?;
        rej("tx_cdma_qpsk_signal", !(ok && chip), || drop(tx_cdma_qpsk_signal(mi(), fs, baud, top, &key)))?;
        rej("tx_coded_cdma_bpsk_signal", !(ok && chip), || drop(tx_coded_cdma_bpsk_signal(mi(), fs, baud, top, &key)))?;
        rej("tx_fh_bpsk_signal", !ok, || drop(tx_fh_bpsk_signal(mi(), low, top, nf, fs, baud)))?;
        rej("tx_fh_bpsk_signal_old", !ok, || drop(tx_fh_bpsk_signal_old(mi(), low, top, nf, fs, baud, top)))?;
        rej("tx_bfsk_signal", !ok, || drop(tx_bfsk_signal(mi(), fs, baud, low, top)))?;
        rej("tx_mfsk_signal", !ok, || drop(tx_mfsk_signal(mi(), fs, baud, low, top, 2)))?;
        rej("tx_fsk_signal", !ok, || drop(tx_fsk_signal(mi(), fs, baud, &[top, low])))?;
        rej("tx_fh_css_signal", !ok, || drop(tx_fh_css_signal(mi(), fs, baud, low, top, nf)))?;
        rej("tx_ofdm_qpsk_signal", !whole, || drop(tx_ofdm_qpsk_signal(mi(), 8, 2, fs, baud, top)))?;
        rej("tx_fh_ofdm_dcsk_signal", !ok, || drop(tx_fh_ofdm_dcsk_signal(mi(), low, top, nf, fs, baud)))?;
        rej("tx_fh_ofdm_dcsk_signal_2", !ok, || drop(tx_fh_ofdm_dcsk_signal_2(mi(), fs, baud, top)))
    });
    if ok && fs / baud <= 4000 {
        c.case(format!("evaluation: {d}"), true, || {
            rej("tx_bpsk_signal", false, || drop(tx_bpsk_signal(mi(), fs, baud, top).count()))?;
            if chip {
                rej("tx_cdma_bpsk_signal", false, || drop(tx_cdma_bpsk_signal(mi(), fs, baud, top, &key).count()))?;
                rej("tx_cdma_qpsk_signal", false, || drop(tx_cdma_qpsk_signal(mi(), fs, baud, top, &key).count()))?;
                rej("tx_coded_cdma_bpsk_signal", false, || drop(tx_coded_cdma_bpsk_signal(mi(), fs, baud, top, &key).count()))?;
            }
            rej("tx_fh_bpsk_signal", false, || drop(tx_fh_bpsk_signal(mi(), low, top, nf, fs, baud).count()))?;
            rej("tx_fh_bpsk_signal_old", false, || drop(tx_fh_bpsk_signal_old(mi(), low, top, nf, fs, baud, top).count()))?;
            rej("tx_bfsk_signal", false, || drop(tx_bfsk_signal(mi(), fs, baud, low, top).count()))?;
            rej("tx_mfsk_signal", false, || drop(tx_mfsk_signal(mi(), fs, baud, low, top, 2).count()))?;
            rej("tx_fsk_signal", false, || drop(tx_fsk_signal(mi(), fs, baud, &[top, low]).count()))?;
            rej("tx_fh_css_signal", false, || drop(tx_fh_css_signal(mi(), fs, baud, low, top, nf).count()))?;
            rej("tx_ofdm_qpsk_signal", false, || drop(tx_ofdm_qpsk_signal(mi(), 8, 2, fs, baud, top).count()))?;
            rej("tx_fh_ofdm_dcsk_signal", false, || drop(tx_fh_ofdm_dcsk_signal(mi(), low, top, nf, fs, baud).count()))?;
            rej("tx_fh_ofdm_dcsk_signal_2", false, || drop(tx_fh_ofdm_dcsk_signal_2(mi(), fs, baud, top).count()))
        });
    }
}

fn pre<T: PartialEq + std::fmt::Debug>(name: &str, a: Vec<T>, b: Vec<T>) -> Result<(), String> {
    if a.len() > b.len() {
        return Err(format!("{name}: the prefix gives {} outputs, the whole {}", a.len(), b.len()));
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return Err(format!("{name}: output {i} changes from {:?} to {:?} when the message is extended", a[i], b[i]));
        }
    }
    Ok(())
}

pub fn c30(c: &mut Cx) {
    let l = 1 + c.below(5);
    let spc = 2 + c.below(4);
    let s = spc * l;
    let baud = 1 + c.below(30);
    let fs = s * baud;
    let h = (fs / 2) as f64;
    let fc = c.real("f", 0.0, h);
    let low = c.real("low", 0.0, h * 0.8);
    let nf = 1 + c.below(9);
    let key = c.bits(l);
    let (sc, p) = (8, 2);
    // cut at common frame boundaries: bits 2*(sc-p)=12, 7, 8*7=56 -> the cut is a multiple chosen per scheme
    let n = 1 + c.size("n", 0, 120, 1200);
    let m = c.bits(n);
    let cut = c.below(n + 1);
    let d = format!("fs={fs} baud={baud} fc={fc} low={low} nf={nf} key {} cut {cut} message {}", bs(&key), bs(&m));
    macro_rules! tx {
        ($name:expr, $unit:expr, $f:expr) => {{
            let k = cut / $unit * $unit;
            let f = $f;
            let a: Vec<_> = f(m[..k].to_vec().into_iter()).collect();
            let b: Vec<_> = f(m.clone().into_iter()).collect();
            pre($name, a, b)?;
        }};
    }
    c.case(format!("transmitters: {d}"), n > 1, || {
        type B = std::vec::IntoIter<bool>;
        tx!("tx_baseband_bpsk_signal", 1, |i: B| tx_baseband_bpsk_signal(i));
        tx!("tx_baseband_qpsk_signal", 2, |i: B| tx_baseband_qpsk_signal(i));
        tx!("tx_bpsk_signal", 1, |i: B| tx_bpsk_signal(i, fs, baud, fc));
        tx!("tx_qpsk_signal", 2, |i: B| tx_qpsk_signal(i, fs, baud, fc));
        tx!("tx_baseband_cdma", 1, |i: B| tx_baseband_cdma(i, &key));
        tx!("tx_cdma_bpsk_signal", 1, |i: B| tx_cdma_bpsk_signal(i, fs, baud, fc, &key));
        tx!("tx_cdma_qpsk_signal", 2, |i: B| tx_cdma_qpsk_signal(i, fs, baud, fc, &key));
        tx!("tx_coded_cdma_bpsk_signal", 56, |i: B| tx_coded_cdma_bpsk_signal(i, fs, baud, fc, &key));
        tx!("tx_fh_bpsk_signal", 1, |i: B| tx_fh_bpsk_signal(i, low, h, nf, fs, baud));
        tx!("tx_fh_bpsk_signal_old", 1, |i: B| tx_fh_bpsk_signal_old(i, low, h, nf, fs, baud, fc));
        tx!("tx_fh_css_signal", 1, |i: B| tx_fh_css_signal(i, fs, baud, low, h, nf));
        tx!("tx_bfsk_signal", 1, |i: B| tx_bfsk_signal(i, fs, baud, low, h));
        tx!("tx_mfsk_signal", 1, |i: B| tx_mfsk_signal(i, fs, baud, low, h, 2));
        tx!("tx_fsk_signal", 1, |i: B| tx_fsk_signal(i, fs, baud, &[h, low]));
        tx!("tx_fsk", 1, |i: B| tx_fsk(i, fs, baud, fc));
        tx!("tx_fm", 1, |i: B| tx_fm(i.map(nrz), fs, baud, fc));
        tx!("tx_baseband_csk", 1, |i: B| tx_baseband_csk(i));
        tx!("tx_baseband_dcsk", 1, |i: B| tx_baseband_dcsk(i));
        tx!("tx_ofdm_qpsk_signal", 12, |i: B| tx_ofdm_qpsk_signal(i, sc, p, fs, baud, fc));
        tx!("tx_baseband_ofdm_signal", 6, |i: B| tx_baseband_ofdm_signal(
            i.map(|b| C64::new(nrz(b), 0.5)), sc, p));
        tx!("tx_baseband_fh_ofdm_dcsk_signal", 7, |i: B| tx_baseband_fh_ofdm_dcsk_signal(i));
        tx!("tx_fh_ofdm_dcsk_signal", 7, |i: B| tx_fh_ofdm_dcsk_signal(i, low, h, nf, fs, baud));
        tx!("tx_fh_ofdm_dcsk_signal_2", 7, |i: B| tx_fh_ofdm_dcsk_signal_2(i, fs, baud, fc));
        Ok(())
    });
    let ks = [c.below(3), s * (1 + c.below(3)), c.below(4 * s)];
    let few = m[..n.min(40)].to_vec();
    if c.round % 6 == 1 {
        c.case(format!("consumers: at {ks:?} {d}"), n > 1, || {
            let i = || few.clone().into_iter();
            agree("tx_bpsk_signal", || tx_bpsk_signal(i(), fs, baud, fc), ks)?;
            agree("tx_qpsk_signal", || tx_qpsk_signal(i(), fs, baud, fc), ks)?;
            agree("tx_baseband_cdma", || tx_baseband_cdma(i(), &key), ks)?;
            agree("rx_baseband_cdma", || rx_baseband_cdma(i(), &key), ks)?;
            agree("tx_cdma_bpsk_signal", || tx_cdma_bpsk_signal(i(), fs, baud, fc, &key), ks)?;
            agree("tx_cdma_qpsk_signal", || tx_cdma_qpsk_signal(i(), fs, baud, fc, &key), ks)?;
            agree("tx_coded_cdma_bpsk_signal", || tx_coded_cdma_bpsk_signal(i(), fs, baud, fc, &key), ks)?;
            agree("tx_fh_bpsk_signal", || tx_fh_bpsk_signal(i(), low, h, nf, fs, baud), ks)?;
            agree("tx_fh_css_signal", || tx_fh_css_signal(i(), fs, baud, low, h, nf), ks)?;
            agree("tx_bfsk_signal", || tx_bfsk_signal(i(), fs, baud, low, h), ks)?;
            agree("tx_fm", || tx_fm(i().map(nrz), fs, baud, fc), ks)?;
            agree("tx_baseband_csk", || tx_baseband_csk(i()), ks)?;
            agree("tx_baseband_dcsk", || tx_baseband_dcsk(i()), ks)?;
            agree("tx_ofdm_qpsk_signal", || tx_ofdm_qpsk_signal(i(), sc, p, fs, baud, fc), ks)?;
            agree("tx_fh_ofdm_dcsk_signal", || tx_fh_ofdm_dcsk_signal(i(), low, h, nf, fs, baud), ks)?;
            let w: Vec<f64> = tx_bpsk_signal(i(), fs, baud, fc).collect();
            let y = || w.clone().into_iter();
            agree("rx_bpsk_signal", || rx_bpsk_signal(y(), fs, baud, fc), ks)?;
            agree("rx_qpsk_signal", || rx_qpsk_signal(y(), fs, baud, fc), ks)?;
            agree("rx_fsk", || rx_fsk(y(), fs, baud, fc), ks)?;
            agree("rx_fh_bpsk_signal", || rx_fh_bpsk_signal(y(), low, h, nf, fs, baud), ks)?;
            agree("rx_baseband_dcsk", || rx_baseband_dcsk(y()), ks)
        });
    }
    let x = c.reals(n.min(600));
    let z = c.cplx(n.min(600));
    let cut = cut.min(x.len());
    macro_rules! rx {
        ($name:expr, $unit:expr, $f:expr, $v:expr) => {{
            let v = $v;
            let whole = v.len() / $unit * $unit;
            let k = cut.min(whole) / $unit * $unit;
            let f = $f;
            let a: Vec<_> = f(v[..k].to_vec().into_iter()).collect();
            let b: Vec<_> = f(v[..whole].to_vec().into_iter()).collect();
            pre($name, a, b)?;
        }};
    }
    c.case(format!("receivers: {d}"), n > 1, || {
        type R = std::vec::IntoIter<f64>;
        type Z = std::vec::IntoIter<C64>;
        type B = std::vec::IntoIter<bool>;
        rx!("rx_baseband_bpsk_signal", 1, |i: Z| rx_baseband_bpsk_signal(i), &z);
        rx!("rx_baseband_qpsk_signal", 1, |i: Z| rx_baseband_qpsk_signal(i), &z);
        rx!("rx_bpsk_signal", s, |i: R| rx_bpsk_signal(i, fs, baud, fc), &x);
        rx!("rx_qpsk_signal", s, |i: R| rx_qpsk_signal(i, fs, baud, fc), &x);
        rx!("rx_baseband_cdma", l, |i: B| rx_baseband_cdma(i, &key), &m);
        rx!("rx_cdma_bpsk_signal", s, |i: R| rx_cdma_bpsk_signal(i, fs, baud, fc, &key), &x);
        rx!("rx_cdma_qpsk_signal", s, |i: R| rx_cdma_qpsk_signal(i, fs, baud, fc, &key), &x);
        rx!("rx_fh_bpsk_signal", s, |i: R| rx_fh_bpsk_signal(i, low, h, nf, fs, baud), &x);
        rx!("rx_fsk", s, |i: R| rx_fsk(i, fs, baud, fc), &x);
        rx!("rx_baseband_dcsk", 2, |i: R| rx_baseband_dcsk(i), &x);
        rx!("rx_baseband_ofdm_signal", 10, |i: Z| rx_baseband_ofdm_signal(i, sc, p), &z);
        rx!("rx_baseband_fh_ofdm_dcsk_signal", 10, |i: Z| rx_baseband_fh_ofdm_dcsk_signal(i), &z);
        Ok(())
    });
    let t = 1 + c.below(200);
    c.case(format!("endless: first {t} outputs, {d}"), true, || {
        let pulled = std::cell::Cell::new(0usize);
        // these few outputs need a few thousand elements of the source at the most
        let meter = |k: usize| {
            pulled.set(pulled.get() + 1);
            if pulled.get() > 100_000 {
                panic!("{k} elements were read before the first {t} outputs are out");
            }
        };
        let e = || m.clone().into_iter().cycle().enumerate().map(|(k, b)| { meter(k); b });
        macro_rules! en {
            ($name:expr, $i:expr) => {
                pulled.set(0);
                if $i.take(t).count() != t {
                    return Err(format!("{} ends on an endless message", $name));
                }
            };
        }
        en!("tx_bpsk_signal", tx_bpsk_signal(e(), fs, baud, fc));
        en!("tx_qpsk_signal", tx_qpsk_signal(e(), fs, baud, fc));
        en!("tx_baseband_cdma", tx_baseband_cdma(e(), &key));
        en!("tx_cdma_bpsk_signal", tx_cdma_bpsk_signal(e(), fs, baud, fc, &key));
        en!("tx_cdma_qpsk_signal", tx_cdma_qpsk_signal(e(), fs, baud, fc, &key));
        en!("tx_coded_cdma_bpsk_signal", tx_coded_cdma_bpsk_signal(e(), fs, baud, fc, &key));
        en!("tx_fh_bpsk_signal", tx_fh_bpsk_signal(e(), low, h, nf, fs, baud));
        en!("tx_fh_bpsk_signal_old", tx_fh_bpsk_signal_old(e(), low, h, nf, fs, baud, fc));
        en!("tx_fh_css_signal", tx_fh_css_signal(e(), fs, baud, low, h, nf));
        en!("tx_bfsk_signal", tx_bfsk_signal(e(), fs, baud, low, h));
        en!("tx_fsk", tx_fsk(e(), fs, baud, fc));
        en!("tx_fm", tx_fm(e().map(nrz), fs, baud, fc));
        en!("tx_baseband_csk", tx_baseband_csk(e()));
        en!("tx_baseband_dcsk", tx_baseband_dcsk(e()));
        en!("tx_ofdm_qpsk_signal", tx_ofdm_qpsk_signal(e(), sc, p, fs, baud, fc));
        en!("tx_fh_ofdm_dcsk_signal", tx_fh_ofdm_dcsk_signal(e(), low, h, nf, fs, baud));
        en!("tx_fh_ofdm_dcsk_signal_2", tx_fh_ofdm_dcsk_signal_2(e(), fs, baud, fc));
        en!("tx_baseband_bpsk_signal", tx_baseband_bpsk_signal(e()));
        en!("tx_baseband_qpsk_signal", tx_baseband_qpsk_signal(e()));
        en!("tx_mfsk_signal", tx_mfsk_signal(e(), fs, baud, low, h, 2));
        en!("tx_fsk_signal", tx_fsk_signal(e(), fs, baud, &[h, low]));
        en!("tx_baseband_ofdm_signal", tx_baseband_ofdm_signal(e().map(|b| C64::new(nrz(b), 0.5)), sc, p));
        en!("tx_baseband_fh_ofdm_dcsk_signal", tx_baseband_fh_ofdm_dcsk_signal(e()));
        let y = || x.clone().into_iter().chain([1.0]).cycle().enumerate().map(|(k, v)| { meter(k); v });
        let w = || z.clone().into_iter().chain([C64::new(1.0, 0.0)]).cycle().enumerate().map(|(k, v)| { meter(k); v });
        let t = t.min(60);
        macro_rules! en {
            ($name:expr, $i:expr) => {
                if $i.take(t).count() != t {
                    return Err(format!("{} ends on an endless signal", $name));
                }
            };
        }
        en!("rx_baseband_bpsk_signal", rx_baseband_bpsk_signal(w()));
        en!("rx_baseband_qpsk_signal", rx_baseband_qpsk_signal(w()));
        en!("rx_bpsk_signal", rx_bpsk_signal(y(), fs, baud, fc));
        en!("rx_qpsk_signal", rx_qpsk_signal(y(), fs, baud, fc));
        en!("rx_baseband_cdma", rx_baseband_cdma(e(), &key));
        en!("rx_cdma_bpsk_signal", rx_cdma_bpsk_signal(y(), fs, baud, fc, &key));
        en!("rx_cdma_qpsk_signal", rx_cdma_qpsk_signal(y(), fs, baud, fc, &key));
        en!("rx_fh_bpsk_signal", rx_fh_bpsk_signal(y(), low, h, nf, fs, baud));
        en!("rx_fsk", rx_fsk(y(), fs, baud, fc));
        #[cfg(komunikilo_verif)]
        en!("rx_baseband_csk", komunikilo::verif::rx_baseband_csk(y()));
        en!("rx_baseband_dcsk", rx_baseband_dcsk(y()));
        en!("rx_baseband_ofdm_signal", rx_baseband_ofdm_signal(w(), sc, p));
        en!("rx_ofdm_qpsk_signal", rx_ofdm_qpsk_signal(y(), sc, p, fs, baud, fc));
        en!("rx_baseband_fh_ofdm_dcsk_signal", rx_baseband_fh_ofdm_dcsk_signal(w()));
        Ok(())
    });
}
