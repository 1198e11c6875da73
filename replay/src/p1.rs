use crate::cx::*;
use komunikilo::chaos::*;
use komunikilo::iter::Iter;
use komunikilo::*;
use num_complex::Complex;
use std::f64::consts::PI;

pub fn c01(c: &mut Cx) {
    let n = c.size("n", 0, 40, 3000);
    let k = c.intc("c", 1, 12, 4000);
    // some blocks beyond the small integer types
    let (n, k) = match c.round {
        20 => (1030, 256),
        40 => (2300, 1025),
        60 => (150_000, 65_537),
        80 => (180_000, 65_536),
        _ => (n, k),
    };
    let v: Vec<u32> = (1..=n as u32).collect();
    c.case(format!("chunks: n={n} k={k}"), n > 0, || {
        let g: Vec<Vec<u32>> = v.iter().cloned().chunks(k).collect();
        let w: Vec<Vec<u32>> = v.chunks(k).map(|x| x.to_vec()).collect();
        eq("chunks", &g, &w)
    });
    c.case(format!("wchunks: n={n} k={k}"), n > 0, || {
        let g: Vec<Vec<u32>> = v.iter().cloned().wchunks(k).collect();
        let w: Vec<Vec<u32>> = v
            .chunks(k)
            .map(|x| {
                let mut x = x.to_vec();
                x.resize(k, 0);
                x
            })
            .collect();
        eq("wchunks", &g, &w)
    });
    let ks = [c.below(4), c.below(9), n / k.max(1)];
    if n <= 20_000 {
        c.case(format!("consumers: n={n} k={k} at {ks:?}"), n > 0, || {
            agree("chunks", || v.iter().cloned().chunks(k), ks)?;
            agree("wchunks", || v.iter().cloned().wchunks(k), ks)
        });
    }
    if c.large_round() {
        let n = c.large(4_200_000);
        let k = [1, 3, 64, 1000][c.below(4)];
        c.case(format!("long: n={n} k={k}"), true, || {
            for (i, g) in (0..n).chunks(k).enumerate() {
                if g.len() != k.min(n - i * k) || g.iter().enumerate().any(|(j, &x)| x != i * k + j) {
                    return Err(format!("chunks: group {i}"));
                }
            }
            for (i, g) in (0..n).wchunks(k).enumerate() {
                if g.len() != k || g.iter().enumerate().any(|(j, &x)| x != if i * k + j < n { i * k + j } else { 0 }) {
                    return Err(format!("wchunks: group {i}"));
                }
            }
            if (0..n).chunks(k).count() != n.div_ceil(k) || (0..n).wchunks(k).count() != n.div_ceil(k) {
                return Err("number of groups".into());
            }
            Ok(())
        });
    }
    let m = c.below(20);
    c.case(format!("endless chunks: k={k} first {m}"), true, || {
        let g: Vec<Vec<u64>> = (0u64..).chunks(k).take(m).collect();
        let w: Vec<Vec<u64>> = (0..m).map(|i| (0..k).map(|j| (i * k + j) as u64).collect()).collect();
        eq("chunks", &g, &w)?;
        let g: Vec<Vec<u64>> = (0u64..).wchunks(k).take(m).collect();
        eq("wchunks", &g, &w)
    });
    c.case(format!("bools: n={n} k={k}"), n > 0, || {
        let b: Vec<bool> = (0..n).map(|i| i % 3 != 1).collect();
        let g: Vec<Vec<bool>> = b.iter().cloned().chunks(k).collect();
        let w: Vec<Vec<bool>> = b.chunks(k).map(|x| x.to_vec()).collect();
        eq("chunks", &g, &w)
    });
}

pub fn c02(c: &mut Cx) {
    let n = c.size("n", 0, 40, 5000);
    let k = c.intc("c", 1, 12, 4000);
    let v = c.reals(n);
    let k = if n * k > 400_000 { 1 + k % 50 } else { k };
    let (n, k) = match c.round {
        20 => (3, 256),
        40 => (5, 1025),
        60 => (3, 65_537),
        _ => (n, k),
    };
    let v = if v.len() < n { c.reals(n) } else { v[..n].to_vec() };
    if c.round == 80 {
        c.case("take_every: n=200000 c=65537".to_string(), true, || {
            let g: Vec<usize> = (0..200_000).take_every(65_537).collect();
            eq("take_every", &g, &[0, 65_537, 131_074, 196_611])
        });
    }
    c.case(format!("inflate: n={n} c={k} {:?}", &v[..n.min(6)]), n > 0, || {
        let g: Vec<f64> = v.iter().cloned().inflate(k).collect();
        let w: Vec<f64> = (0..n * k).map(|i| v[i / k]).collect();
        eq("inflate", &g, &w)
    });
    c.case(format!("take_every: n={n} c={k}"), n > 0, || {
        let g: Vec<usize> = (0..n).take_every(k).collect();
        let w: Vec<usize> = (0..n).step_by(k).collect();
        eq("take_every", &g, &w)
    });
    let f = c.real("f", -3.0, 5.0);
    c.case(format!("scale: n={n} f={f} {:?}", &v[..n.min(6)]), n > 0, || {
        let g: Vec<f64> = v.iter().cloned().scale(f).collect();
        let w: Vec<f64> = v.iter().map(|x| x * f).collect();
        close("scale", &g, &w)?;
        let z: Vec<Complex<f64>> = v.iter().map(|&x| Complex::new(x, 1.0 - x)).collect();
        let g: Vec<Complex<f64>> = z.iter().cloned().scale(f).collect();
        let w: Vec<Complex<f64>> = z.iter().map(|x| Complex::new(x.re * f, x.im * f)).collect();
        closec("scale", &g, &w)
    });
    let ks = [c.below(4), k - c.below(2), c.below(2 * k + 3)];
    if n * k <= 20_000 {
        c.case(format!("consumers: n={n} c={k} at {ks:?}"), n > 0, || {
            agree("inflate", || (0..n).inflate(k), ks)?;
            agree("take_every", || (0..n).take_every(k), ks)?;
            agree("scale", || (0..n).map(|i| i as f64).scale(f), ks)?;
            // a clone, at any point, goes on like the original
            let mut it = (0..n).inflate(k);
            for p in 0..3 {
                let a: Vec<usize> = it.clone().collect();
                let b: Vec<usize> = (0..n * k).skip(p * (ks[2] + 1)).map(|i| i / k).collect();
                eq("clone of inflate", &a, &b)?;
                it.nth(ks[2]);
            }
            let a: Vec<usize> = (0..n).inflate(k).cycle().take(3 * n * k).collect();
            let b: Vec<usize> = (0..3 * n * k).map(|i| i / k % n).collect();
            eq("repeated inflate", &a, &b)
        });
    }
    if c.large_round() {
        let n = c.large(4_200_000);
        let k = [1, 2, 5, 77][c.below(4)];
        c.case(format!("long: n={n} c={k}"), true, || {
            let mut m = 0;
            for (i, x) in (0..n / k + 1).inflate(k).enumerate() {
                if x != i / k {
                    return Err(format!("inflate: element {i} is {x}"));
                }
                m += 1;
            }
            if m != (n / k + 1) * k {
                return Err(format!("inflate: {m} elements"));
            }
            let mut m = 0;
            for (i, x) in (0..n).take_every(k).enumerate() {
                if x != i * k {
                    return Err(format!("take_every: element {i} is {x}"));
                }
                m += 1;
            }
            if m != n.div_ceil(k) || (0..n).map(|i| i as f64).scale(2.0).enumerate().filter(|&(i, x)| x == 2.0 * i as f64).count() != n {
                return Err("number of elements".into());
            }
            let mut m = 0;
            for (i, x) in [3u32, 9].into_iter().inflate(n).enumerate() {
                if x != [3, 9][i / n] {
                    return Err(format!("inflate by {n}: element {i} is {x}"));
                }
                m += 1;
            }
            if m != 2 * n {
                return Err(format!("inflate by {n}: {m} elements"));
            }
            Ok(())
        });
    }
    let m = c.below(60);
    c.case(format!("endless: c={k} first {m}"), true, || {
        let g: Vec<usize> = (0usize..).inflate(k).take(m).collect();
        let w: Vec<usize> = (0..m).map(|i| i / k).collect();
        eq("inflate", &g, &w)?;
        let g: Vec<usize> = (0usize..).take_every(k).take(m).collect();
        let w: Vec<usize> = (0..m).map(|i| i * k).collect();
        eq("take_every", &g, &w)?;
        let g: Vec<f64> = (0usize..).map(|i| i as f64).scale(f).take(m).collect();
        let w: Vec<f64> = (0..m).map(|i| i as f64 * f).collect();
        close("scale", &g, &w)
    });
}

fn nint<const N: usize>(v: &[i64], d: usize) -> Result<(), String> {
    let a: Vec<[i64; N]> = v
        .iter()
        .enumerate()
        .map(|(i, &x)| std::array::from_fn(|l| x * (l as i64 + 1) + (i as i64 % (l as i64 + 2))))
        .collect();
    let g: Vec<[i64; N]> = a.iter().cloned().nintegrate().collect();
    let mut s = [0i64; N];
    let w: Vec<[i64; N]> = a
        .iter()
        .map(|x| {
            for l in 0..N {
                s[l] += x[l];
            }
            s
        })
        .collect();
    eq(&format!("nintegrate<{N}>"), &g, &w)?;
    let g: Vec<[i64; N]> = a.iter().cloned().nintegrate_and_dump(d).collect();
    let w: Vec<[i64; N]> = a
        .chunks_exact(d)
        .map(|b| std::array::from_fn(|l| b.iter().map(|x| x[l]).sum()))
        .collect();
    eq(&format!("nintegrate_and_dump<{N}>"), &g, &w)
}

pub fn c03(c: &mut Cx) {
    let n = c.size("n", 0, 50, 5000);
    let d = c.intc("c", 1, 12, 4000);
    let (n, d) = match c.round {
        20 => (1030, 256),
        40 => (2300, 1025),
        60 => (150_000, 65_537),
        80 => (150_000, 65_536),
        _ => (n, d),
    };
    let v: Vec<i64> = (0..n).map(|_| c.below(2001) as i64 - 1000).collect();
    c.case(format!("integrate: n={n} d={d} {:?}", &v[..n.min(8)]), n > 0, || {
        let g: Vec<i64> = v.iter().cloned().integrate().collect();
        let mut s = 0;
        let w: Vec<i64> = v
            .iter()
            .map(|x| {
                s += x;
                s
            })
            .collect();
        eq("integrate", &g, &w)?;
        let g: Vec<i64> = v.iter().cloned().integrate_and_dump(d).collect();
        let w: Vec<i64> = v.chunks_exact(d).map(|b| b.iter().sum()).collect();
        eq("integrate_and_dump", &g, &w)?;
        let g: Vec<f64> = v.iter().map(|&x| x as f64 / 8.0).integrate_and_dump(d).collect();
        let w: Vec<f64> = w.iter().map(|&x| x as f64 / 8.0).collect();
        close("integrate_and_dump", &g, &w)
    });
    let ks = [c.below(4), c.below(9), n / d];
    if n <= 5000 {
        c.case(format!("consumers: n={n} d={d} at {ks:?} {:?}", &v[..n.min(8)]), n > 0, || {
            let a = || v.iter().enumerate().map(|(i, &x)| [x, i as i64, -x]);
            agree("integrate", || v.iter().cloned().integrate(), ks)?;
            agree("integrate_and_dump", || v.iter().cloned().integrate_and_dump(d), ks)?;
            agree("nintegrate", || a().nintegrate(), ks)?;
            agree("nintegrate_and_dump", || a().nintegrate_and_dump(d), ks)
        });
    }
    if c.large_round() {
        let n = c.large(4_200_000);
        let d = [1, 2, 7, 500, n - 3][c.below(5)];
        c.case(format!("long: n={n} d={d}"), true, || {
            let x = |i: usize| (i * 7 % 23) as i64 - 11;
            let mut s = 0;
            for (i, g) in (0..n).map(x).integrate().enumerate() {
                s += x(i);
                if g != s {
                    return Err(format!("integrate: output {i} is {g}, expected {s}"));
                }
            }
            let w: Vec<i64> = (0..n / d).map(|m| (m * d..m * d + d).map(x).sum()).collect();
            let g: Vec<i64> = (0..n).map(x).integrate_and_dump(d).collect();
            eq("integrate_and_dump", &g, &w)?;
            let g: Vec<[i64; 2]> = (0..n).map(|i| [x(i), -x(i)]).nintegrate_and_dump(d).collect();
            let w: Vec<[i64; 2]> = w.iter().map(|&s| [s, -s]).collect();
            eq("nintegrate_and_dump", &g, &w)
        });
    }
    c.case(format!("lanes: n={n} d={d} {:?}", &v[..n.min(8)]), n > 0, || {
        nint::<1>(&v, d)?;
        nint::<2>(&v, d)?;
        nint::<3>(&v, d)?;
        nint::<4>(&v, d)?;
        nint::<7>(&v, d)?;
        if n <= 200 {
            nint::<70>(&v, d)?;
        }
        Ok(())
    });
}

fn conv(x: &[i64], h: &[i64], out: usize) -> Vec<i64> {
    (0..out)
        .map(|i| (0..h.len()).filter(|&j| j <= i && i - j < x.len()).map(|j| x[i - j] * h[j]).sum())
        .collect()
}

fn nconv<const N: usize>(x: &[i64], h: &[i64]) -> Result<(), String> {
    let a: Vec<[i64; N]> = x
        .iter()
        .enumerate()
        .map(|(i, &v)| std::array::from_fn(|l| v * (l as i64 + 1) + (i as i64 % (l as i64 + 2))))
        .collect();
    let g: Vec<[i64; N]> = a.iter().cloned().nonvolve(h.to_vec()).collect();
    for l in 0..N {
        let xl: Vec<i64> = a.iter().map(|v| v[l]).collect();
        let gl: Vec<i64> = g.iter().map(|v| v[l]).collect();
        eq(&format!("nonvolve<{N}> lane {l}"), &gl, &conv(&xl, h, x.len() + h.len() - 1))?;
    }
    Ok(())
}

pub fn c04(c: &mut Cx) {
    let n = c.size("n", 1, 30, 600);
    let m = c.intc("m", 1, 14, 600);
    let (n, m) = match c.round {
        20 => (270, 257),
        40 => (300, 1025),
        _ => (n, m),
    };
    let x: Vec<i64> = (0..n).map(|_| c.below(201) as i64 - 100).collect();
    let h: Vec<i64> = (0..m).map(|_| c.below(201) as i64 - 100).collect();
    c.case(format!("convolve: x={:?} h={:?}", &x[..n.min(10)], &h[..m.min(10)]), true, || {
        let g: Vec<i64> = x.iter().cloned().convolve(h.clone()).collect();
        eq("convolve", &g, &conv(&x, &h, n + m - 1))?;
        let g: Vec<f64> = x.iter().map(|&v| v as f64).convolve(h.iter().map(|&v| v as f64 / 4.0).collect()).collect();
        let w: Vec<f64> = conv(&x, &h, n + m - 1).iter().map(|&v| v as f64 / 4.0).collect();
        close("convolve", &g, &w)?;
        let g: Vec<i64> = x.iter().cloned().cycle().convolve(h.clone()).take(3 * m + 5).collect();
        let xx: Vec<i64> = x.iter().cloned().cycle().take(3 * m + 5).collect();
        eq("endless convolve", &g, &conv(&xx, &h, 3 * m + 5))
    });
    let ks = [c.below(4), c.below(m + 2), c.below(n + m)];
    if n * m <= 3000 {
        c.case(format!("consumers: at {ks:?} x={:?} h={:?}", &x[..n.min(10)], &h[..m.min(10)]), true, || {
            agree("convolve", || x.iter().cloned().convolve(h.clone()), ks)?;
            agree("nonvolve", || x.iter().map(|&v| [v, v + 1]).nonvolve(h.clone()), ks)
        });
    }
    if c.large_round() {
        let (n, m) = match c.below(4) {
            0 | 1 => (c.large(1_100_000), 1 + c.below(4)),
            2 => (3 + c.below(3), c.large(300_000)),
            _ => {
                // both long: the delay line fills up
                let k = if c.consts.is_empty() || c.bool() { 4097 } else { let i = c.below(c.consts.len()); (c.consts[i] as usize).clamp(300, 20_000) };
                (k + 2 + c.below(60), k + 1 + c.below(30))
            }
        };
        c.case(format!("long convolve: n={n} m={m}"), true, || {
            let x: Vec<i64> = (0..n).map(|i| (i * 7 % 23) as i64 - 11).collect();
            let h: Vec<i64> = (0..m).map(|i| (i * 5 % 17) as i64 - 8).collect();
            let want = |i: usize| -> i64 {
                if n < m && n < 300 {
                    (0..n).filter(|&k| k <= i && i - k < m).map(|k| x[k] * h[i - k]).sum()
                } else {
                    (0..m).filter(|&j| j <= i && i - j < n).map(|j| x[i - j] * h[j]).sum()
                }
            };
            let mut k = 0;
            for (i, g) in x.iter().cloned().convolve(h.clone()).enumerate() {
                if i >= n + m - 1 || g != want(i) {
                    return Err(format!("convolve: output {i} is {g}"));
                }
                k += 1;
            }
            if k != n + m - 1 {
                return Err(format!("convolve: {k} outputs"));
            }
            let mut k = 0;
            for (i, g) in x.iter().map(|&v| [v, 3 * v]).nonvolve(h.clone()).enumerate() {
                if i >= n + m - 1 || g != [want(i), 3 * want(i)] {
                    return Err(format!("nonvolve: output {i} is {g:?}"));
                }
                k += 1;
            }
            if k != n + m - 1 {
                return Err(format!("nonvolve: {k} outputs"));
            }
            Ok(())
        });
    }
    c.case(format!("nonvolve: x={:?} h={:?}", &x[..n.min(10)], &h[..m.min(10)]), true, || {
        nconv::<1>(&x, &h)?;
        nconv::<2>(&x, &h)?;
        nconv::<3>(&x, &h)?;
        nconv::<5>(&x, &h)?;
        if n * m <= 2000 {
            nconv::<70>(&x, &h)?;
        }
        Ok(())
    });
}

#[cfg(not(komunikilo_verif))]
pub fn c05(c: &mut Cx) {
    c.skip("hook unavailable");
}

#[cfg(komunikilo_verif)]
pub fn c05(c: &mut Cx) {
    use komunikilo::verif::*;
    if c.round == 0 {
        for b in 0..=255u8 {
            c.case(format!("byte {b}"), true, || {
                let bits: Vec<bool> = u8s_to_bools([b].into_iter()).collect();
                let w: Vec<bool> = (0..8).map(|i| b / (1 << i) % 2 == 1).collect();
                eq("unpack", &bits, &w)?;
                let g: Vec<u8> = bools_to_u8s(w.iter().cloned()).collect();
                eq("pack", &g, &[b])
            });
        }
    }
    let n = c.size("n", 0, 70, 4000);
    let n = if c.large_round() { c.large(4_200_000) } else { n };
    let v = c.bits(n);
    c.case(if n <= 5000 { format!("bits {}", bs(&v)) } else { format!("{n} bits") }, n > 0, || {
        let g: Vec<u8> = bools_to_u8s(v.iter().cloned()).collect();
        let w: Vec<u8> = (0..n.div_ceil(8))
            .map(|k| (0..8).map(|i| if *v.get(8 * k + i).unwrap_or(&false) { 1u8 << i } else { 0 }).sum())
            .collect();
        eq("pack", &g, &w)?;
        let b: Vec<bool> = u8s_to_bools(g.into_iter()).collect();
        let mut w = v.clone();
        w.resize(n.div_ceil(8) * 8, false);
        eq("unpack", &b, &w)
    });
}

// ------------------------------------------------------------------ an independent GF(256) Reed-Solomon oracle
pub struct Gf {
    pub exp: [u8; 512],
    pub log: [usize; 256],
}

pub fn gf() -> Gf {
    let mut g = Gf { exp: [0; 512], log: [0; 256] };
    let mut x = 1usize;
    for i in 0..255 {
        g.exp[i] = x as u8;
        g.log[x] = i;
        x <<= 1;
        if x & 0x100 != 0 {
            x ^= 0x11d;
        }
    }
    for i in 255..512 {
        g.exp[i] = g.exp[i - 255];
    }
    g
}

impl Gf {
    pub fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[self.log[a as usize] + self.log[b as usize]]
        }
    }
    pub fn inv(&self, a: u8) -> u8 {
        self.exp[255 - self.log[a as usize]]
    }
    pub fn synd(&self, f: &[u8]) -> [u8; 5] {
        std::array::from_fn(|k| f.iter().fold(0u8, |s, &x| self.mul(s, self.exp[k]) ^ x))
    }
    /// the codeword within distance 2, if any
    pub fn fix(&self, f: &[u8]) -> Option<Vec<u8>> {
        let s = self.synd(f);
        if s == [0; 5] {
            return Some(f.to_vec());
        }
        let n = f.len();
        for p in 0..n {
            let mut v = f.to_vec();
            v[p] ^= s[0];
            if s[0] != 0 && self.synd(&v) == [0; 5] {
                return Some(v);
            }
        }
        for p in 0..n {
            for q in 0..p {
                let (xp, xq) = (self.exp[n - 1 - p], self.exp[n - 1 - q]);
                // a + b = s0, a xp + b xq = s1
                let d = xp ^ xq;
                let a = self.mul(s[1] ^ self.mul(s[0], xq), self.inv(d));
                let b = s[0] ^ a;
                let mut v = f.to_vec();
                v[p] ^= a;
                v[q] ^= b;
                if self.synd(&v) == [0; 5] {
                    return Some(v);
                }
            }
        }
        None
    }
}

fn pack(v: &[bool]) -> Vec<u8> {
    v.chunks(8).map(|b| b.iter().enumerate().map(|(i, &x)| if x { 1u8 << i } else { 0 }).sum()).collect()
}
fn unpack(v: &[u8]) -> Vec<bool> {
    v.iter().flat_map(|&b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}

#[cfg(not(komunikilo_verif))]
pub fn c06(c: &mut Cx) {
    c.skip("hook unavailable");
}

#[cfg(komunikilo_verif)]
pub fn c06(c: &mut Cx) {
    use komunikilo::verif::*;
    let g = gf();
    let n = c.size("n", 0, 200, 3000);
    let v = c.bits(n);
    let bytes = pack(&v);
    let mode = c.below(5);
    let mut noise: Vec<Vec<(usize, u8)>> = vec![];
    for ch in bytes.chunks(7) {
        let m = ch.len() + 5;
        let k = match mode {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => c.below(3),
            _ => c.below(6),
        };
        noise.push((0..k).map(|_| (c.below(m), 1 + c.below(255) as u8)).collect());
    }
    c.case(format!("bits {} noise {:?}", bs(&v), noise), n > 0, || {
        let enc: Vec<bool> = bch_stream_encode(v.iter().cloned()).collect();
        if enc.len() % 8 != 0 {
            return Err(format!("coded length {} is not whole bytes", enc.len()));
        }
        let e = pack(&enc);
        let mut pos = 0;
        let mut want: Vec<u8> = vec![];
        let mut rxb: Vec<u8> = vec![];
        for (ch, ns) in bytes.chunks(7).zip(&noise) {
            let m = ch.len() + 5;
            if pos + m > e.len() {
                return Err(format!("coded stream too short: {} bytes", e.len()));
            }
            let f = &e[pos..pos + m];
            eq("data bytes of a frame", &f[..ch.len()], ch)?;
            if g.synd(f) != [0; 5] {
                return Err(format!("frame {:?} is not a codeword", f));
            }
            let mut r = f.to_vec();
            for &(p, x) in ns {
                r[p] ^= x;
            }
            let fixed = g.fix(&r).unwrap_or_else(|| r.clone());
            if r.iter().zip(f).filter(|(a, b)| a != b).count() <= 2 {
                eq("oracle", &fixed, f)?;
            }
            want.extend_from_slice(&fixed[..ch.len()]);
            rxb.extend_from_slice(&r);
            pos += m;
        }
        if pos != e.len() {
            return Err(format!("coded stream has {} bytes, expected {pos}", e.len()));
        }
        let dec: Vec<bool> = bch_stream_decode(unpack(&rxb).into_iter()).collect();
        eq("decoded", &dec, &unpack(&want))
    });
}

pub fn c12(c: &mut Cx) {
    use komunikilo::hadamard::HadamardMatrix;
    let top = if c.thorough || c.deep { 13 } else { 12 };
    if c.round <= top {
        let n = 1usize << c.round;
        c.case(format!("matrix of order {n}, all rows and pairs"), true, || {
            let h = HadamardMatrix::new(n);
            let text = format!("{h}");
            let rows: Vec<Vec<bool>> = text
                .lines()
                .map(|l| l.split_whitespace().map(|t| t == "T").collect())
                .collect();
            if rows.len() != n || rows.iter().any(|r: &Vec<bool>| r.len() != n) {
                return Err("not n x n".into());
            }
            if rows[0].iter().any(|&b| !b) {
                return Err("first row is not all ones".into());
            }
            if rows.iter().any(|r| !r[0]) {
                return Err("first column is not all ones".into());
            }
            let pk: Vec<Vec<u64>> = rows
                .iter()
                .map(|r| r.chunks(64).map(|w| w.iter().enumerate().map(|(i, &b)| (b as u64) << i).sum()).collect())
                .collect();
            for i in 0..n {
                for j in 0..i {
                    let d: u32 = pk[i].iter().zip(&pk[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                    if 2 * d as usize != n {
                        return Err(format!("rows {i} and {j} differ in {d} of {n} positions"));
                    }
                }
            }
            if n >= 2 {
                for k in (0..if n <= 512 { 3 * n + 5 } else { n + 5 }).chain([usize::MAX, usize::MAX - 1, 1 << 40]) {
                    let r = h.key(k);
                    if *r != rows[1 + k % (n - 1)] {
                        return Err(format!("key({k}) is not row {}", 1 + k % (n - 1)));
                    }
                }
            }
            Ok(())
        });
        return;
    }
    if c.round == top + 1 {
        for n in (0..300usize).chain([511, 513, 768, 1000, 1023]) {
            if n == 0 || !n.is_power_of_two() {
                c.case(format!("size {n} is rejected"), true, || {
                    if panics(|| HadamardMatrix::new(n)) {
                        Ok(())
                    } else {
                        Err("accepted".into())
                    }
                });
            }
        }
        return;
    }
    c.round = 1 << 40;
}

#[cfg(not(komunikilo_verif))]
pub fn c13(c: &mut Cx) {
    c.skip("hook unavailable");
}

#[cfg(komunikilo_verif)]
pub fn c13(c: &mut Cx) {
    use komunikilo::verif::hop_table;
    let n = c.intc("n", 1, 20, 600);
    let low = c.real("low", -100.0, 5000.0);
    let w = if c.chance(0.06) { 0.0 } else { c.real("width", 0.5, 4000.0) * if c.chance(0.1) { -1.0 } else { 1.0 } };
    let high = low + w;
    let seed = if c.chance(0.3) { 64 } else { c.next() };
    let m = 2 + c.below(6) + if c.chance(0.05) { 200 } else { 0 };
    let (n, m) = if c.large_round() {
        if c.bool() { (c.large(1_100_000), 2) } else { (1 + c.below(5), 1 + c.large(1_100_000) / 3) }
    } else {
        (n, m)
    };
    let k = c.below(2 * n + 2);
    c.case(format!("consumers: low={low} high={high} n={n} seed={seed} at {k}"), n > 1, || {
        let t = 3 * n + k + 5;
        agree("hop table", || hop_table(low, high, n, seed).take(t), [k, n, 1])?;
        let mut a = hop_table(low, high, n, seed);
        let mut b = hop_table(low, high, n, seed);
        let x = a.nth(k);
        for _ in 0..k {
            b.next();
        }
        if x != b.next() || a.next() != b.next() {
            return Err(format!("nth({k}) differs from the element taken step by step"));
        }
        Ok(())
    });
    c.case(format!("low={low} high={high} n={n} seed={seed}, {m} cycles"), n > 1, || {
        let hops: Vec<f64> = hop_table(low, high, n, seed).take(m * n).collect();
        if hops.len() != m * n {
            return Err(format!("only {} hops", hops.len()));
        }
        let mut table: Vec<f64> = (0..n).map(|k| low + k as f64 * (high - low) / n as f64).collect();
        table.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (i, cyc) in hops.chunks(n).enumerate() {
            let mut s = cyc.to_vec();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            close(&format!("sorted hops of cycle {i}"), &s, &table)?;
        }
        let again: Vec<f64> = hop_table(low, high, n, seed).take(m * n).collect();
        eq("second table", &again, &hops)
    });
}

pub fn c17(c: &mut Cx) {
    let mu = c.real("mu", 0.0, 4.0);
    let x = c.real("x", 0.0, 1.0);
    let any = c.real("any", -3.0, 3.0);
    let amu = c.real("amu", -3.0, 6.0);
    c.case(format!("mu={mu} x={x} any={any} amu={amu}"), true, || {
        near("logistic_map", logistic_map(amu, any), amu * any * (1.0 - any))?;
        near("tent_map", tent_map(amu, any), 2.0 * amu * (1.0 - any.abs()) - 1.0)?;
        near("bernoulli_map", bernoulli_map(amu, any), if any < 0.0 { amu * any + 1.0 } else { amu * any - 1.0 })?;
        near("chebyshev", chebyshev(any), 3.0 * any * any * any - 2.0 * any)?;
        let y = 2.0 * x - 1.0;
        let inb = |w: &str, v: f64| if v.abs() <= 1.0 + 1e-9 { Ok(()) } else { Err(format!("{w} leaves [-1,1]: {v}")) };
        inb("tent", tent_map(mu / 4.0, y))?;
        inb("bernoulli", bernoulli_map(mu / 2.0, y))?;
        let mut v = x;
        for (i, g) in LogisticMap::new(mu, x).take(60).enumerate() {
            near(&format!("logistic iterate {i}"), g, mu * v * (1.0 - v))?;
            if !(-1e-9..=1.0 + 1e-9).contains(&g) {
                return Err(format!("logistic iterate {i} leaves [0,1]: {g}"));
            }
            v = g;
        }
        // any multiplier, while the orbit stays moderate
        let mut v = x;
        for (i, g) in LogisticMap::new(amu, x).take(8).enumerate() {
            near(&format!("logistic iterate {i}, mu={amu}"), g, amu * v * (1.0 - v))?;
            if g.abs() > 1e3 {
                break;
            }
            v = g;
        }
        let mut v = y;
        for (i, g) in Chebyshev::new(y).take(60).enumerate() {
            near(&format!("chebyshev iterate {i}"), g, 3.0 * v * v * v - 2.0 * v)?;
            inb(&format!("chebyshev iterate {i}"), g)?;
            v = g;
        }
        let k = (x * 20.0) as usize;
        let mut a = LogisticMap::new(mu, x);
        let (p, q) = (a.nth(k), a.next());
        if p != LogisticMap::new(mu, x).skip(k).next() || p != LogisticMap::new(mu, x).take(k + 1).last() || q != LogisticMap::new(mu, x).take(k + 2).last() {
            return Err(format!("logistic: nth({k}) differs from the element taken step by step"));
        }
        agree("logistic generator", || LogisticMap::new(mu, x).take(40), [k, 3, 0])?;
        agree("third-map generator", || Chebyshev::new(y).take(40), [k, 3, 0])?;
        if LogisticMap::new(mu, x).take(700).count() != 700 || Chebyshev::new(y).take(700).count() != 700 {
            return Err("generator ends".into());
        }
        Ok(())
    });
    let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, 2.0, 1e300];
    let bad = if c.chance(0.2) {
        [-5e-324, -f64::EPSILON][c.below(2)]
    } else if c.chance(0.2) {
        odd[c.below(6)]
    } else if c.bool() {
        1.0 + 1e-9 + c.unit() * 3.0
    } else {
        -1e-9 - c.unit() * 3.0
    };
    c.case(format!("logistic start {bad} is rejected"), true, || {
        if panics(|| LogisticMap::new(mu, bad)) {
            Ok(())
        } else {
            Err("accepted".into())
        }
    });
    let bad = if c.chance(0.2) {
        odd[c.below(6)]
    } else if c.chance(0.1) {
        -1.0 - f64::EPSILON
    } else if c.bool() {
        1.0 + 1e-9 + c.unit() * 3.0
    } else {
        -1.0 - 1e-9 - c.unit() * 3.0
    };
    c.case(format!("chebyshev start {bad} is rejected"), true, || {
        if panics(|| Chebyshev::new(bad)) {
            Ok(())
        } else {
            Err("accepted".into())
        }
    });
    for e in [0.0, 1.0] {
        c.case(format!("starts {e} are accepted"), false, || {
            LogisticMap::new(3.0, e);
            Chebyshev::new(e);
            Chebyshev::new(-e);
            Ok(())
        });
    }
}

pub fn c22(c: &mut Cx) {
    let n = c.size("n", 1, 60, 5000);
    let m = c.intc("m", 1, 60, 5000);
    let (n, m) = if c.large_round() { (c.large(4_200_000), c.large(4_200_000)) } else { (n, m) };
    let a = c.bits(n);
    let mut b: Vec<bool> = a.iter().cloned().chain(std::iter::repeat(true)).take(m).collect();
    let fl = c.below(n.min(m) + 1);
    for _ in 0..fl {
        let k = c.below(m);
        b[k] = !b[k];
    }
    c.case(if n + m < 20_000 { format!("ber {} {}", bs(&a), bs(&b)) } else { format!("ber of {n} and {m} bits, {fl} flips") }, true, || {
        let l = n.min(m);
        let e = (0..l).filter(|&i| a[i] != b[i]).count();
        near("ber", ber(&a, &b), e as f64 / l as f64)
    });
    let x = c.reals(n);
    let fs = c.real("fs", 0.5, 48000.0);
    c.case(format!("energy n={n} fs={fs} {:?}", &x[..n.min(6)]), true, || {
        let s: f64 = x.iter().map(|v| v * v).sum();
        near("energy", energy(x.iter().cloned(), fs), s / fs)?;
        near("avg_energy", avg_energy(&x), s / n as f64)?;
        near("avg_energy_py", avg_energy_py(x.clone()), s / n as f64)?;
        let g = power(x.iter().cloned(), fs) * fs;
        near("power * fs", g, s / n as f64)
    });
    let d = c.real("d", -80.0, 80.0);
    let y = c.real("y", 1e-6, 1e4);
    c.case(format!("db {d} {y}"), true, || {
        near("db", db(y), 10.0 * y.ln() / 10f64.ln())?;
        let u = undb(d);
        let w = (d / 10.0 * 10f64.ln()).exp();
        if (u - w).abs() > 1e-9 * w {
            return Err(format!("undb({d}) = {u}, expected {w}"));
        }
        near("db(undb)", db(u), d)?;
        if (undb(db(y)) - y).abs() > 1e-9 * y {
            return Err(format!("undb(db({y})) = {}", undb(db(y))));
        }
        Ok(())
    });
}

/// generous bounds: a false alarm has probability far below 1e-9
fn normal_stats(d: &[f64], sigma: f64) -> Result<(), String> {
    let n = d.len() as f64;
    let z: Vec<f64> = d.iter().map(|x| x / sigma).collect();
    let mean = z.iter().sum::<f64>() / n;
    let var = z.iter().map(|x| x * x).sum::<f64>() / n;
    let m3 = z.iter().map(|x| x * x * x).sum::<f64>() / n;
    let m4 = z.iter().map(|x| x * x * x * x).sum::<f64>() / n;
    let lag = z.windows(2).map(|w| w[0] * w[1]).sum::<f64>() / n;
    let s = 1.0 / n.sqrt();
    for (w, v, e, k) in [
        ("mean/sigma", mean, 0.0, 8.0),
        ("variance/sigma^2", var, 1.0, 8.0 * 1.5),
        ("third moment", m3, 0.0, 8.0 * 4.0),
        ("fourth moment", m4, 3.0, 8.0 * 10.0),
        ("lag-1 correlation", lag, 0.0, 8.0),
    ] {
        if (v - e).abs() > k * s {
            return Err(format!("{w} of the noise is {v}, expected {e} over {n} draws"));
        }
    }
    let mut u = z.clone();
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    u.dedup();
    if u.len() < z.len() * 99 / 100 {
        return Err("draws are reused".into());
    }
    Ok(())
}

pub fn c23(c: &mut Cx) {
    let n = c.size("n", 0, 60, 4000);
    let x = c.reals(n);
    c.case(format!("sigma=0 n={n} {:?}", &x[..n.min(6)]), n > 0, || {
        let g: Vec<f64> = awgn(x.iter().cloned(), 0.0).collect();
        eq("awgn with sigma 0", &g, &x)?;
        let z: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v, v * 0.5 - 1.0)).collect();
        let g: Vec<Complex<f64>> = awgn_complex(z.iter().cloned(), 0.0).collect();
        eq("awgn_complex with sigma 0", &g, &z)
    });
    let sigma = c.real("sigma", 0.01, 20.0);
    let n = if c.round % 20 == 0 { 20000 } else { 200 + c.below(800) };
    let x = c.reals(n);
    c.case(format!("sigma={sigma} n={n} signal {:?}..", &x[..4]), true, || {
        let g: Vec<f64> = awgn(x.iter().cloned(), sigma).collect();
        if g.len() != n {
            return Err(format!("{} outputs for {n} inputs", g.len()));
        }
        let d: Vec<f64> = g.iter().zip(&x).map(|(a, b)| a - b).collect();
        normal_stats(&d, sigma)?;
        let cross = d.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>() / sigma;
        let p = x.iter().map(|b| b * b).sum::<f64>();
        if cross.abs() > 9.0 * (p + 1e-9).sqrt() {
            return Err(format!("noise correlates with the signal: {cross} against {}", p.sqrt()));
        }
        let g2: Vec<f64> = awgn(x.iter().cloned(), sigma).collect();
        let d2: Vec<f64> = g2.iter().zip(&x).map(|(a, b)| a - b).collect();
        let cc = d.iter().zip(&d2).map(|(a, b)| a * b).sum::<f64>() / (sigma * sigma);
        if cc.abs() > 9.0 * (n as f64).sqrt() {
            return Err("two channels draw the same noise".into());
        }
        let z: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v, v * 0.5 - 1.0)).collect();
        let g: Vec<Complex<f64>> = awgn_complex(z.iter().cloned(), sigma).collect();
        if g.len() != n {
            return Err(format!("{} complex outputs for {n} inputs", g.len()));
        }
        for i in 0..n {
            if g[i].im != z[i].im {
                return Err(format!("imaginary part {i} changed from {} to {}", z[i].im, g[i].im));
            }
        }
        let d: Vec<f64> = g.iter().zip(&z).map(|(a, b)| a.re - b.re).collect();
        normal_stats(&d, sigma)
    });
    c.case("endless signal".to_string(), true, || {
        if awgn(std::iter::repeat(1.0), 1.0).take(100).count() != 100 {
            return Err("ends".into());
        }
        if awgn_complex(std::iter::repeat(Complex::new(1.0, 0.0)), 1.0).take(100).count() != 100 {
            return Err("ends".into());
        }
        Ok(())
    });
}

pub fn c24(c: &mut Cx) {
    let n = c.size("n", 0, 70, 3000);
    let n = if c.large_round() { c.large(4_200_000) } else { n };
    let a = c.real("a", -50.0, 50.0);
    let b = c.real("b", -50.0, 50.0);
    c.case(format!("linspace {a} {b} {n}"), n > 0, || {
        let g: Vec<f64> = linspace(a, b, n).collect();
        let w: Vec<f64> = (0..n).map(|k| a + k as f64 * (b - a) / n as f64).collect();
        close("linspace", &g, &w)
    });
    c.case(format!("hamming {n}"), n > 0, || {
        let w: Vec<f64> = (0..n).map(|k| 0.54 - 0.46 * (2.0 * PI * k as f64 / n as f64).cos()).collect();
        close("hamming_window", &hamming_window(n), &w)?;
        let z: Vec<Complex<f64>> = w.iter().map(|&x| Complex::new(x, 0.0)).collect();
        closec("hamming_window_complex", &hamming_window_complex(n), &z)
    });
    #[cfg(komunikilo_verif)]
    c.case(format!("fftshift {n}"), n > 1, || {
        let v: Vec<usize> = (0..n).collect();
        let h = n.div_ceil(2);
        let w: Vec<usize> = (0..n).map(|i| (i + h) % n).collect();
        eq("fftshift", &komunikilo::verif::fftshift(&v), &w)?;
        let mut m = v.clone();
        komunikilo::verif::fftshift_mut(&mut m);
        eq("fftshift_mut", &m, &w)
    });
    let x = c.real("x", -5.0, 5.0);
    c.case(format!("erf {x}"), x != 0.0, || {
        let t = 1.0 / (1.0 + 0.5 * x.abs());
        let co = [
            -1.26551223, 1.00002368, 0.37409196, 0.09678418, -0.18628806, 0.27886807, -1.13520398, 1.48851587,
            -0.82215223, 0.17087277,
        ];
        let mut p = 0.0;
        for k in (0..10).rev() {
            p = p * t + co[k];
        }
        let tau = t * (p - x * x).exp();
        let w = if x >= 0.0 { 1.0 - tau } else { tau - 1.0 };
        let tight = |what: &str, g: f64, w: f64| {
            if (g - w).abs() <= 1e-10 {
                Ok(())
            } else {
                Err(format!("{what} = {g}, expected {w}"))
            }
        };
        tight("erf", erf(x), w)?;
        tight("erf + erfc", erf(x) + erfc(x), 1.0)?;
        if x != 0.0 {
            tight("erf(-x)", erf(-x), -w)?;
        }
        Ok(())
    });
}

#[cfg(not(komunikilo_verif))]
pub fn c29(c: &mut Cx) {
    c.skip("hook unavailable");
}

/// the in-crate energy test; the Python-visible detectors are exercised by pydrive.py
#[cfg(komunikilo_verif)]
pub fn c29(c: &mut Cx) {
    let n = c.size("n", 1, 60, 4000);
    // samples of one magnitude, a power of two: the root mean square is exact, and equality is not presence
    let m = [0.0, 0.25, 0.5, 1.0, 2.0, 8.0][c.below(6)];
    let p = 1usize << c.below(9);
    let e: Vec<f64> = (0..p).map(|i| if i * 7 % 3 == 0 { m } else { -m }).collect();
    c.case(format!("energy test n={p} samples ±{m} threshold {m}"), true, || {
        if komunikilo::verif::willie_energy_detector(&e, m) {
            return Err("reports presence, root mean square equal to the threshold".into());
        }
        Ok(())
    });
    let x = c.reals(n);
    let rms = (x.iter().map(|v| v * v).sum::<f64>() / n as f64).sqrt();
    let k = c.real("k", 0.0, 2.0);
    let n0 = rms * k + if c.bool() { 0.01 } else { 0.0 };
    let n0 = if c.chance(0.15) { -n0 } else { n0 };
    if (n0 - rms).abs() < 1e-9 * rms.max(1e-6) {
        return;
    }
    c.case(format!("energy test n={n} n0={n0} rms={rms} {:?}", &x[..n.min(6)]), true, || {
        let g = komunikilo::verif::willie_energy_detector(&x, n0);
        if g != (rms > n0) {
            return Err(format!("reports {g}, root mean square {rms}, threshold {n0}"));
        }
        Ok(())
    });
}
