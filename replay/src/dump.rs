//! `kvreplay dump`: one request per line "<function> <args..> <bits or samples>", answers the collected outputs as hex
//! f64 bit patterns, for comparison with the Python module.
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fsk::*;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use std::io::BufRead;

fn hex(v: Vec<f64>) -> String {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")
}
fn hexc(v: Vec<num_complex::Complex<f64>>) -> String {
    hex(v.iter().flat_map(|z| [z.re, z.im]).collect())
}
fn hexb(v: Vec<bool>) -> String {
    v.iter().map(|&b| if b { "1" } else { "0" }).collect::<Vec<_>>().join(" ")
}

pub fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split('|').collect();
        let a: Vec<f64> = t[1].split_whitespace().map(|x| x.parse().unwrap()).collect();
        let u = |i: usize| a[i] as usize;
        let bits: Vec<bool> = t.get(2).unwrap_or(&"").chars().filter(|c| *c == '0' || *c == '1').map(|c| c == '1').collect();
        let sig: Vec<f64> = t
            .get(3)
            .unwrap_or(&"")
            .split_whitespace()
            .map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap()))
            .collect();
        let m = bits.into_iter();
        let s = sig.into_iter();
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match t[0] {
            "tx_baseband_bpsk" => hexc(tx_baseband_bpsk_signal(m).collect()),
            "tx_bpsk" => hex(tx_bpsk_signal(m, u(0), u(1), a[2]).collect()),
            "rx_bpsk" => hexb(rx_bpsk_signal(s, u(0), u(1), a[2]).collect()),
            "tx_qpsk" => hex(tx_qpsk_signal(m, u(0), u(1), a[2]).collect()),
            "rx_qpsk" => hexb(rx_qpsk_signal(s, u(0), u(1), a[2]).collect()),
            "tx_cdma_bpsk" => {
                let h = komunikilo::hadamard::HadamardMatrix::new(16);
                hex(tx_cdma_bpsk_signal(m, u(0), u(1), a[2], &h.key(0).clone()).collect())
            }
            "tx_ofdm" => hex(tx_ofdm_qpsk_signal(m, u(0), u(1), u(2), u(3), a[4]).collect()),
            "rx_ofdm" => hexb(rx_ofdm_qpsk_signal(s, u(0), u(1), u(2), u(3), a[4]).collect()),
            "tx_bfsk" => hex(tx_bfsk_signal(m, u(0), u(1), a[2], a[3]).collect()),
            "tx_fh_css" => hex(tx_fh_css_signal(m, u(0), u(1), a[2], a[3], u(4)).collect()),
            "tx_csk" => hex(komunikilo::csk::tx_baseband_csk(m).inflate(u(0) / u(1)).collect()),
            "tx_dcsk" => hex(komunikilo::dcsk::tx_baseband_dcsk(m).inflate(u(0) / u(1)).collect()),
            "tx_fh_ofdm_dcsk" => hex(tx_fh_ofdm_dcsk_signal_2(m, u(0), u(1), a[2]).collect()),
            "chirp" => hex(linear_chirp(a[0], u(1), a[2], a[3]).collect()),
            "ssca" => hexc(komunikilo::ssca::ssca_base(s.collect(), u(0), u(1)).into_iter().collect()),
            "ssca_mapped" => hexc(komunikilo::ssca::ssca_mapped(s.collect(), u(0), u(1)).into_iter().collect()),
            "avg_energy" => hex(vec![komunikilo::avg_energy(&s.collect::<Vec<_>>())]),
            x => format!("unknown {x}"),
        }));
        println!("{}", out.unwrap_or("panic".into()));
    }
}
