//! Replays contract violations against the real crate, and explores every property within stated bounds.
mod cx;
mod dump;
mod p1;
mod p2;
mod p3;
mod p4;
use cx::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].as_str();
    if id == "dump" {
        dump::run();
        return;
    }
    let mut c = Cx {
        state: 1,
        thorough: false,
        deep: false,
        hints: vec![],
        consts: vec![],
        bigs: vec![],
        last_int: Default::default(),
        last_real: Default::default(),
        fconsts: vec![],
        round: 0,
        evals: 0,
        distinct: Default::default(),
        nontrivial: 0,
        samples: vec![],
        fails: vec![],
        skipped: Default::default(),
        budget: Duration::from_secs_f64(6.0),
        start: Instant::now(),
    };
    let mut rounds = 400usize;
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => c.state = v.parse::<u64>().unwrap_or(1).wrapping_mul(7919).wrapping_add(13),
            "--deep" => {
                c.deep = true;
                i += 1;
                continue;
            }
            "--thorough" => {
                c.thorough = true;
                i += 1;
                continue;
            }
            "--budget" => c.budget = Duration::from_secs_f64(v.parse().unwrap_or(6.0)),
            "--rounds" => rounds = v.parse().unwrap_or(400),
            "--consts" => c.consts = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "--bigs" => c.bigs = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "--fconsts" => c.fconsts = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "--hint" => {
                let mut m = BTreeMap::new();
                for kv in v.split(',') {
                    if let Some((k, x)) = kv.split_once('=') {
                        if let Ok(x) = x.parse::<f64>() {
                            m.insert(k.to_string(), x);
                        }
                    }
                }
                c.hints.push(m.clone());
                c.hints.push(m);
            }
            _ => {}
        }
        i += 2;
    }
    watchdog(Duration::from_secs(60));
    std::panic::set_hook(Box::new(|_| {}));
    let f: fn(&mut Cx) = match id {
        "C01" => p1::c01,
        "C02" => p1::c02,
        "C03" => p1::c03,
        "C04" => p1::c04,
        "C05" => p1::c05,
        "C06" => p1::c06,
        "C07" => p2::c07,
        "C08" => p2::c08,
        "C09" => p2::c09,
        "C10" => p2::c10,
        "C11" => p2::c11,
        "C12" => p1::c12,
        "C13" => p1::c13,
        "C14" => p2::c14,
        "C15" => p2::c15,
        "C16" => p2::c16,
        "C17" => p1::c17,
        "C18" => p2::c18,
        "C19" => p3::c19,
        "C20" => p3::c20,
        "C21" => p3::c21,
        "C22" => p1::c22,
        "C23" => p1::c23,
        "C24" => p1::c24,
        "C25" => p3::c25,
        "C26" => p3::c26,
        "C28" => p3::c28,
        "C29" => p1::c29,
        "C30" => p3::c30,
        "C34" => p4::c34,
        "C35" => p4::c35,
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    };
    while c.round < rounds && !c.over() {
        f(&mut c);
        c.round += 1;
    }
    let fails: Vec<String> = c
        .fails
        .iter()
        .map(|(d, e)| format!("{{\"input\": {}, \"failure\": {}}}", js(d), js(e)))
        .collect();
    let samples: Vec<String> = c.samples.iter().map(|s| js(s)).collect();
    let skipped: Vec<String> = c.skipped.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    println!(
        "{{\"evaluations\": {}, \"distinct\": {}, \"distinct_nontrivial\": {}, \"rounds\": {}, \"samples\": [{}], \"skipped\": {{{}}}, \"hooks\": {}, \"fails\": [{}]}}",
        c.evals,
        c.distinct.len(),
        c.nontrivial,
        c.round,
        samples.join(", "),
        skipped.join(", "),
        cfg!(komunikilo_verif),
        fails.join(", ")
    );
}
