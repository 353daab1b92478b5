//! vh PROP --seed N --budget SECONDS --out FILE [--only PHASE/IDX] [--tier quick|thorough] [--threads N]
//! Searches for an input on which the real code breaks the property. Exit 0: none found, 1: found.
mod bin_tree;
mod oracle;
mod pos;
mod sp_tree;
mod store;
mod sum_tree;
mod util;
use std::collections::HashSet;
use std::time::{Duration, Instant};
use util::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write(out: &str, prop: &str, x: &Ctx, v: Option<&Violation>) {
    let viol = match v {
        None => "null".to_string(),
        Some(v) => format!(
            "{{\"phase\":{},\"idx\":{},\"case\":{},\"detail\":{},\"seed\":{}}}",
            js(&v.phase), v.idx, js(&v.case), js(&v.detail), x.seed
        ),
    };
    let phases: Vec<String> = x.phases.iter().map(|(p, n, e)| format!("{{\"phase\":{},\"cases\":{n},\"complete\":{e}}}", js(p))).collect();
    let samples: Vec<String> = x.samples.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\"property\":{},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"phases\":[{}],\"samples\":[{}],\"wall_s\":{},\"violation\":{}}}\n",
        js(prop), x.cases, x.evals, x.distinct.len(), phases.join(","), samples.join(","), x.start.elapsed().as_secs_f64(), viol
    );
    std::fs::write(out, s).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let prop = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let out = get("--out").unwrap_or("/dev/null".into());
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = get("--only").map(|s| {
        let (p, i) = s.rsplit_once('/').unwrap();
        (p.to_string(), i.parse().unwrap())
    });
    std::panic::set_hook(Box::new(|_| {}));
    {
        let (out, prop) = (out.clone(), prop.clone());
        watchdog(Duration::from_secs(60), move |case| {
            let x = Ctx {
                seed, threads, start: Instant::now(), budget: Duration::ZERO, only: None, evals: 0, distinct: HashSet::new(), cases: 0,
                samples: vec![], phases: vec![], violation: None, quick: true,
            };
            let v = Violation { phase: "watchdog".into(), idx: 0, case, detail: "does not finish within 60 s".into() };
            write(&out, &prop, &x, Some(&v));
            println!("no answer within 60 s: {}", v.case);
            std::process::exit(1);
        });
    }
    let mut x = Ctx {
        seed,
        threads,
        start: Instant::now(),
        budget: Duration::from_secs_f64(budget),
        only,
        evals: 0,
        distinct: HashSet::new(),
        cases: 0,
        samples: vec![],
        phases: vec![],
        violation: None,
        quick: get("--tier").as_deref() != Some("thorough"),
    };
    match prop.as_str() {
        "C01" => bin_tree::c01(&mut x),
        "C02" => bin_tree::c02(&mut x),
        "C03" => bin_tree::c03(&mut x),
        "C04" => bin_tree::c04(&mut x),
        "C05" => bin_tree::c05(&mut x),
        "C06" => sum_tree::c06(&mut x),
        "C07" => sp_tree::c07(&mut x),
        "C08" => sp_tree::c08(&mut x),
        "C09" => sp_tree::c09(&mut x),
        "C10" => sp_tree::c10(&mut x),
        "C11" => pos::c11(&mut x),
        "C12" => pos::c12(&mut x),
        "C13" => sp_tree::c13(&mut x),
        "C14" => sum_tree::c14(&mut x),
        "C15" => pos::c15(&mut x),
        "C16" => {
            bin_tree::c16(&mut x);
            sum_tree::c16(&mut x);
            sp_tree::c16(&mut x);
        }
        "C17" => {
            bin_tree::c17(&mut x);
            sp_tree::c17(&mut x);
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    write(&out, &prop, &x, x.violation.as_ref());
    if let Some(v) = &x.violation {
        println!("{}/{}: {}\n  {}", v.phase, v.idx, v.case, v.detail);
        std::process::exit(1);
    }
    println!("{prop}: {} cases, {} evaluations, {} distinct, {:.1} s", x.cases, x.evals, x.distinct.len(), x.start.elapsed().as_secs_f64());
}
