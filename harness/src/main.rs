//! Executable contracts: the postconditions of every property, evaluated on the real compiled crate.
//! usage: vh <property> [--seed S] [--deep] [--budget SECONDS] [--known]
mod clouds;
mod core;
mod geo;
mod icp;
mod lines;
mod misc;
mod polys;
mod trees;

use crate::core::*;
use std::sync::atomic::Ordering;
use std::time::Duration;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].clone();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = args.iter().any(|a| a == "--deep");
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    std::panic::set_hook(Box::new(|_| {}));
    if args.iter().any(|a| a == "--known") {
        for l in polys::known(&id).into_iter().chain(clouds::known(&id)) {
            println!("{l}");
        }
        return;
    }
    // a case that does not finish is a violation of its own (non-termination)
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CASES.load(Ordering::Relaxed);
            if c != last {
                last = c;
                since = std::time::Instant::now();
            } else if since.elapsed() > Duration::from_secs(25) {
                let d = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
                println!(
                    "{{\"ok\":false,\"evaluations\":{c},\"case\":{},\"what\":\"no result after 25 s (does not terminate)\"}}",
                    js(&d)
                );
                std::process::exit(1);
            }
        }
    });
    let mut ctx = Ctx::new(seed, deep, Duration::from_secs_f64(budget));
    let c = &mut ctx;
    // memory guard: a diverging computation must not take the sandbox down
    let r = call(|| match id.as_str() {
        "C01" => trees::c01(c),
        "C02" => trees::c02(c),
        "C03" => trees::c03(c),
        "C04" => trees::c04(c),
        "C05" => clouds::c05(c),
        "C06" => clouds::c06(c),
        "C07" => clouds::c07(c),
        "C08" => clouds::c08(c),
        "C09" => clouds::c09(c),
        "C10" => lines::c10(c),
        "C11" => polys::c11(c),
        "C12" => polys::c12(c),
        "C13" => polys::c13(c),
        "C14" => polys::c14(c),
        "C15" => polys::c15(c),
        "C16" => icp::c16(c),
        "C17" => icp::c17(c),
        "C18" => icp::c18(c),
        "C19" => icp::c19(c),
        "C20" => geo::c20(c),
        "C21" => geo::c21(c),
        "C22" => misc::c22(c),
        "C23" => icp::c23(c),
        "C25" => icp::c25(c),
        _ => fail("unknown property"),
    });
    let (ok, what) = match r {
        Ok(Ok(())) => (true, String::new()),
        Ok(Err(f)) => (false, f.what),
        Err(f) => (false, f.what),
    };
    let case = CURRENT.lock().map(|s| s.clone()).unwrap_or_else(|e| e.into_inner().clone());
    println!(
        "{{\"ok\":{ok},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"out_of_time\":{},\"case\":{},\"what\":{}}}",
        ctx.evals,
        ctx.seen.len(),
        js(&ctx.rules.join("; ")),
        ctx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        ctx.overrun.get(),
        if ok { "null".to_string() } else { js(&case) },
        js(&what)
    );
    std::process::exit(if ok { 0 } else { 1 });
}
