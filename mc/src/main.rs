//! `mc check ID [--tier quick|thorough]`, `mc replay FILE`, `mc list`.

mod props;

use mc_base::engine;
use engine::{explore, run_one, Ctx, Report, Violation};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

fn root() -> PathBuf {
    let p = std::env::var_os("MC_ROOT").map_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")), PathBuf::from);
    p.canonicalize().unwrap_or(p)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

fn write_replay(id: &str, tier: &str, v: &Violation) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", id, tier));
    let text = format!(
        "property {}\ntier {}\nspace {}\nindex {}\n\ncase: {}\n\n{}\n\nrerun: bash {}/check.sh replay {}\n",
        id,
        tier,
        v.space,
        v.index,
        v.case,
        v.message,
        root().display(),
        path.display()
    );
    let _ = std::fs::write(&path, text);
    path
}

fn write_evidence(id: &str, tier: &str, rep: &Report, wall: f64, exhaustive: bool) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    let mut o = String::new();
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let spaces: Vec<String> = rep
        .spaces
        .iter()
        .map(|(n, r, c)| format!("{{\"name\": {}, \"cases\": {}, \"enumerated\": {}}}", json(n), c, json(r)))
        .collect();
    write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [{}],\n  \"known_findings\": [{}]\n }},\n",
        json(id),
        json(tier),
        seed,
        rep.states,
        rep.transitions,
        rep.traces,
        rep.outcomes,
        exhaustive,
        spaces.join(",\n   "),
        list(&rep.samples),
        list(&rep.findings.iter().map(|(k, w)| format!("{}: {}", k, w)).collect::<Vec<_>>()),
    )
    .unwrap();
    write!(
        o,
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        list(&[
            "the property is decided for the enumerated cases only (bounds in coverage.spaces)".to_string(),
            "every case is an execution of the real code, built from /repo's working tree, compared with the reference model in mc/base/src/model.rs".to_string(),
            "trusted: rustc, std, unicode-segmentation, unicode-width, rust_decimal, fst and the dictionary crate".to_string(),
        ]),
        wall,
        rep.violation.is_some() as u32,
    )
    .unwrap();
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", id)), o).expect("evidence file");
}

/// (property, key) pairs of the known-findings file.
fn known(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            let p = w.next()?.strip_prefix("property=")?;
            let k = w.next()?.strip_prefix("key=")?;
            (p == id).then(|| k.to_string())
        })
        .collect()
}

fn check(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let Some(spaces) = props::spaces(id, tier == "thorough") else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let on_hang = |v: Violation| {
        report_violation(id, tier, &v);
        let rep = Report { violation: Some(v), ..Report::default() };
        write_evidence(id, tier, &rep, start.elapsed().as_secs_f64(), false);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    };
    let on_stop = |rep: Report| {
        let code = conclude(id, tier, rep, start);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    };
    // a check has 900 s; what is left then has not been explored, and is not said to hold
    let secs = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 36_000 } else { 690 });
    let rep = explore(&spaces, threads(), std::time::Duration::from_secs(secs), &on_hang, &on_stop);
    conclude(id, tier, rep, start)
}

fn conclude(id: &str, tier: &str, mut rep: Report, start: Instant) -> i32 {
    let listed = known(id);
    for (k, w) in &rep.findings {
        if listed.contains(k) {
            println!("KNOWN-FINDING: property={} {}", id, w);
        } else if rep.violation.is_none() {
            rep.violation = Some(Violation { space: "findings".into(), index: 0, case: k.clone(), message: w.clone() });
        }
    }
    write_evidence(id, tier, &rep, start.elapsed().as_secs_f64(), rep.violation.is_none() && rep.stopped.is_none());
    if let Some(s) = &rep.stopped {
        println!("{} {}: stopped in space {:?}, the code takes too long; that space and those after it are not covered", id, tier, s);
    }
    match &rep.violation {
        Some(v) => {
            report_violation(id, tier, v);
            1
        }
        None => {
            println!(
                "{} {}: held on {} cases, {} states, {} transitions, {} distinct outcomes, {:.1} s",
                id,
                tier,
                rep.traces,
                rep.states,
                rep.transitions,
                rep.outcomes,
                start.elapsed().as_secs_f64()
            );
            0
        }
    }
}

fn run_case(id: &str, tier: &str, space: &str, index: u64) -> i32 {
    let spaces = props::spaces(id, tier == "thorough").expect("property");
    let Some(s) = spaces.iter().find(|s| s.name == space) else { return 2 };
    // the same stack as in the exploration
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || run_one(s, index, &mut Ctx::default()).is_err() as i32)
            .unwrap()
            .join()
            .unwrap_or(1)
    })
}

/// Runs the check in a process of its own. If the code under test takes that process down (stack overflow, failed
/// allocation, abort), the check runs once more with a trace of the running cases; each of those is then run alone,
/// and one that again takes its process down is the violation.
fn supervise(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let start = Instant::now();
    let exe = std::env::current_exe().expect("own path");
    let st = Command::new(&exe).args(["check-inner", id, tier]).status().expect("own program");
    let crash = |s: &std::process::ExitStatus| s.signal().filter(|s| [4, 6, 7, 8, 11].contains(s));
    let Some(sig) = crash(&st) else { return st.code().unwrap_or(2) };
    println!("the process died of signal {}; looking for the case", sig);
    let dir = std::env::temp_dir().join(format!("mc-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace directory");
    let _ = Command::new(&exe).args(["check-inner", id, tier]).env("MC_TRACE_DIR", &dir).stdout(std::process::Stdio::null()).status();
    let mut running: Vec<(u64, String)> = std::fs::read_dir(&dir)
        .map(|d| {
            d.filter_map(|e| std::fs::read_to_string(e.ok()?.path()).ok())
                .filter_map(|t| {
                    let (i, s) = t.trim().split_once(' ')?;
                    Some((i.parse().ok()?, s.trim().to_string()))
                })
                .collect()
        })
        .unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    running.sort();
    for (index, space) in running {
        let st = Command::new(&exe).args(["run-case", id, tier, &space, &index.to_string()]).status().expect("own program");
        if let Some(sig) = crash(&st) {
            let spaces = props::spaces(id, tier == "thorough").expect("property");
            let case = spaces.iter().find(|s| s.name == space).map_or(String::new(), |s| (s.describe)(index));
            let v = Violation { space, index, case, message: format!("the code took its process down (signal {})", sig) };
            report_violation(id, tier, &v);
            let rep = Report { violation: Some(v), traces: 1, ..Report::default() };
            write_evidence(id, tier, &rep, start.elapsed().as_secs_f64(), false);
            return 1;
        }
    }
    println!("no single case takes the process down again: no verdict");
    2
}

fn report_violation(id: &str, tier: &str, v: &Violation) {
    let path = write_replay(id, tier, v);
    println!("space {} case #{}: {}", v.space, v.index, v.case);
    println!("{}", v.message);
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).expect("replay field");
    let (id, tier, space, index) = (get("property "), get("tier "), get("space "), get("index ").parse::<u64>().expect("index"));
    let spaces = props::spaces(&id, tier == "thorough").expect("property");
    let Some(s) = spaces.iter().find(|s| s.name == space) else {
        println!("no such space: {}", space);
        return 2;
    };
    println!("{}", (s.describe)(index));
    let mut ctx = Ctx::default();
    // the case alone, then (for failures that need a history) everything before it
    if let Err(e) = run_one(s, index, &mut ctx) {
        println!("{}", e);
        return 1;
    }
    for i in 0..=index {
        if let Err(e) = run_one(s, i, &mut ctx) {
            println!("after the cases before it: {}", e);
            return 1;
        }
    }
    println!("holds");
    0
}

fn main() {
    // panics of the code under test are results, not messages
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", |s| s.as_str());
    let code = match arg(1) {
        "check" => supervise(arg(2), if arg(3) == "--tier" { arg(4) } else { "quick" }),
        "check-inner" => check(arg(2), arg(3)),
        "run-case" => run_case(arg(2), arg(3), arg(4), arg(5).parse().unwrap()),
        "replay" => replay(arg(2)),
        "snapshot" => {
            let v = props::isolation::alone(arg(2).parse().unwrap(), arg(3).parse().unwrap());
            for s in v {
                println!("{}", engine::hstr(&s));
            }
            0
        }
        "order" => {
            props::isolation::print_order(arg(2).parse().unwrap(), arg(3) == "backwards");
            0
        }
        _ => {
            eprintln!("usage: mc check ID [--tier quick|thorough] | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
