//! Command line of a check: runs the contexts, writes evidence, prints verdicts.
use crate::check::*;
use crate::prog::*;
use crate::props::*;
use serde_json::json;
use std::collections::BTreeMap;

/// pgnv check ID --dump F [--dump-be F] --tier T --evidence F --known F --replay F [--secs N] [--threads N] [--only SUBSTR]
pub fn check(a: &[String]) -> i32 {
    let id = a[0].as_str();
    let mut o: BTreeMap<&str, &str> = BTreeMap::new();
    let mut i = 1;
    while i + 1 < a.len() {
        o.insert(&a[i], &a[i + 1]);
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let tier = if o.get("--tier") == Some(&"thorough") { Tier::Thorough } else { Tier::Quick };
    let secs = o.get("--secs").and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 700 });
    let threads = o.get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let whole = id == "C30";
    let p = Prog::load(o["--dump"]);
    crate::hot::init(&p);
    let Some((mut hs, mut js)) = (if whole { Some((vec![], vec![])) } else { crate::hot::split(|| jobs(id, tier)) }) else {
        eprintln!("no check for {}", id);
        return 2;
    };
    if let Some(f) = o.get("--only") {
        js.retain(|j| format!("{} [{}]", j.root, j.ctx).contains(f));
        hs.retain(|j| format!("{} [{}]", j.root, j.ctx).contains(f));
    }
    let debug = o.contains_key("--debug");
    let pbe = o.get("--dump-be").map(|f| Prog::load(f));
    if !debug { std::panic::set_hook(Box::new(|_| {})); }
    let th = if debug { 1 } else { threads };
    let r = if whole {
        crate::pure::c30(&p, pbe.as_ref())
    } else {
        let mut r = run_jobs(&p, pbe.as_ref(), &hs, th, secs / 2, debug);
        r.merge(run_jobs(&p, pbe.as_ref(), &js, th, secs, debug));
        r
    };
    let _ = std::panic::take_hook();

    // known findings: lines "finding: property=ID KEY"
    let known = o.get("--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let known: Vec<&str> = known
        .lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(k, _)| *k == id)
        .map(|(_, v)| v.trim())
        .collect();
    let mut viol = vec![];
    for (k, d) in &r.failed {
        if known.iter().any(|x| x == k) {
            println!("KNOWN-FINDING: property={} {}", id, k);
        } else {
            viol.push((k.clone(), d.clone()));
        }
    }
    let und = r.und_total();
    let total = r.proved + und + r.failed.len() as u64;
    let mut slow = r.slow.clone();
    slow.sort_by(|a, b| b.cmp(a));
    if o.contains_key("--stats") {
        eprintln!("slowest {:#?}", &slow[..slow.len().min(12)]);
        eprintln!("undecided {:#?}", r.undecided);
        eprintln!("incomplete {:#?}", r.incomplete);
    }
    println!(
        "{}: {} contexts ({} analysed to completion, {} out of time), {} outcomes ({} exact), obligations: {} proved, {} undecided, {} violated; {:.1} s",
        id,
        r.jobs,
        r.complete,
        r.skipped,
        r.outcomes,
        r.lossless,
        r.proved,
        und,
        r.failed.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(f) = o.get("--evidence") {
        let ev = json!({
            "property": id,
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
            "level": "other",
            "coverage": {
                "explanation": if whole { "A rule over the whole program compiled from /repo's working tree: every operand of every basic block of every function of the crate is followed to the statics it reaches, every call is matched against the sources of ambient input and one-time initialisers, and every type of the crate is searched for cells. Each function call, static and type is one obligation." } else { "Abstract interpretation of the MIR compiled from /repo's working tree. Each context is an abstract input (shape of the stored operands, ranges of the integer arguments) of one public entry point; the analysis computes the set of abstract outcomes (one partition per combination of branch decisions, or a loop fixpoint) and every rule is an obligation discharged on every outcome by the numeric domain. 'undecided' obligations are neither proved nor refuted and raise no alarm." },
                "contexts": r.jobs,
                "constants_new_to_the_crate": crate::hot::hot().iter().map(|x| x.to_string()).collect::<Vec<_>>(),
                "contexts_around_new_constants": hs.len(),
                "contexts_analysed_to_completion": r.complete,
                "contexts_out_of_time": r.skipped,
                "outcomes": r.outcomes,
                "outcomes_without_approximation": r.lossless,
                "obligations": total,
                "discharged": r.proved,
                "undecided": und,
                "rules": r.rules,
                "undecided_at": r.undecided,
                "incomplete": r.incomplete,
                "functions_analysed": r.fns,
                "basic_blocks_visited": r.blocks,
                "abstract_steps": r.steps,
                "samples": r.samples.iter().take(12).collect::<Vec<_>>(),
                "rules_applied_to": format!("{} functions of the crate", r.fns.len()),
            },
            "assumptions": [
                "formatter and allocator calls succeed",
                "models of std formatting, strtod and snprintf as listed in DESIGN.md",
                "operands are values the library can produce: digits 0..9999, stored scale covering the digits"
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        if std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            eprintln!("cannot write {}", f);
            return 2;
        }
    }
    if !viol.is_empty() {
        let path = o.get("--replay").map(|x| x.to_string()).unwrap_or("-".into());
        let body = json!({ "property": id, "violations": viol.iter().map(|(k, d)| json!({ "construct": k, "detail": d })).collect::<Vec<_>>() });
        if path != "-" {
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        }
        for (k, d) in viol.iter().take(12) {
            println!("  violated: {}: {}", k, d);
        }
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if r.proved == 0 {
        eprintln!("{}: nothing was decided", id);
        return 2;
    }
    0
}
