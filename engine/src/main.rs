mod check;
mod ctx;
mod props;
mod props2;
mod props3;
mod props4;
mod props5;
mod props6;
mod props7;
mod props8;
mod props10;
mod props9;
mod hot;
mod pure;
mod suite;
mod report;
mod exec;
mod join;
mod loops;
mod mem;
mod models;
mod num;
mod prog;
mod wit;
use ctx::*;
use exec::*;
use mem::*;
use num::*;
use prog::*;

fn parse_sh(s: &str) -> Sh {
    for x in Sh::ALL {
        if x.s() == s {
            return x;
        }
    }
    panic!("shape {}", s)
}

/// pgnv run DUMP ROOT SHAPE.. | NUMBER | lo..hi
fn run(a: &[String]) {
    let p = Prog::load(&a[0]);
    let f = root(&p, &a[1]).expect("root");
    let mut o = Opts { unroll: std::env::var("UNROLL").ok().and_then(|x| x.parse().ok()).unwrap_or(0), ..Opts::default() };
    if std::env::var("EXACT").is_ok() {
        o = Opts::exact();
    }
    if std::env::var("TRACE").is_ok() {
        o.trace = true;
    }
    let mut s = Sess::new(&p, o);
    let ps = s.params(f);
    let mut args = vec![];
    let mut spec = a[2..].iter();
    for (i, t) in ps.iter().enumerate() {
        let name = ["a", "b", "c", "d", "e"][i];
        let tn = p.tys[*t].n.clone();
        if tn.contains("Formatter") || tn.contains("RecHasher") {
            args.push(s.opaque_arg(*t));
            continue;
        }
        let x = spec.next().expect("spec");
        let (x, mut opt) = match x.split_once(':') {
            Some((x, n)) => {
                let mut o = NumOpt::default();
                for kv in n.split(',') {
                    let (k, v) = kv.split_once('=').unwrap_or(("nd", kv));
                    let r = match v.split_once("..") {
                        Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                        None => match v.parse::<i128>() { Ok(v) => (v, v), Err(_) => (0, 0) },
                    };
                    match k {
                        "w" => o.w = Some(r),
                        "ds" => o.ds = Some(r),
                        "d" => o.digits = Some(v.split('/').map(|x| x.parse().unwrap()).collect()),
                        _ => o.nd = Some(r.0),
                    }
                }
                (x.to_string(), o)
            }
            None => (x.clone(), NumOpt::default()),
        };
        opt.loose = false;
        if let Some(sc) = s.ex.sc(*t) {
            if matches!(sc, Sc::Int(..) | Sc::Bool | Sc::Char) {
                let v = if let Some((l, h)) = x.split_once("..") {
                    let (a, b) = sc.range();
                    s.int(name, l.parse().unwrap_or(a), h.parse().unwrap_or(b))
                } else {
                    Form::c(x.parse().unwrap())
                };
                args.push(Arg::scalar(p.size(*t), *t, Val::Int(v), sc.signed()));
                continue;
            }
        }
        if tn.contains("str") || tn.contains("[u8]") {
            let (l, h) = (0, 255);
            let n: i128 = x.parse().unwrap();
            let (a, _) = s.bytes_arg(*t, name, Form::c(n), l, h);
            args.push(a);
            continue;
        }
        let n = s.value(name, parse_sh(&x), &opt);
        let ar = s.num_arg(*t, &n).unwrap_or_else(|| panic!("param type {}", tn));
        args.push(ar);
    }
    let t0 = std::time::Instant::now();
    let outs = s.run(f, args);
    println!("{} outcomes, {} steps, {:?}, lossy/incomplete {:?}", outs.len(), s.ex.steps, t0.elapsed(), s.ex.incomplete);
    let rt = s.ret_ty(f);
    for (st, o) in &outs {
        match o {
            Out::Ret(e) => {
                println!("- return lossy={} approx={} heap={}", st.lossy, st.approx, st.heap.iter().filter(|o| o.alive).count());
                let tn = &p.tys[rt].n;
                if tn.ends_with("NumericBuf") {
                    match s.decode_buf(st, e) {
                        Some(v) => {
                            for (s2, r) in v {
                                println!("    {}", show_res(&s2, &r));
                            }
                        }
                        None => println!("    ?? {:?}", e),
                    }
                } else if p.tys[rt].k == TK::Enum {
                    for (s2, v, pay) in s.variants(st.clone(), rt, e) {
                        println!("    variant {}", p.tys[rt].vn.get(v).cloned().unwrap_or_default());
                        if tn.contains("NumericBuf") && v == 1 {
                            for (s3, r) in s.decode_buf(&s2, &pay).unwrap_or_default() {
                                println!("      {}", show_res(&s3, &r));
                            }
                        } else {
                            println!("      {:?}", pay);
                        }
                    }
                } else {
                    for x in e {
                        if let Ent::Cell(c) = x {
                            if let Val::Int(f) = &c.val {
                                println!("    {:?} in {:?}", c, st.dom.bounds(f));
                                continue;
                            }
                        }
                        println!("    {:?}", x);
                    }
                }
            }
            Out::Unwind(m) => println!("- panic: {} lossy {} approx {} witness {:?}", m, st.lossy, st.approx, wit::witness(st)),
            Out::Abort(m) => println!("- abort: {}", m),
        }
        for e in st.events.iter() {
            println!("    event {} {:?}", e.name, e.args);
        }
        if std::env::var("FACTS").is_ok() {
            println!("    facts {:?}", st.dom.facts);
            println!("    ne {:?}", st.dom.ne);
            println!("    sub {:?}", st.dom.sub);
            for (a, r) in st.dom.iv.iter() {
                println!("      {} {:?}", atom_name(*a), r);
            }
        }
    }
    let mut seen = std::collections::BTreeMap::new();
    let mut proved = 0;
    for o in &s.ex.obs {
        if o.stat == Stat::Proved {
            proved += 1;
        } else {
            *seen.entry((o.kind, o.func.clone(), o.line, o.stat == Stat::Failed, o.detail.clone())).or_insert(0) += 1;
        }
    }
    println!("obligations proved {}", proved);
    for ((k, f, l, failed, d), n) in seen.iter().take(40) {
        println!("  {} {} {}:{} x{} {}", if *failed { "FAILED" } else { "unknown" }, k, f, l, n, d);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || match a[0].as_str() {
            "run" => run(&a[1..]),
            "consts" => {
                for (v, f) in hot::harvest(&Prog::load(&a[1])) {
                    println!("{} {:?}", v, f);
                }
            }
            "check" => std::process::exit(report::check(&a[1..])),
            _ => panic!("command"),
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(2);
    }
}
