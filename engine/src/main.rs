mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn asg(a: &[(u32, u64)]) -> String {
    let v: Vec<String> = a.iter().map(|(k, x)| format!("\"{}\":{}", k, x)).collect();
    format!("{{{}}}", v.join(","))
}
fn nums(a: &[u64]) -> String {
    let v: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll: Vec<String> = vec![];
    let mut entry = String::new();
    let mut out = String::from("/dev/stdout");
    let mut params = std::collections::BTreeMap::new();
    let mut pins = std::collections::BTreeMap::new();
    let mut max_secs = 1e9f64;
    let mut stop = None;
    let mut samples = 20usize;
    let mut tokens = None;
    let mut dump = 0usize;
    let mut max_steps = 20_000_000u64;
    let mut i = 1;
    let kv = |s: &str| -> (u32, u64) {
        let (a, b) = s.split_once('=').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    };
    while i < args.len() {
        let a = args[i].clone();
        i += 1;
        let v = args.get(i).cloned().unwrap_or_default();
        i += 1;
        match a.as_str() {
            "--ll" => ll.push(v),
            "--entry" => entry = v,
            "--out" => out = v,
            "--param" => {
                let (k, x) = kv(&v);
                params.insert(k, x);
            }
            "--pin" => {
                let (k, x) = kv(&v);
                pins.insert(k, x);
            }
            "--max-secs" => max_secs = v.parse().unwrap(),
            "--stop" => stop = Some(v),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--dump" => dump = v.parse().unwrap(),
            "--tokens" => {
                let (r, w) = v.split_once(',').unwrap();
                tokens = Some((r.parse().unwrap(), w.parse().unwrap()))
            }
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2)
            }
        }
    }
    let mut mods = vec![];
    for (k, p) in ll.iter().enumerate() {
        let text = match std::fs::read_to_string(p) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{}: {}", p, e);
                std::process::exit(2)
            }
        };
        match ir::parse_module(&text, k, p) {
            Ok(m) => mods.push(m),
            Err(e) => {
                eprintln!("{}: {}", p, e);
                std::process::exit(2)
            }
        }
    }
    let mut g = match Engine::new(mods) {
        Ok(g) => g,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2)
        }
    };
    g.params = params;
    g.pins = pins;
    g.max_secs = max_secs;
    g.stopfile = stop;
    g.max_steps = max_steps;
    g.max_samples = samples;
    g.tokens = tokens;
    g.outfile = out;
    if dump > 0 {
        g.solver.dump = Some(vec![]);
        g.solver.dump_max = dump;
    }
    // deep expression recursion needs a large stack
    let r = g.run(&entry);
    if let Err(e) = r {
        g.engine_errors.push(e);
    }
    if g.prof {
        let mut v: Vec<_> = g.fork_prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:8} {}", n, k);
        }
    }
    write_out(&g);
    if g.is_child {
        g.put_token();
    } else {
        // the root's own slot helps the children finish
        g.put_token();
    }
    let mut bad = false;
    for &c in &g.children {
        let mut st = 0;
        unsafe { sys::waitpid(c, &mut st, 0) };
        if st != 0 {
            if st & 0xff != 0 || st >> 8 != 3 {
                eprintln!("child {} ended with status {:#x}", c, st);
                // it did not give its slot back
                g.put_token();
            }
            bad = true;
        }
    }
    unsafe { sys::_exit(if bad { 3 } else { 0 }) }
}

fn write_out(g: &Engine) {
    let mut s = String::from("{");
    let _ = write!(
        s,
        "\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"cache_hits\":{},\"solver_seconds\":{:.3},\"seconds\":{:.3}",
        g.paths,
        g.pruned,
        g.forks,
        g.instrs,
        g.solver.queries,
        g.solver.cache_hits,
        g.solver.time,
        g.start.elapsed().as_secs_f64()
    );
    let _ = write!(s, ",\"stopped\":{}", g.stopped);
    let _ = write!(s, ",\"engine_errors\":[");
    for (i, e) in g.engine_errors.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(e));
    }
    let _ = write!(s, "],\"covers\":{{");
    for (i, (k, (n, a))) in g.covers.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":{{\"n\":{},\"assign\":{}}}", if i > 0 { "," } else { "" }, k, n, asg(a));
    }
    let _ = write!(s, "}},\"checks\":{{");
    for (i, (k, (n, m))) in g.checks.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":[{},{}]", if i > 0 { "," } else { "" }, k, n, m);
    }
    let _ = write!(s, "}},\"violations\":[");
    for (i, v) in g.violations.iter().enumerate() {
        let st: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
        let _ = write!(
            s,
            "{}{{\"kind\":{},\"detail\":{},\"assign\":{},\"obs\":{},\"stack\":[{}]}}",
            if i > 0 { "," } else { "" },
            js(&v.kind),
            js(&v.detail),
            asg(&v.assign),
            nums(&v.obs),
            st.join(",")
        );
    }
    let _ = write!(s, "],\"samples\":[");
    for (i, v) in g.samples.iter().enumerate() {
        let _ = write!(s, "{}{{\"assign\":{},\"obs\":{}}}", if i > 0 { "," } else { "" }, asg(&v.assign), nums(&v.obs));
    }
    let _ = write!(s, "],\"functions\":[");
    let mut first = true;
    for (id, c) in g.cov.iter().enumerate() {
        if c.iter().any(|x| *x > 0) {
            let f = g.compiled[id].unwrap();
            let hit: Vec<String> = c.iter().map(|x| if *x > 0 { "1".into() } else { "0".to_string() }).collect();
            let name = if f.pretty.is_empty() { &f.name } else { &f.pretty };
            let _ = write!(
                s,
                "{}{{\"name\":{},\"calls\":{},\"blocks\":\"{}\"}}",
                if first { "" } else { "," },
                js(name),
                c[0],
                hit.join("")
            );
            first = false;
        }
    }
    let _ = write!(s, "],\"smt\":[");
    if let Some(d) = &g.solver.dump {
        for (i, (q, r)) in d.iter().enumerate() {
            let _ = write!(s, "{}{{\"q\":{},\"sat\":{}}}", if i > 0 { "," } else { "" }, js(q), r);
        }
    }
    s.push_str("]}\n");
    if g.outfile == "/dev/stdout" {
        print!("{}", s);
        use std::io::Write;
        let _ = std::io::stdout().flush();
    } else if std::fs::write(&g.outfile, s).is_err() {
        unsafe { sys::_exit(4) }
    }
}
