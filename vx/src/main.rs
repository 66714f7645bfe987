//! vx: mechanical extraction of functions from /repo's current source into one Verus file.
//! See /verif/DESIGN.md ("Extraction") for the complete list of rewrite rules.
use std::fmt::Write as _;

mod lits;
mod rewrite;
mod unit;

use rewrite::Rewriter;
use unit::*;

pub fn die(kind: &str, msg: &str) -> ! {
    println!("VX-{}: {}", kind, msg);
    std::process::exit(3);
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut unit, mut shim, mut out, mut probe) =
        ("/repo".to_string(), String::new(), String::new(), String::new(), false);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap(),
            "--unit" => unit = args.next().unwrap(),
            "--shim" => shim = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--probe" => probe = true,
            _ => die("USAGE", &a),
        }
    }
    let mut u = Unit::load(&unit, &shim);
    // names of locals at the time the contracts were written (committed next to the unit)
    if let Ok(t) = std::fs::read_to_string(unit.replace(".rs", ".base")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("LOCALS ") {
                let mut w = r.split_whitespace().map(|s| s.to_string());
                if let Some(n) = w.next() {
                    if let Some(f) = u.fns.get_mut(&n) {
                        f.locals = w.collect();
                    }
                }
            }
        }
    }
    let mut rw = Rewriter::new(&repo, u.clone(), probe);
    let mut body = String::new();
    for seg in &u.segments {
        match seg {
            Segment::Raw(t) => {
                body.push_str(&rw.lits.expand_spec(t));
                body.push('\n');
            },
            Segment::Extract { file, what, opts } => {
                let t = rw.extract(file, what, opts);
                body.push_str(&t);
                body.push('\n');
            },
        }
    }
    // contracts that never found their function: lost anchor
    for k in u.fns.keys() {
        if !rw.used_specs.contains(k) {
            die("ANCHOR", &format!("contract for `{}` matches no extracted function", k));
        }
    }
    let mut res = String::new();
    res.push_str("#![allow(unused_imports,dead_code,non_camel_case_types,unused_variables,unused_mut,unused_parens,unused_braces,unused_assignments,non_snake_case,non_upper_case_globals,unreachable_code,unused_must_use,unused_labels)]\n");
    for f in &u.crate_attrs {
        let _ = writeln!(res, "{}", f);
    }
    res.push_str("use vstd::prelude::*;\n");
    for f in &u.uses {
        let _ = writeln!(res, "{}", f);
    }
    res.push_str("verus! {\n");
    res.push_str(&body);
    if !u.broadcasts.is_empty() {
        let _ = writeln!(res, "broadcast use {{{}}};", u.broadcasts.join(", "));
    }
    res.push_str(&rw.lits.emit());
    if probe {
        for p in &rw.probes {
            let _ = writeln!(res, "pub uninterp spec fn {}() -> bool;", p);
        }
    }
    res.push_str("fn main() {}\n} // verus!\n");
    std::fs::write(&out, &res).unwrap_or_else(|e| die("IO", &e.to_string()));
    // metadata for the driver
    for (n, f) in &rw.extracted {
        println!("FN {} {}", n, f);
    }
    for n in &rw.uncontracted {
        println!("UNCONTRACTED {}", n);
    }
    for n in &rw.inlined {
        println!("INLINED {}", n);
    }
    for n in &rw.probes {
        println!("PROBE {}", n);
    }
    for n in &rw.notes {
        println!("NOTE {}", n);
    }
    for n in &rw.locals_out {
        println!("LOCALS {}", n);
    }
    for n in &rw.loops_out {
        println!("LOOPS {}", n);
    }
    println!("LITS {}", rw.lits.len());
}
