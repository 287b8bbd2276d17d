//! Runs a .wat/.wasm module with the chiwawa library:
//!   run FILE CALL...      CALL = name(i32:1,i64:2)=i32:3[,..]  or  name(..)=trap  or  name(..)   (prints)
//! Every call uses a fresh instance, unless its name starts with '+', which keeps the previous one.
//! Exit 0 when every call matches.
use chiwawa::execution::{module::*, runtime::Runtime, value::*};
use chiwawa::{parser, structure::module::Module};
use std::rc::Rc;

fn load(path: &str) -> Rc<ModuleInst> {
    let mut m = Module::new("demo");
    parser::parse_bytecode(&mut m, path).expect("parse");
    ModuleInst::new(&m, Default::default(), Vec::new()).expect("instantiate")
}

fn val(s: &str) -> Val {
    let (t, v) = s.trim().split_once(':').unwrap();
    let int = |v: &str| -> i128 {
        let (neg, d) = match v.strip_prefix('-') { Some(d) => (true, d), None => (false, v) };
        let n = if let Some(h) = d.strip_prefix("0x") { i128::from_str_radix(h, 16).unwrap() } else { d.parse().unwrap() };
        if neg { -n } else { n }
    };
    match t {
        "i32" => Val::Num(Num::I32(int(v) as i32)),
        "i64" => Val::Num(Num::I64(int(v) as i64)),
        "f32" => Val::Num(Num::F32(if v.starts_with("0x") { f32::from_bits(int(v) as u32) } else { v.parse().unwrap() })),
        "f64" => Val::Num(Num::F64(if v.starts_with("0x") { f64::from_bits(int(v) as u64) } else { v.parse().unwrap() })),
        _ => panic!("type {}", t),
    }
}

fn show(v: &Val) -> String {
    match v {
        Val::Num(Num::I32(x)) => format!("i32:{}", x),
        Val::Num(Num::I64(x)) => format!("i64:{}", x),
        Val::Num(Num::F32(x)) => format!("f32:0x{:x}", x.to_bits()),
        Val::Num(Num::F64(x)) => format!("f64:0x{:x}", x.to_bits()),
        Val::Ref(r) => format!("ref:{}", if format!("{:?}", r).contains("Null") { "null" } else { "set" }),
        _ => "v128".into(),
    }
}

fn norm(s: &str) -> String {
    let s = s.trim();
    if s.starts_with("ref:") { s.to_string() } else { show(&val(s)) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut bad = 0;
    let mut cur: Option<Rc<ModuleInst>> = None;
    for c in &args[2..] {
        let (call, want) = match c.split_once('=') { Some((a, b)) => (a, Some(b)), None => (c.as_str(), None) };
        let (name, rest) = call.split_once('(').unwrap();
        let keep = name.starts_with('+');
        let name = name.trim_start_matches('+');
        let ps: Vec<Val> = rest.trim_end_matches(')').split(',').filter(|s| !s.trim().is_empty()).map(val).collect();
        let inst = match (&cur, keep) { (Some(i), true) => Rc::clone(i), _ => load(&args[1]) };
        cur = Some(Rc::clone(&inst));
        let r = inst.get_export_func(name).and_then(|f| Runtime::new(Rc::clone(&inst), &f, ps, false, false)).and_then(|mut r| r.run());
        let got = match r { Ok(v) => v.iter().map(show).collect::<Vec<_>>().join(","), Err(e) => { eprintln!("{}: {}", name, e); "trap".to_string() } };
        let want = want.map(|w| if w.trim() == "trap" { "trap".to_string() } else { w.split(',').filter(|s| !s.trim().is_empty()).map(norm).collect::<Vec<_>>().join(",") });
        match want {
            Some(w) if w != got => { println!("FAIL {} gave {}, expected {}", call, got, w); bad += 1; }
            Some(_) => println!("ok {}", c),
            None => println!("{} = {}", call, got),
        }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
