#![allow(unused_must_use)]
#[macro_use]
mod kit;
mod refs;
#[cfg(feature = "log")]
mod p_log;
#[cfg(feature = "util")]
mod p_util;
#[cfg(feature = "cache")]
mod p_cache;
#[cfg(feature = "mem")]
mod p_mem;
#[cfg(feature = "misc")]
mod p_misc;
#[cfg(feature = "panics")]
mod p_panic;
#[cfg(feature = "e2e")]
mod p_e2e;
#[cfg(feature = "e2e")]
mod p_calls;

#[global_allocator]
static A: kit::CheckAlloc = kit::CheckAlloc;

fn suites() -> Vec<kit::Suite> {
    #[allow(unused_mut)]
    let mut v: Vec<kit::Suite> = vec![];
    #[cfg(feature = "log")]
    v.extend(p_log::suites());
    #[cfg(feature = "util")]
    v.extend(p_util::suites());
    #[cfg(feature = "cache")]
    v.extend(p_cache::suites());
    #[cfg(feature = "mem")]
    v.extend(p_mem::suites());
    #[cfg(feature = "misc")]
    v.extend(p_misc::suites());
    #[cfg(feature = "panics")]
    v.extend(p_panic::suites());
    #[cfg(feature = "e2e")]
    v.extend(p_e2e::suites());
    #[cfg(feature = "e2e")]
    v.extend(p_calls::suites());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "list" {
        for s in suites() {
            println!("{} {} {:?}", s.prop, s.name, s.cases);
        }
        return;
    }
    #[cfg(feature = "mem")]
    if args.len() > 1 && args[1] == "arena-child" {
        return p_mem::arena_child(&args[2..]);
    }
    let mut a = kit::RunArgs {
        prop: String::new(),
        seed: 1,
        scale: 1,
        out: "result.json".into(),
        only_suite: None,
        only_case: None,
        pct: 100,
        shard: (0, 1),
    };
    let mut it = args.iter().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().cloned().unwrap_or_default();
        match k.as_str() {
            "--prop" => a.prop = v,
            "--seed" => a.seed = v.parse().expect("seed"),
            "--scale" => a.scale = v.parse().expect("scale"),
            "--out" => a.out = v,
            "--suite" => a.only_suite = Some(v),
            "--case" => a.only_case = Some(v.parse().expect("case")),
            "--pct" => a.pct = v.parse().expect("pct"),
            "--shard" => {
                let (x, y) = v.split_once('/').expect("shard i/n");
                a.shard = (x.parse().expect("shard"), y.parse().expect("shard"));
            }
            _ => panic!("unknown argument {}", k),
        }
    }
    refs::self_check();
    let code = kit::run(&suites(), &a);
    // a plain return keeps the leak check of Miri
    if code != 0 {
        std::process::exit(code);
    }
}
