mod ctx;
mod fast;
mod fault_props;
mod texts;
mod lib_props;
mod cli_props;
mod word_props;
use ctx::*;
use std::collections::HashSet;
use std::time::{Duration, Instant};

/// vharness PROPERTY --tier quick|thorough --seed N --shard I --nshards N --seconds S --bins DIR --tmp DIR
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string())
    };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let shard: u64 = get("--shard", "0").parse().unwrap();
    let tmp = std::path::PathBuf::from(get("--tmp", "/tmp/vh"));
    std::fs::create_dir_all(&tmp).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx {
        thorough: get("--tier", "quick") == "thorough",
        deep: a.iter().any(|x| x == "--deep"),
        seed,
        shard,
        nshards: get("--nshards", "1").parse().unwrap(),
        index: 0,
        start: Instant::now(),
        budget: Duration::from_secs_f64(get("--seconds", "5").parse().unwrap()),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        cur: std::fs::File::create(tmp.join("current.txt")).unwrap(),
        bins: get("--bins", "/verif/.build/repo/debug").into(),
        tmp,
        rng: Rng(seed.wrapping_mul(1000003).wrapping_add(shard.wrapping_mul(7919)).wrapping_add(17)),
    };
    match a[1].as_str() {
        "selftest" => {
            cli_props::p13_selftest(&mut c);
            return fast::selftest();
        }
        "P01" => lib_props::p01(&mut c),
        "P02" => lib_props::p02(&mut c),
        "P03" => lib_props::p03(&mut c),
        "P04" => lib_props::p04(&mut c),
        "P05" => lib_props::p05(&mut c),
        "P06" => lib_props::p06(&mut c),
        "P07" => lib_props::p07(&mut c),
        "P08" => lib_props::p08(&mut c),
        "P09" => lib_props::p09(&mut c),
        "P10" => cli_props::p10(&mut c),
        "P11" => cli_props::p11(&mut c),
        "P12" => cli_props::p12(&mut c),
        "P13" => cli_props::p13(&mut c),
        "P14" => cli_props::p14(&mut c),
        "P15" => cli_props::p15(&mut c),
        "P16" => cli_props::p16(&mut c),
        "P17" => cli_props::p17(&mut c),
        "P18" => cli_props::p18(&mut c),
        "P19" => lib_props::p19(&mut c),
        "P20" => lib_props::p20(&mut c),
        "P21" => word_props::p21(&mut c),
        "P22" => word_props::p22(&mut c),
        "P23" => word_props::p23(&mut c),
        "P24" => word_props::p24(&mut c),
        "P25" => cli_props::p25(&mut c),
        "P26" => cli_props::p26(&mut c),
        "P27" => word_props::p27(&mut c),
        "P29" => lib_props::p29(&mut c),
        "P30" => cli_props::p30(&mut c),
        "P31" => fault_props::p31(&mut c),
        "P28" => cli_props::p28(&mut c),
        x => panic!("unknown property {}", x),
    }
    c.summary();
}
