//! The workloads, monitors, and oracles behind the checks.

mod cff;
mod cmp;
mod corpus;
mod gen;
mod mon;
mod outline;
mod props_a;
mod props_b;
mod props_c;
mod props_g;
mod props_t;
mod refr;
mod rng;
mod spec;
mod t2;
mod tapes;

use std::time::Duration;

use mon::{Ctx, Options};

#[global_allocator]
static MONITOR: mon::Monitor = mon::Monitor;

type Body = fn(&mut Ctx);

const PROPERTIES: &[(&str, Body)] = &[
    ("A01", props_a::a01),
    ("A02", props_a::a02),
    ("A03", props_a::a03),
    ("A04", props_a::a04),
    ("A05", props_g::a05),
    ("B01", props_b::b01),
    ("B02", props_b::b02),
    ("B03", props_b::b03),
    ("B04", props_b::b04),
    ("B05", props_b::b05),
    ("B06", props_b::b06),
    ("B07", props_b::b07),
    ("C01", props_c::c01),
    ("C02", props_c::c02),
    ("C03", props_c::c03),
    ("C04", props_c::c04),
    ("C05", props_c::c05),
    ("C06", props_c::c06),
    ("C07", props_c::c07),
    ("C08", props_c::c08),
    ("C09", props_c::c09),
    ("C10", props_c::c10),
    ("C11", props_c::c11),
    ("C12", props_c::c12),
    ("C13", props_c::c13),
    ("M01", props_a::m01),
    ("T01", props_t::t01),
    ("T02", props_t::t02),
    ("T03", props_t::t03),
    ("T04", props_t::t04),
    ("T05", props_t::t05),
    ("T06", props_t::t06),
    ("T07", props_t::t07),
    ("T08", props_t::t08),
];

fn main() {
    let mut options = Options {
        property: String::new(),
        thorough: false,
        seed: 1,
        shard: 0,
        shards: 1,
        scale: 1.0,
        only: None,
        recorder: None,
        cap: Duration::from_secs(3600),
        corpus: None,
        digests: false,
        costs: false,
        small: false,
        pick: None,
    };
    let mut out = None;
    let mut distinct = None;
    let mut digests = None;
    let mut arguments = std::env::args().skip(1);
    while let Some(name) = arguments.next() {
        let mut value = || arguments.next().expect("a value");
        match name.as_str() {
            "--property" => options.property = value(),
            "--thorough" => options.thorough = true,
            "--seed" => options.seed = value().parse().expect("a seed"),
            "--shard" => options.shard = value().parse().expect("a shard"),
            "--shards" => options.shards = value().parse().expect("a number of shards"),
            "--scale" => options.scale = value().parse().expect("a scale"),
            "--cap" => options.cap = Duration::from_secs(value().parse().expect("seconds")),
            "--recorder" => options.recorder = Some(value()),
            "--corpus" => options.corpus = Some(value()),
            "--only" => {
                let value = value();
                let (kind, index) = value.rsplit_once('#').expect("kind#index");
                options.only = Some((kind.to_string(), index.parse().expect("an index")));
            }
            "--out" => out = Some(value()),
            "--costs" => {
                options.costs = true;
                digests = Some(value());
            }
            "--small" => options.small = true,
            "--pick" => {
                let text = std::fs::read_to_string(value()).expect("a list of cases");
                options.pick = Some(text.lines().map(str::to_string).collect());
            }
            "--digests" => {
                options.digests = true;
                digests = Some(value());
            }
            "--distinct" => distinct = Some(value()),
            _ => panic!("an unknown option {name}"),
        }
    }
    let body = PROPERTIES
        .iter()
        .find(|row| row.0 == options.property)
        .unwrap_or_else(|| panic!("an unknown property {}", options.property))
        .1;
    mon::install_panic_hook();
    // The stack that a thread gets by default.
    let worker = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut ctx = Ctx::new(options);
            body(&mut ctx);
            ctx
        })
        .expect("a thread");
    let ctx = match worker.join() {
        Ok(ctx) => ctx,
        Err(_) => std::process::exit(mon::EXIT_HARNESS),
    };
    let report = ctx.report();
    match out {
        Some(path) => std::fs::write(path, report).expect("cannot write the report"),
        None => println!("{report}"),
    }
    if let Some(path) = digests {
        std::fs::write(path, &ctx.digests).expect("cannot write the digests");
    }
    if let Some(path) = distinct {
        std::fs::write(path, ctx.distinct_bytes()).expect("cannot write the hashes");
    }
}
