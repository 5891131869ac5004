#![feature(alloc_error_hook)]

mod alloc;
mod cfg;
mod hop;
mod prog;
mod sers;
mod store;
mod util;

use std::io::{BufRead, Write};
use util::*;

#[global_allocator]
static GLOBAL: alloc::Tracker = alloc::Tracker;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|info| {
		if std::env::var_os("HARNESS_PANICS").is_some() {
			alloc::disarmed(|| eprintln!("{}", info));
		}
	}));
	alloc::init();
	// (the first panic allocates things that stay)
	let _ = std::panic::catch_unwind(|| panic!("warm up"));
	let out = std::fs::File::create(&args[2]).expect("output file");
	let mut out = std::io::BufWriter::new(out);
	match args[1].as_str() {
		// store-random OUT SEED FROM COUNT STYLE NOPS
		"store-random" => {
			let seed: u64 = args[3].parse().unwrap();
			let from: usize = args[4].parse().unwrap();
			let count: usize = args[5].parse().unwrap();
			let style: usize = args[6].parse().unwrap();
			let nops: usize = args[7].parse().unwrap();
			for i in from..from + count {
				eprintln!("scenario {}", i);
				// (styles from 10: storages of the user's own)
				let cid = match i % (store::NCFG + 1) {
					_ if style >= 10 => store::NCFG + i % store::NHOP,
					store::NCFG => store::NCFG + store::NHOP,
					k => k,
				};
				let style = style % 10;
				let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
				let l = with_store_cfg!(cid, C => random::<C>(i, cid, s, style, nops));
				writeln!(out, "{}", l).unwrap();
				out.flush().unwrap();
			}
		}
		// store-replay OUT FILE SEED: one JSON object per line {cid, ops, script}
		"store-replay" => {
			let f = std::io::BufReader::new(std::fs::File::open(&args[3]).unwrap());
			let seed: u64 = args[4].parse().unwrap();
			for (i, l) in f.lines().enumerate() {
				let j = J::parse(&l.unwrap());
				eprintln!("scenario {}", i);
				let cid = j.get("cid").us();
				let ops: Vec<store::Op> = j.get("ops").arr().iter().map(store::Op::from_j).collect();
				let script: Vec<u16> = j.get("script").arr().iter().map(|x| x.us() as u16).collect();
				let l = with_store_cfg!(cid, C => replay::<C>(i, cid, &ops, &script, seed + i as u64));
				writeln!(out, "{}", l).unwrap();
				out.flush().unwrap();
			}
		}
		// prog-random OUT SEED FROM COUNT STYLE
		"prog-random" => {
			let seed: u64 = args[3].parse().unwrap();
			let from: usize = args[4].parse().unwrap();
			let count: usize = args[5].parse().unwrap();
			let style: usize = args[6].parse().unwrap();
			for i in from..from + count {
				eprintln!("scenario {}", i);
				let l = prog::random(i, seed.wrapping_mul(1_000_003).wrapping_add(i as u64), style);
				writeln!(out, "{}", l).unwrap();
				out.flush().unwrap();
			}
		}
		// prog-replay OUT FILE SEED: one JSON object per line {cfg, ops, script}
		"prog-replay" => {
			let f = std::io::BufReader::new(std::fs::File::open(&args[3]).unwrap());
			let seed: u64 = args[4].parse().unwrap();
			for (i, l) in f.lines().enumerate() {
				let j = J::parse(&l.unwrap());
				eprintln!("scenario {}", i);
				writeln!(out, "{}", prog::replay(i, &j, seed + i as u64)).unwrap();
				out.flush().unwrap();
			}
		}
		x => panic!("unknown command {}", x),
	}
	out.flush().unwrap();
}
