//! A bounded model checker for pemv: enumerates inputs, settings, environments and write faults exhaustively
//! within stated bounds, runs the real binary on each, and judges it against a reference model.

mod broad;
mod cli;
mod common;
mod engine;
mod fault;
mod model;
mod observe;
mod server;
mod spec;
mod tlv;
mod values;
mod world;

use engine::{ctx_from_env, Engine};

type Check = fn(&mut Engine);
const CHECKS: [(&str, Check, &str); 26] = [
	("C01", tlv::c01, "model_checking"),
	("C02", tlv::c02, "model_checking"),
	("C03", tlv::c03, "model_checking"),
	("C04", tlv::c04, "model_checking"),
	("C05", tlv::c05, "model_checking"),
	("C06", tlv::c06, "model_checking"),
	("C07", tlv::c07, "model_checking"),
	("C08", values::c08, "model_checking"),
	("C09", values::c09, "model_checking"),
	("C10", values::c10, "model_checking"),
	("C11", values::c11, "model_checking"),
	("C12", values::c12, "model_checking"),
	("C13", values::c13, "model_checking"),
	("C14", values::c14, "model_checking"),
	("C15", values::c15, "model_checking"),
	("C16", values::c16, "model_checking"),
	("C17", cli::c17, "model_checking"),
	("C18", cli::c18, "model_checking"),
	("C19", cli::c19, "model_checking"),
	("C20", tlv::c20, "model_checking"),
	("C21", fault::c21, "fault_enumeration"),
	("C22", cli::c22, "model_checking"),
	("C23", tlv::c23, "model_checking"),
	("C24", values::c24, "model_checking"),
	("C25", cli::c25, "model_checking"),
	("C26", world::c26, "model_checking"),
];

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let Some(id) = args.first() else {
		eprintln!("usage: mc <property id> | mc fault <plan> -- <arguments>");
		std::process::exit(2);
	};
	let ctx = ctx_from_env(id);
	if id == "fault" {
		let code = fault::replay(&ctx.bin, &ctx.shim, &args[1..]);
		let _ = std::fs::remove_dir_all(&ctx.scratch);
		std::process::exit(code);
	}
	let Some((_, check, level)) = CHECKS.iter().find(|(n, _, _)| n == id) else {
		eprintln!("no check named {id}");
		std::process::exit(2);
	};
	let mut e = Engine::new(ctx);
	check(&mut e);
	std::process::exit(e.finish(level));
}
