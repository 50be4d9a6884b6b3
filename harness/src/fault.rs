//! C21: what happens when standard output misbehaves.

use crate::common::*;
use crate::engine::{Bad, Engine, Runner};
use crate::model::{self, hex, tlv};
use crate::server::{Case, Fault, Outcome, Status};

const EINTR: i32 = -4;
const EIO: i32 = -5;
const EAGAIN: i32 = -11;
const ENOSPC: i32 = -28;
const EPIPE: i32 = -32;
const FOREVER: u32 = u32::MAX;

/// Representative runs: one for every way of producing output.
fn runs() -> Vec<Case> {
	let pal = palette();
	let all: Vec<u8> = pal.iter().flat_map(|p| p.1.clone()).collect();
	let mut v = vec![
		Case::new(&["-t", "8408008010"]),
		Case::new(&["-t", "FFFFFFFFFF"]),
		Case::new(&["-t", "0000000000"]),
		Case::new(&["--tsi", "FC00"]),
		Case::new(&["--ccd-cvr", "FFFFFFFFFF"]),
		Case::new(&["-r", "420302"]),
		Case::new(&["--cvm-list", "000000000000000942011F06"]),
		Case::new(&["--cvm-list", &format!("0000000000000009{}", "4201".repeat(20))]),
		Case::new(&[
			"--ccd-iad",
			"0FA501A42000000011223344556677880FA0A1A2A3A4A5A6A7A8A9AAABACADAE",
		]),
		Case::new(&["--identify", "9F26"]),
		Case::new(&["--service-code", "201"]),
		Case::new(&["-a", "T9F26:01:h12 T50:01:aV T9F10:02:hAABB"]),
		Case::new(&["-i", "T9F26:02:h**** T50:01:aV"]),
		Case::new(&["-a", &hex(&pal[25].1)]),
		Case::new(&["-b", &hex(&tlv(&[0xC1], &[0x55; 70]))]),
		Case::new(&["-b", &hex(&all)]),
		Case::new(&["-b", &hex(&tlv(&[0xE1], &tlv(&[0xE2], &tlv(&[0x95], &[0xFF; 5]))))]),
		Case::new(&["-h"]),
		Case::new(&["--help"]),
		Case::new(&["--version"]),
		Case::new(&["--colour=never"]),
		// refused input: nothing to lose on standard output
		Case::new(&["-t", "84"]),
		Case::new(&["-b", "5A"]),
	];
	let n = v.len();
	for i in 0..n {
		if v[i].args[0] != b"-h" && v[i].args[0] != b"--help" && v[i].args[0] != b"--version" {
			if v[i].args[0] == b"--colour=never" {
				continue;
			}
			let c = v[i].clone().arg("--colour=always");
			v.push(c);
		}
	}
	v
}

fn judge(full: &Outcome, o: &Outcome, benign: bool) -> Result<(), String> {
	let ok = o.status == Status::Exit(0);
	if benign {
		if !ok {
			return Err("a short or interrupted write makes pemv fail".into());
		}
		if o.out != full.out {
			return Err("a short or interrupted write changes the output".into());
		}
		return Ok(());
	}
	if ok && o.out != full.out {
		return Err("pemv succeeds although output was lost, repeated or reordered".into());
	}
	if !full.out.starts_with(&o.out) {
		return Err("what was delivered is not a prefix of the complete output".into());
	}
	if matches!(o.status, Status::Signal(14 | 24)) {
		return Err("pemv hangs when its output fails".into());
	}
	Ok(())
}

pub fn c21(e: &mut Engine) {
	let cases = runs();
	let full: Vec<Outcome> = {
		let slot = std::sync::Mutex::new(vec![None; cases.len()]);
		e.family(
			"without faults",
			"every representative run of every operation, with and without colour, help and version",
			cases.len() as u64,
			|r, i| {
				let c = &cases[i as usize];
				// through the server, to count the writes
				let mut probe = c.clone();
				probe.faults = vec![Fault {
					index: u32::MAX - 1,
					action: EIO,
					repeat: 1,
				}];
				let o = r.run(&probe);
				if o.status != Status::Exit(0) {
					return Err(Bad::new(c, &o, "", "a run without faults fails"));
				}
				slot.lock().unwrap()[i as usize] = Some(o);
				Ok(())
			},
		);
		slot.into_inner().unwrap().into_iter().flatten().collect()
	};
	if full.len() < cases.len() {
		return;
	}
	let writes: Vec<u64> = full.iter().map(|o| u64::from(o.writes)).collect();
	e.notes.push(format!(
		"write calls on standard output per run: {}",
		writes.iter().map(u64::to_string).collect::<Vec<_>>().join(", ")
	));
	let go = |r: &mut Runner, k: usize, faults: Vec<Fault>| -> Result<(), Bad> {
		let mut c = cases[k].clone();
		c.faults = faults;
		let benign = c.faults.iter().all(|f| f.action > 0 || f.action == EINTR);
		let o = r.run(&c);
		// the plan matters only if its first fault was reached
		if u64::from(o.writes) > u64::from(c.faults[0].index) {
			r.item(&c);
		}
		model::step();
		r.sample(|| format!("{} -> {:?}, {} bytes of {}", c.shell("pemv"), o.status, o.out.len(), full[k].out.len()));
		judge(&full[k], &o, benign).map_err(|m| Bad::new(&c, &o, full[k].out_str(), m))
	};
	let index = |mut i: u64, per: &dyn Fn(u64) -> u64| -> (usize, u64) {
		for (k, w) in writes.iter().enumerate() {
			let n = per(*w);
			if i < n {
				return (k, i);
			}
			i -= n;
		}
		unreachable!()
	};
	// one fault
	let actions = [1, 2, 3, 7, 16, 40, EINTR, EIO, EAGAIN, ENOSPC, EPIPE, 0];
	let repeats = [1, 2, 3, FOREVER];
	let per = |w: u64| w * actions.len() as u64 * repeats.len() as u64;
	e.family(
		"one fault at every write",
		"each write call of each run answered by: a short count of 1, 2, 3, 7, 16, 40 bytes, zero, EINTR, EIO, EAGAIN, ENOSPC, EPIPE; once, twice, three times or from there on",
		writes.iter().map(|w| per(*w)).sum(),
		|r, i| {
			let (k, i) = index(i, &per);
			let n = (actions.len() * repeats.len()) as u64;
			let (at, rest) = (i / n, (i % n) as usize);
			let (action, repeat) = (actions[rest / repeats.len()], repeats[rest % repeats.len()]);
			if action == EINTR && repeat == FOREVER {
				return Ok(()); // an interruption that never ends is no answer at all
			}
			go(
				r,
				k,
				vec![Fault {
					index: at as u32,
					action,
					repeat,
				}],
			)
		},
	);
	// two faults; the second is reached after what the first made of the run
	let first = [1, 5, EINTR];
	let second = [1, EINTR, EIO, EPIPE, 0];
	let limit = e.pick(24u64, 120);
	let per2 = move |w: u64| {
		let w = w.min(limit);
		w * (w + 2) * 15
	};
	e.family(
		"two faults",
		"a short or interrupted write followed by a short, interrupted or refused one, at every pair of write calls (of the first 24 (120) of a run)",
		writes.iter().map(|w| per2(*w)).sum(),
		|r, i| {
			let (k, i) = index(i, &per2);
			let w = writes[k].min(limit);
			let (a, b) = (i / 15 / (w + 2), i / 15 % (w + 2));
			let (x, y) = (first[(i % 15 / 5) as usize], second[(i % 5) as usize]);
			if b <= a {
				return Ok(());
			}
			go(
				r,
				k,
				vec![
					Fault {
						index: a as u32,
						action: x,
						repeat: 1,
					},
					Fault {
						index: b as u32,
						action: y,
						repeat: if y == EINTR || y == 1 { 2 } else { FOREVER },
					},
				],
			)
		},
	);
	// a refusal that is over again at the next write: nothing after it may appear
	let per3 = |w: u64| w * 4 * 3;
	e.family(
		"refusals that pass",
		"each write call refused once after a short count, and accepted again afterwards",
		writes.iter().map(|w| per3(*w)).sum(),
		|r, i| {
			let (k, i) = index(i, &per3);
			let (at, rest) = (i / 12, (i % 12) as usize);
			go(
				r,
				k,
				vec![
					Fault {
						index: at as u32,
						action: [1, 4, 9][rest % 3],
						repeat: 1,
					},
					Fault {
						index: at as u32 + 1,
						action: [EIO, EAGAIN, ENOSPC, 0][rest / 3],
						repeat: 1,
					},
				],
			)
		},
	);
}

/// `mc fault <index:action:repeat,...> -- args`: one run under a fault plan, for replays.
pub fn replay(bin: &str, shim: &str, args: &[String]) -> i32 {
	let Some(plan) = args.first() else {
		eprintln!("usage: mc fault <write:answer:times,...> -- <arguments of pemv>");
		return 2;
	};
	let mut c = Case::new(&args.iter().skip(2).collect::<Vec<_>>());
	for p in plan.split(',') {
		let n: Vec<i64> = p.split(':').filter_map(|x| x.parse().ok()).collect();
		if n.len() == 3 {
			c.faults.push(Fault {
				index: n[0] as u32,
				action: n[1] as i32,
				repeat: n[2] as u32,
			});
		}
	}
	let mut s = crate::server::Server::start(bin, shim, "/tmp");
	let o = s.run(&c);
	c.faults.clear();
	let full = s.run(&c);
	println!("without faults: {:?}, {} bytes", full.status, full.out.len());
	println!("under the plan: {:?}, {} bytes; standard output follows", o.status, o.out.len());
	println!("{}", o.out_str());
	println!("standard error: {}", o.err_str());
	0
}
