//! The explorer: enumerates index spaces exhaustively over all cores, runs the real binary on every point and
//! judges it; confirms and records what fails; writes the evidence.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::model;
use crate::server::{self, Case, Outcome, Server};

pub struct Ctx {
	pub bin: String,
	pub shim: String,
	pub verif: PathBuf,
	pub scratch: PathBuf,
	pub thorough: bool,
	pub seed: u64,
	pub id: String,
	pub threads: usize,
	pub stop_at: Instant,
}

/// A judged disagreement.
#[derive(Clone, Debug)]
pub struct Bad {
	pub msg: String,
	pub case: Case,
	pub expected: String,
	pub got: String,
}
impl Bad {
	pub fn new(case: &Case, o: &Outcome, expected: impl Into<String>, msg: impl Into<String>) -> Bad {
		Bad {
			msg: msg.into(),
			case: case.clone(),
			expected: expected.into(),
			got: show(o),
		}
	}
}
pub fn show(o: &Outcome) -> String {
	format!(
		"{:?}\n--- stdout\n{}--- stderr\n{}",
		o.status,
		clip(&o.out_str(), 6000),
		clip(&o.err_str(), 3000)
	)
}
fn clip(s: &str, n: usize) -> String {
	if s.len() <= n {
		return s.to_owned();
	}
	let mut e = n;
	while !s.is_char_boundary(e) {
		e -= 1;
	}
	format!("{}... ({} bytes in all)\n", &s[..e], s.len())
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
	// fixed keys: the same value has the same hash in every run
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
	Server,
	Plain,
}

/// One worker's handle on the system under test.
pub struct Runner<'a> {
	pub ctx: &'a Ctx,
	server: Option<Server>,
	mode: Mode,
	worker: usize,
	executions: u64,
	items: u64,
	bulk: u64,
	inputs: HashSet<u64>,
	outcomes: HashSet<u64>,
	samples: Vec<String>,
	alarm: u32,
}
impl<'a> Runner<'a> {
	fn new(ctx: &'a Ctx, worker: usize, mode: Mode) -> Self {
		Runner {
			ctx,
			server: None,
			mode,
			worker,
			executions: 0,
			items: 0,
			bulk: 0,
			inputs: HashSet::new(),
			outcomes: HashSet::new(),
			samples: vec![],
			alarm: 10,
		}
	}
	pub fn run(&mut self, c: &Case) -> Outcome {
		self.executions += 1;
		let cwd = self.ctx.scratch.to_string_lossy().into_owned();
		let o = match self.mode {
			Mode::Plain if c.faults.is_empty() && c.world.is_empty() => server::exec(&self.ctx.bin, c, &cwd),
			_ => {
				let s = self
					.server
					.get_or_insert_with(|| Server::start(&self.ctx.bin, &self.ctx.shim, &cwd));
				s.alarm_secs = self.alarm;
				s.run(c)
			}
		};
		if self.outcomes.len() < 2_000_000 {
			self.outcomes.insert(hash_of(&(o.status, &o.out, &o.err)));
		}
		o
	}
	/// Runs on a pseudo-terminal; None when the sandbox has none.
	pub fn run_tty(&mut self, c: &Case) -> Option<Outcome> {
		self.run_tty_sized(c, None)
	}
	/// A plain run with other things inherited than usual.
	pub fn run_around(&mut self, c: &Case, around: &server::Around) -> Option<Outcome> {
		self.executions += 1;
		let cwd = self.ctx.scratch.to_string_lossy().into_owned();
		let o = server::exec_around(&self.ctx.bin, c, &cwd, around)?;
		self.outcomes.insert(hash_of(&(o.status, &o.out, &o.err)));
		Some(o)
	}
	pub fn run_sinks(&mut self, c: &Case, out: server::Sink, err: server::Sink) -> Option<Outcome> {
		self.executions += 1;
		let cwd = self.ctx.scratch.to_string_lossy().into_owned();
		let dir = self.ctx.scratch.join(format!("sinks{}", self.worker));
		let o = server::exec_sinks(&self.ctx.bin, c, &cwd, &dir, out, err)?;
		self.outcomes.insert(hash_of(&(o.status, &o.out, &o.err)));
		Some(o)
	}
	pub fn run_tty_sized(&mut self, c: &Case, size: Option<(u16, u16)>) -> Option<Outcome> {
		self.executions += 1;
		let cwd = self.ctx.scratch.to_string_lossy().into_owned();
		let o = server::exec_tty(&self.ctx.bin, c, &cwd, size)?;
		self.outcomes.insert(hash_of(&(o.status, &o.out, &o.err)));
		Some(o)
	}
	/// Counts one explored state (an input in its configuration) whose real outcome was judged.
	pub fn item<T: Hash + ?Sized>(&mut self, input: &T) {
		self.items += 1;
		if self.inputs.len() < 3_000_000 {
			self.inputs.insert(hash_of(input));
		} else {
			self.bulk += 1;
		}
	}
	/// Counts states that are distinct by construction.
	pub fn bulk_items(&mut self, n: u64) {
		self.items += n;
		self.bulk += n;
	}
	pub fn sample(&mut self, s: impl FnOnce() -> String) {
		if self.samples.len() < 2 {
			self.samples.push(s());
		}
	}
	/// A private scratch directory of this worker.
	pub fn dir(&self) -> PathBuf {
		let d = self.ctx.scratch.join(format!("w{}", self.worker));
		std::fs::create_dir_all(&d).expect("scratch directory");
		d
	}
	/// Runs many items in one execution; a disagreement is narrowed down to the fewest items that show it.
	pub fn pack<I>(
		&mut self,
		items: &[I],
		mk: &dyn Fn(&[I]) -> Case,
		judge: &dyn Fn(&[I], &Outcome) -> Result<(), String>,
	) -> Result<(), Bad> {
		if items.is_empty() {
			return Ok(());
		}
		let c = mk(items);
		let o = self.run(&c);
		let Err(msg) = judge(items, &o) else {
			return Ok(());
		};
		if items.len() > 1 {
			let (a, b) = items.split_at(items.len() / 2);
			self.pack(a, mk, judge)?;
			self.pack(b, mk, judge)?;
		}
		Err(Bad::new(&c, &o, "", msg))
	}
}

#[derive(Default)]
struct FamStat {
	name: String,
	rule: String,
	size: u64,
	covered: u64,
	items: u64,
	executions: u64,
	transitions: u64,
	seconds: f64,
	capped: bool,
}

pub struct Engine {
	pub ctx: Ctx,
	start: Instant,
	fams: Vec<FamStat>,
	violation: Option<(String, Bad)>,
	inputs: HashSet<u64>,
	bulk: u64,
	outcomes: HashSet<u64>,
	samples: Vec<String>,
	known: Vec<String>,
	known_hits: Mutex<HashSet<String>>,
	pub notes: Vec<String>,
	pub alarm: u32,
}

impl Engine {
	pub fn new(ctx: Ctx) -> Engine {
		let file = ctx.verif.join("known-findings.txt");
		let prefix = format!("finding: property={} ", ctx.id);
		let known = std::fs::read_to_string(file)
			.unwrap_or_default()
			.lines()
			.filter_map(|l| l.strip_prefix(&prefix).map(str::to_owned))
			.collect();
		Engine {
			ctx,
			start: Instant::now(),
			fams: vec![],
			violation: None,
			inputs: HashSet::new(),
			bulk: 0,
			outcomes: HashSet::new(),
			samples: vec![],
			known,
			known_hits: Mutex::new(HashSet::new()),
			notes: vec![],
			alarm: 10,
		}
	}
	pub fn thorough(&self) -> bool {
		self.ctx.thorough
	}
	/// Picks a bound by tier.
	pub fn pick<T>(&self, quick: T, thorough: T) -> T {
		if self.ctx.thorough {
			thorough
		} else {
			quick
		}
	}
	/// Explores every index in 0..n.
	pub fn family<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
	where
		F: Fn(&mut Runner, u64) -> Result<(), Bad> + Sync,
	{
		if self.violation.is_some() {
			return;
		}
		let began = Instant::now();
		let next = AtomicU64::new(0);
		let capped = AtomicBool::new(false);
		let best = AtomicU64::new(u64::MAX);
		let found: Mutex<Option<(u64, Bad)>> = Mutex::new(None);
		let totals: Mutex<(u64, u64, u64)> = Mutex::new((0, 0, 0));
		let merged: Mutex<(HashSet<u64>, HashSet<u64>, u64, Vec<String>)> =
			Mutex::new((HashSet::new(), HashSet::new(), 0, vec![]));
		let chunk = (n / (self.ctx.threads as u64 * 64)).clamp(1, 64);
		let ctx = &self.ctx;
		let (known, hits) = (&self.known, &self.known_hits);
		let alarm = self.alarm;
		std::thread::scope(|scope| {
			for w in 0..ctx.threads.min(n.max(1) as usize) {
				let (next, capped, best, found, totals, merged, f) =
					(&next, &capped, &best, &found, &totals, &merged, &f);
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(scope, move || {
						let mut r = Runner::new(ctx, w, Mode::Server);
						r.alarm = alarm;
						model::take_steps();
						loop {
							if Instant::now() > ctx.stop_at {
								if next.load(Ordering::SeqCst) < n {
									capped.store(true, Ordering::SeqCst);
								}
								break;
							}
							let at = next.fetch_add(chunk, Ordering::SeqCst);
							if at >= n || at > best.load(Ordering::SeqCst) {
								break;
							}
							for i in at..(at + chunk).min(n) {
								if let Err(bad) = f(&mut r, i) {
									let key = bad.case.shell("pemv");
									if known.contains(&key) {
										hits.lock().unwrap().insert(key);
										continue;
									}
									let mut g = found.lock().unwrap();
									if g.as_ref().map_or(true, |(j, _)| i < *j) {
										best.store(i, Ordering::SeqCst);
										*g = Some((i, bad));
									}
									break;
								}
							}
						}
						let mut t = totals.lock().unwrap();
						t.0 += r.items;
						t.1 += r.executions;
						t.2 += model::take_steps();
						drop(t);
						let mut m = merged.lock().unwrap();
						m.0.extend(&r.inputs);
						m.1.extend(&r.outcomes);
						m.2 += r.bulk;
						if m.3.len() < 2 {
							m.3.extend(r.samples);
						}
					})
					.expect("cannot start a worker");
			}
		});
		let (items, executions, transitions) = totals.into_inner().unwrap();
		let (inputs, outcomes, bulk, samples) = merged.into_inner().unwrap();
		self.inputs.extend(inputs);
		self.outcomes.extend(outcomes);
		self.bulk += bulk;
		for s in samples.into_iter().take(2) {
			self.samples.push(format!("{name}: {s}"));
		}
		let stat = FamStat {
			name: name.to_owned(),
			rule: rule.to_owned(),
			size: n,
			covered: next.into_inner().min(n),
			items,
			executions,
			transitions,
			seconds: began.elapsed().as_secs_f64(),
			capped: capped.into_inner(),
		};
		println!(
			"  {name}: {} of {} points, {} items, {} executions, {:.1} s{}",
			stat.covered,
			stat.size,
			stat.items,
			stat.executions,
			stat.seconds,
			if stat.capped { " (CAPPED by time)" } else { "" }
		);
		self.fams.push(stat);
		if let Some((i, bad)) = found.into_inner().unwrap() {
			self.confirm(name, i, bad, &f);
		}
	}

	/// A disagreement only counts when fresh, plain executions show it too.
	fn confirm<F>(&mut self, name: &str, i: u64, bad: Bad, f: &F)
	where
		F: Fn(&mut Runner, u64) -> Result<(), Bad> + Sync,
	{
		let again = {
			let ctx = &self.ctx;
			let f = &f;
			std::thread::scope(|s| {
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, move || {
						for _ in 0..25 {
							let mut r = Runner::new(ctx, 99, Mode::Plain);
							if let Err(b) = f(&mut r, i) {
								return Some(b);
							}
						}
						None
					})
					.expect("cannot start a thread")
					.join()
					.expect("confirmation failed")
			})
		};
		match again {
			Some(b) => {
				let key = b.case.shell("pemv");
				if self.known.contains(&key) {
					self.known_hits.lock().unwrap().insert(key);
				} else {
					self.violation = Some((format!("{name}, point {i}"), b));
				}
			}
			None => {
				println!("first seen: {}\n{}", bad.msg, bad.got);
				println!("command: {}", bad.case.shell(&self.ctx.bin));
				println!("ENGINE ERROR: the disagreement does not show in plain executions");
				let _ = std::fs::remove_dir_all(&self.ctx.scratch);
				std::process::exit(3);
			}
		}
	}

	pub fn finish(self, level: &str) -> i32 {
		let dir = self.ctx.verif.join("evidence");
		let _ = std::fs::create_dir_all(&dir);
		let id = &self.ctx.id;
		let items: u64 = self.fams.iter().map(|f| f.items).sum();
		let execs: u64 = self.fams.iter().map(|f| f.executions).sum();
		let trans: u64 = self.fams.iter().map(|f| f.transitions).sum();
		let states = self.inputs.len() as u64 + self.bulk;
		let capped = self.fams.iter().any(|f| f.capped);
		let mut j = String::new();
		let _ = write!(
			j,
			"{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{level}\",\"coverage\":{{",
			if self.ctx.thorough { "thorough" } else { "quick" },
			self.ctx.seed
		);
		if level == "model_checking" {
			let _ = write!(
				j,
				"\"states\":{states},\"transitions\":{trans},\"traces_validated_against_impl\":{execs},"
			);
		} else {
			let _ = write!(
				j,
				"\"evaluations\":{execs},\"distinct_nontrivial\":{states},\"rule\":{},",
				json(
					"every listed fault point is run; a case counts once per distinct (command line, fault plan), \
					 and is non-trivial because its fault was actually delivered to a write of that run"
				)
			);
		}
		let _ = write!(
			j,
			"\"items_judged_with_repeats\":{items},\"distinct_outcomes\":{},\"exhaustive\":{},",
			self.outcomes.len(),
			!capped && self.violation.is_none()
		);
		j.push_str("\"families\":[");
		for (k, f) in self.fams.iter().enumerate() {
			let _ = write!(
				j,
				"{}{{\"name\":{},\"space\":{},\"points\":{},\"points_covered\":{},\"items\":{},\"executions\":{},\
				 \"model_steps\":{},\"seconds\":{:.2},\"capped_by_time\":{}}}",
				if k > 0 { "," } else { "" },
				json(&f.name),
				json(&f.rule),
				f.size,
				f.covered,
				f.items,
				f.executions,
				f.transitions,
				f.seconds,
				f.capped
			);
		}
		j.push_str("],\"samples\":[");
		for (k, s) in self.samples.iter().take(24).enumerate() {
			let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, json(&clip(s, 600)));
		}
		j.push_str("],\"notes\":[");
		for (k, s) in self.notes.iter().enumerate() {
			let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, json(s));
		}
		let _ = write!(
			j,
			"]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}",
			json(
				"the oracle's tables (harness/src/spec.rs) are right; the binary built with optimisation level 2 and \
				 overflow checks behaves as the default build; inputs outside the listed spaces are not covered"
			),
			self.start.elapsed().as_secs_f64(),
			i32::from(self.violation.is_some())
		);
		j.push('\n');
		std::fs::write(dir.join(format!("{id}.json")), j).expect("cannot write the evidence file");

		for k in self.known_hits.lock().unwrap().iter() {
			println!("KNOWN-FINDING: property={id} {k}");
		}
		println!(
			"{id}: {states} states, {trans} transitions, {execs} executions judged, {} distinct outcomes, {:.1} s{}",
			self.outcomes.len(),
			self.start.elapsed().as_secs_f64(),
			if capped { ", capped" } else { "" }
		);
		let _ = std::fs::remove_dir_all(&self.ctx.scratch);
		match &self.violation {
			None => {
				if states == 0 || self.outcomes.len() < 2 {
					println!("ENGINE ERROR: the exploration was vacuous");
					return 3;
				}
				0
			}
			Some((place, b)) => {
				let path = self.write_replay(place, b);
				println!("found in {place}");
				println!("{}", clip(&b.msg, 4000));
				println!("command: {}", clip(&b.case.shell(&self.ctx.bin), 4000));
				if !b.expected.is_empty() {
					println!("expected:\n{}", clip(&b.expected, 4000));
				}
				println!("got: {}", b.got);
				println!("VIOLATION property={id} replay={path}");
				1
			}
		}
	}

	/// A shell script that repeats the failing execution without the explorer.
	fn write_replay(&self, place: &str, b: &Bad) -> String {
		let dir = self.ctx.verif.join("replays");
		let _ = std::fs::create_dir_all(&dir);
		let path = dir.join(format!("{}-{:016x}.sh", self.ctx.id, hash_of(&b.case)));
		let comment = |s: &str| {
			s.lines()
				.map(|l| format!("# {l}\n"))
				.collect::<String>()
		};
		let mut s = String::from("#!/bin/bash\n");
		let _ = writeln!(s, "# {}: {place}", self.ctx.id);
		s += &comment(&clip(&b.msg, 8000));
		s += "# expected:\n";
		s += &comment(&clip(&b.expected, 8000));
		s += "# got when it was found:\n";
		s += &comment(&b.got);
		if b.case.faults.is_empty() {
			let _ = writeln!(s, "{}\necho \"exit status $?\"", b.case.shell(&self.ctx.bin));
		} else {
			let plan: Vec<String> = b
				.case
				.faults
				.iter()
				.map(|f| format!("{}:{}:{}", f.index, f.action, f.repeat))
				.collect();
			let args: Vec<String> = b.case.args.iter().map(|a| server::quote(a)).collect();
			let _ = writeln!(
				s,
				"# stdout write number : answer (bytes accepted, or -errno) : how often\n\
				 exec \"$(dirname \"$0\")\"/../build/mc/release/mc fault {} -- {}",
				plan.join(","),
				args.join(" ")
			);
		}
		let _ = std::fs::write(&path, s);
		path.to_string_lossy().into_owned()
	}
}

pub fn json(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o += "\\\"",
			'\\' => o += "\\\\",
			'\n' => o += "\\n",
			'\r' => o += "\\r",
			'\t' => o += "\\t",
			c if (c as u32) < 0x20 || c == '\u{7f}' => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// Reads the digits of `i` in mixed radix, least significant last (so the last varies fastest).
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<usize> {
	let mut v = vec![0; radix.len()];
	for (d, r) in v.iter_mut().zip(radix).rev() {
		*d = (i % r) as usize;
		i /= r;
	}
	v
}
pub fn product(radix: &[u64]) -> u64 {
	radix.iter().product()
}
/// All sequences over `k` symbols of length lo..=hi, shortest first.
#[derive(Clone, Copy)]
pub struct Seqs {
	pub k: u64,
	pub lo: u32,
	pub hi: u32,
}
impl Seqs {
	pub fn count(&self) -> u64 {
		(self.lo..=self.hi).map(|n| self.k.pow(n)).sum()
	}
	pub fn get(&self, mut i: u64) -> Vec<usize> {
		for n in self.lo..=self.hi {
			let c = self.k.pow(n);
			if i < c {
				return digits(i, &vec![self.k; n as usize]);
			}
			i -= c;
		}
		unreachable!("index out of range")
	}
}


pub fn ctx_from_env(id: &str) -> Ctx {
	let exe = std::env::current_exe().expect("own path");
	// /verif/build/mc/release/mc
	let verif = exe
		.ancestors()
		.nth(4)
		.expect("unexpected location of the harness")
		.to_path_buf();
	let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
	let seed = std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(1);
	let cap: u64 = std::env::var("MC_CAP_SECS")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(if thorough { 780 } else { 300 });
	let scratch = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
	let _ = std::fs::remove_dir_all(&scratch);
	std::fs::create_dir_all(&scratch).expect("scratch directory");
	Ctx {
		bin: verif.join("build/pemv/debug/pemv").to_string_lossy().into_owned(),
		shim: verif.join("build/shim.so").to_string_lossy().into_owned(),
		verif,
		scratch,
		thorough,
		seed,
		id: id.to_owned(),
		threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
		stop_at: Instant::now() + Duration::from_secs(cap),
	}
}
