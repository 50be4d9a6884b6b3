//! C26: what pemv prints depends on nothing but its arguments, its settings and its configuration file, and it
//! touches nothing.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

use crate::broad::{self, Form};
use crate::common::*;
use crate::engine::{digits, hash_of, product, Bad, Engine, Runner, Seqs};
use crate::model::{self, hex, ALL_OPS};
use crate::server::{Around, Case, Inherited, Outcome, Sink, Status, Stdin};

/// Runs that differ in what they do.
fn bases() -> Vec<Case> {
	let mut v = Vec::new();
	for op in ALL_OPS {
		for x in crate::cli::values_for(op) {
			v.push(op_case(op, &x));
		}
		v.push(op_case(op, "zz").arg("--colour=always"));
	}
	let pal = palette();
	let all: Vec<u8> = pal.iter().flat_map(|p| p.1.clone()).collect();
	for p in pal.iter().step_by(2) {
		v.push(Case::new(&["-b", &hex(&p.1)]));
	}
	let sp = broad::specials();
	let valid = &sp[..25];
	for f in [Form::Ber, Form::BerUnsorted, Form::Nested2, Form::Ingenico, Form::AutoBer, Form::AutoIngenico] {
		let (op, t, s) = broad::input(f, valid);
		let c = settings_args(op_case(op, &t), &s);
		v.push(c.clone().arg("--colour=always"));
		v.push(c.clone().arg("-mX"));
		v.push(c);
	}
	v.push(Case::new(&["-b", &hex(&all), "--no-sort", "-m", "X", "#", "--color", "ansi"]));
	v.push(Case::new(&["-a", &hex(&all)]));
	v.push(Case::new(&["-b", &hex(&model::tlv(&[0xC1], &(0..=255u8).collect::<Vec<_>>()))]));
	v.push(Case::new(&["-b", &"9F260112".repeat(300)]));
	for t in 5..9 {
		v.push(op_case(model::Op::Ber, &hex(&sp[20 + t])));
	}
	// deep, wide and long ones
	for (depth, inner) in [(17, "5A0112"), (40, "9F34031E0302"), (100, "95058000008000")] {
		let mut t: Vec<u8> = hex_bytes(inner);
		for _ in 1..depth {
			t = model::tlv(&[0xE0], &t);
		}
		v.push(Case::new(&["-i", &ingenico(&[0xE0], &t)]));
		v.push(Case::new(&["-b", &hex(&model::tlv(&[0xE0], &t))]));
	}
	v.push(Case::new(&["-b", &hex(&model::tlv(&[0xC2], &vec![0x41; 5000]))]));
	v.push(Case::new(&["--cvm-list", &format!("00000064000000C8{}", "4206".repeat(100))]));
	v.push(Case::new(&["--identify", &"9F".repeat(500)]));
	// settings by environment
	v.push(Case::new(&["-b", &hex(&all)]).env("PEMV_SORT_PARSED_TAGS", "false"));
	v.push(Case::new(&["-b", &hex(&all)]).env("PEMV_MASKING_CHARACTERS", "[\"X\",\"#\"]"));
	v.push(Case::new(&["-t", "8408008010"]).env("PEMV_CLI_COLOUR", "always"));
	v.push(Case::new(&["-t", "8408008010"]).env("PEMV_CLI_COLOUR", "blue"));
	v.push(Case::new(&["-t", "8408008010"]).env("PEMV_CONFIG", "/nonexistent/pemv.toml"));
	v.push(Case::new(&["-t", "8408008010"]).env("PEMV_PROFILE", "nosuchprofile"));
	// the command line itself
	for a in [
		&["-h"][..],
		&["--help"],
		&["--version"],
		&["-V"],
		&[],
		&["--colour=never"],
		&["-t", ""],
		&["-t"],
		&["-t", "84", "--tsi", "E800"],
		&["--nosuch"],
		&["-t", "8408008010", "--no-sort"],
		&["-b", "5A0100", "--colour=blue"],
		&["stray"],
	] {
		v.push(Case::new(a));
	}
	v
}

fn same(base: &Outcome, o: &Outcome) -> Result<(), String> {
	if base.status != o.status {
		return Err(format!("ends with {:?}, elsewhere with {:?}", o.status, base.status));
	}
	// help is wrapped to the width of the terminal
	let words = |v: &[u8]| String::from_utf8_lossy(v).split_whitespace().map(str::to_owned).collect::<Vec<_>>();
	if helps(base) && words(&base.out) == words(&o.out) && words(&base.err) == words(&o.err) {
		return Ok(());
	}
	if base.out != o.out {
		return Err("the output is not the same".into());
	}
	if base.err != o.err {
		return Err("the diagnostics are not the same".into());
	}
	Ok(())
}

/// Whether this is clap speaking.
fn helps(o: &Outcome) -> bool {
	o.out_str().contains("Usage") || o.err_str().contains("Usage") || o.err_str().contains("--help")
}

/// Names, kinds and contents of all there is below a directory.
fn snapshot(d: &Path) -> u64 {
	fn walk(d: &Path, v: &mut Vec<(PathBuf, bool, Vec<u8>)>) {
		for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
			let p = e.path();
			let dir = p.is_dir();
			v.push((p.clone(), dir, if dir { vec![] } else { std::fs::read(&p).unwrap_or_default() }));
			if dir {
				walk(&p, v);
			}
		}
	}
	let mut v = Vec::new();
	walk(d, &mut v);
	v.sort();
	hash_of(&v)
}

/// A home, a place for temporary files, and a working directory, with files in them that are none of pemv's business.
struct House {
	root: PathBuf,
}
impl House {
	fn new(r: &Runner, furnished: bool) -> House {
		let root = r.dir().join("house");
		let _ = std::fs::remove_dir_all(&root);
		let h = House { root };
		for d in ["home/.config/pemv", "home/.cache", "home/.local/share/pemv", "tmp", "cwd/sub", "etc/pemv"] {
			std::fs::create_dir_all(h.root.join(d)).expect("scratch directory");
		}
		if furnished {
			let toml = "cli_colour = \"always\"\nmasking_characters = [\"X\", \"4\"]\nsort_parsed_tags = false\n";
			let text = format!("{toml}[default]\n{toml}[global]\n{toml}");
			for f in [
				"home/pemv.toml", "home/.pemv.toml", "home/.pemvrc", "home/.pemv", "home/pemv", "home/.config/pemv.toml", "home/.config/pemv/pemv.toml",
				"home/.config/pemv/config.toml", "home/.config/pemv/config", "home/.local/share/pemv/pemv.toml", "etc/pemv.toml", "etc/pemv/pemv.toml",
				"etc/pemv/config.toml", "tmp/pemv.toml", "tmp/pemv", "tmp/pemv.cache", "cwd/.pemv.toml", "cwd/pemv.conf", "cwd/pemv.json", "cwd/.pemvrc",
				"cwd/config.toml", "cwd/pemv.toml.bak", "cwd/Pemv.toml", "cwd/PEMV.toml", "cwd/pemv.tml", "cwd/pemv", "cwd/sub/pemv.toml", "cwd/.pemv",
			] {
				std::fs::write(h.root.join(f), &text).expect("scratch file");
			}
			std::fs::write(
				h.root.join("cwd/.env"),
				"PEMV_CLI_COLOUR=always\nPEMV_SORT_PARSED_TAGS=false\nPEMV_MASKING_CHARACTERS=[\"4\"]\n",
			)
			.expect("scratch file");
			for f in ["cwd/5A0112", "cwd/9F26", "cwd/8408008010", "cwd/201", "cwd/E800"] {
				std::fs::write(h.root.join(f), "FFFFFFFFFF").expect("scratch file");
			}
		}
		h
	}
	fn live(&self, c: &Case) -> Case {
		let at = |d: &str| self.root.join(d).to_string_lossy().into_owned();
		let mut c = c.clone();
		for (k, d) in [
			("HOME", "home"),
			("XDG_CONFIG_HOME", "home/.config"),
			("XDG_CACHE_HOME", "home/.cache"),
			("XDG_DATA_HOME", "home/.local/share"),
			("XDG_STATE_HOME", "home/.local/share"),
			("XDG_RUNTIME_DIR", "tmp"),
			("XDG_CONFIG_DIRS", "etc"),
			("APPDATA", "home/.config"),
			("PWD", "cwd/sub"),
			("OLDPWD", "home/.config/pemv"),
			("PEMV_HOME", "home"),
			("PEMV_DIR", "etc/pemv"),
			("CARGO_MANIFEST_DIR", "home"),
			("INIT_CWD", "home"),
			("ROOT", "tmp"),
			("CONFIG_DIR", "etc/pemv"),
			("USERPROFILE", "home"),
			("TMPDIR", "tmp"),
			("TMP", "tmp"),
			("TEMP", "tmp"),
		] {
			c = c.env(k, &at(d));
		}
		c.cwd = at("cwd");
		c
	}
}

/// A directory with a file, a directory or a link called as each of the arguments is.
fn namesakes(r: &Runner, c: &Case, kind: usize) -> PathBuf {
	let root = r.dir().join("namesakes");
	let _ = std::fs::remove_dir_all(&root);
	std::fs::create_dir_all(&root).expect("scratch directory");
	std::fs::write(root.join("target"), "9F2608FFFFFFFFFFFFFFFF").expect("scratch file");
	let mut called: Vec<String> = Vec::new();
	for a in &c.args {
		let a = String::from_utf8_lossy(a).into_owned();
		let value = a.split_once('=').map(|x| x.1.to_owned());
		for x in [Some(a), value].into_iter().flatten() {
			for before in ["@", "<", "file:", "./", "~/", "|"] {
				called.extend(x.strip_prefix(before).map(str::to_owned));
			}
			called.push(x);
		}
	}
	for a in called {
		if a.is_empty() || a.len() > 200 || a.contains('/') {
			continue;
		}
		for end in ["", ".txt", ".hex", ".toml"] {
			let p = root.join(format!("{a}{end}"));
			let _ = match kind {
				0 => std::fs::write(&p, "9F2608FFFFFFFFFFFFFFFF"),
				1 => std::fs::create_dir(&p),
				_ => std::os::unix::fs::symlink("target", &p),
			};
		}
	}
	root
}

pub fn c26(e: &mut Engine) {
	let cases = bases();
	let n = cases.len() as u64;
	let seen: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
	let blind = std::sync::atomic::AtomicBool::new(false);
	// what each run does, and that it touches nothing
	let base: Vec<Outcome> = {
		let slot = Mutex::new(vec![None; cases.len()]);
		e.family(
			"watched",
			"every representative run under a filter on its system calls: no file, process, socket or other effect beyond its output; no file opened but the configuration",
			n,
			|r, i| {
				let c = &cases[i as usize];
				let o = r.run(c);
				let mut w = c.clone();
				w.world = "w".to_owned();
				let seen_run = r.run(&w);
				r.item(&w);
				r.sample(|| format!("{} -> {}", c.shell("pemv"), String::from_utf8_lossy(&seen_run.log)));
				watched(&seen_run, &seen, &blind).map_err(|m| Bad::new(&w, &seen_run, "", m))?;
				same(&o, &seen_run).map_err(|m| Bad::new(&w, &seen_run, o.out_str(), m))?;
				slot.lock().unwrap()[i as usize] = Some(o);
				Ok(())
			},
		);
		slot.into_inner().unwrap().into_iter().flatten().collect()
	};
	if base.len() < cases.len() {
		return;
	}
	let compare = |r: &mut Runner, k: usize, c: &Case| -> Result<(), Bad> {
		let o = r.run(c);
		r.item(c);
		model::step();
		r.sample(|| c.shell("pemv"));
		same(&base[k], &o).map_err(|m| Bad::new(c, &o, base[k].out_str() + &base[k].err_str(), m))
	};
	// clocks, chance and process numbers
	let worlds: Vec<String> = {
		let mut v: Vec<String> = Vec::new();
		for t in [0i64, 1, 951_782_399, 951_782_400, 1_700_000_000, 1_767_225_599, 1_767_225_600, 2_147_483_647, 2_147_483_648, 4_102_444_800] {
			v.push(format!("t{t}"));
		}
		for h in 0..24 {
			v.push(format!("t{},j1", 1_700_006_400 + h * 3600));
		}
		for d in 0..7 {
			v.push(format!("t{},j3600", 1_700_006_400 + d * 86_400));
		}
		for m in 0..12 {
			v.push(format!("t{},j86400", 1_672_531_200 + m * 2_629_800i64));
		}
		for b in [0u8, 1, 0x55, 0x7F, 0x80, 0xAA, 0xFE, 0xFF] {
			v.push(format!("r{b}"));
		}
		for p in [1, 2, 3, 4, 100, 999, 32767, 32768, 4_194_303] {
			v.push(format!("p{p}"));
		}
		v
	};
	let nw = worlds.len() as u64;
	e.family(
		"clocks, chance and process numbers",
		"every representative run x 70 worlds: clocks standing or leaping at 53 times (every hour, weekday and month among them), 8 kinds of random bytes, 9 process numbers",
		n * nw,
		|r, i| {
			let d = digits(i, &[n, nw]);
			let mut c = cases[d[0]].clone();
			c.world = worlds[d[1]].clone();
			compare(r, d[0], &c)
		},
	);
	// the rest of the environment: usual names, and those that pemv has been seen to look up
	let mut names: BTreeSet<String> = [
		"HOME", "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "COLUMNS", "LINES", "TERM", "COLORTERM", "NO_COLOR", "CLICOLOR", "FORCE_COLOR",
		"CI", "DEBUG", "VERBOSE", "QUIET", "RUST_LOG", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "TZ", "USER", "LOGNAME", "SHELL", "PWD", "OLDPWD",
		"TMPDIR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "EDITOR", "PAGER", "MANPAGER", "LESS", "HOSTNAME", "DISPLAY", "SSH_TTY", "SSH_CONNECTION", "TMUX", "STY",
		"WT_SESSION", "TERM_PROGRAM", "CONFIG", "PROFILE", "CLI_COLOUR", "MASKING_CHARACTERS", "SORT_PARSED_TAGS", "COLOUR", "COLOR", "MASK", "SORT", "PEMV",
		"PEMVCLI_COLOUR", "XPEMV_SORT_PARSED_TAGS", "PEMV_UNKNOWN", "PEMV_DEBUG", "PEMV_VERBOSE", "PEMV_COLOUR", "PEMV_COLOR", "PEMV_MASK", "PEMV_SORT",
		"PEMV_NO_SORT", "PEMV_FORMAT", "PEMV_STRICT", "PEMV_LENIENT", "PEMV_WIDTH", "PEMV_INDENT", "PEMV_LOG", "PEMV_LANG", "PEMV_TEST", "PEMV_FAST", "PEMV_RAW",
		"EMV", "EMV_DEBUG", "EMV_STRICT", "FIGMENT_PROFILE", "ROCKET_PROFILE", "ROCKET_CONFIG", "CARGO", "CARGO_MANIFEST_DIR", "CARGO_PKG_NAME", "TEST", "_", "SHLVL",
		"SOURCE_DATE_EPOCH", "NO_SORT", "STRICT", "PROFILER", "ENV", "APP_ENV", "TARPAULIN",
	]
	.iter()
	.map(|s| (*s).to_owned())
	.collect();
	let looked_up = seen.into_inner().unwrap();
	e.notes.push(format!(
		"variables looked up by name: {}",
		looked_up.iter().cloned().collect::<Vec<_>>().join(" ")
	));
	names.extend(looked_up.into_iter().filter(|k| !k.starts_with("PEMV_") && !k.starts_with("MC_")));
	// it makes clap colour its own messages, as its documentation says
	names.remove("CLICOLOR_FORCE");
	// a tracing aid in the debug build of a dependency (pear), which the released program does not have
	names.remove("PARSE_DEBUG");
	let names: Vec<String> = names.into_iter().collect();
	let values = ["", "0", "1", "true", "always", "40", "fr_CA.UTF-8", "C", "xterm-256color", "/", "[\"X\",\"4\"]"];
	let radix = [n, names.len() as u64, values.len() as u64];
	let thin = e.pick(4u64, 1);
	e.notes.push(format!("{} names of variables", names.len()));
	e.family(
		"other variables",
		"every representative run x every usual variable and every one that is looked up x 11 values (quick: a quarter of the values to each run and name, going round)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1] + d[2]) as u64 % thin != 0 {
				return Ok(());
			}
			let c = cases[d[0]].clone().env(&names[d[1]], values[d[2]]);
			compare(r, d[0], &c)
		},
	);
	let few: Vec<usize> = (0..cases.len()).step_by(e.pick(12, 5)).collect();
	let nn = names.len() as u64;
	e.family(
		"pairs of other variables",
		"every twelfth (fifth) representative run x every pair of those variables, set to 1",
		few.len() as u64 * nn * nn,
		|r, i| {
			let d = digits(i, &[few.len() as u64, nn, nn]);
			if d[1] >= d[2] {
				return Ok(());
			}
			let k = few[d[0]];
			let c = cases[k].clone().env(&names[d[1]], "1").env(&names[d[2]], "1");
			compare(r, k, &c)
		},
	);
	e.family(
		"crowded environments",
		"every representative run with 0, 10, 100, 1000 more variables, short and long, and with all the usual ones at once",
		n * 10,
		|r, i| {
			let d = digits(i, &[n, 10]);
			let mut c = cases[d[0]].clone();
			match d[1] {
				0..=7 => {
					for k in 0..[0usize, 10, 100, 1000][d[1] / 2] {
						c = c.env(&format!("V{k}"), &"x".repeat([3, 200][d[1] % 2]));
					}
				}
				_ => {
					for k in &names {
						c = c.env(k, ["1", "xterm"][d[1] - 8]);
					}
				}
			}
			compare(r, d[0], &c)
		},
	);
	// where it runs
	let places: [&str; 10] = ["/", "/tmp", "/proc", "/dev", "deep", "é 💳", "-b", "5A0112", "pemv.toml", "gone"];
	e.family(
		"places",
		"every representative run x 10 working directories (the root, /proc, deep ones, odd names, one called pemv.toml, one that was removed)",
		n * places.len() as u64,
		|r, i| {
			let d = digits(i, &[n, places.len() as u64]);
			let p = places[d[1]];
			let mut c = cases[d[0]].clone();
			let root = r.dir().join("places");
			let dir = match p {
				"deep" => root.join("d/".repeat(60)),
				_ if p.starts_with('/') => PathBuf::from(p),
				_ => root.join(p),
			};
			if p == "gone" {
				// entered through the fork server only while it still exists
				return Ok(());
			}
			if !p.starts_with('/') {
				std::fs::create_dir_all(&dir).expect("scratch directory");
			}
			c.cwd = dir.to_string_lossy().into_owned();
			compare(r, d[0], &c)
		},
	);
	// what it is given besides
	let stdins = [Stdin::Closed, Stdin::Text("".into()), Stdin::Text("5A0112\n".into()), Stdin::Text("y\n".repeat(1000)), Stdin::File, Stdin::Terminal, Stdin::Null];
	let radix = [n, stdins.len() as u64, 4];
	let thin = e.pick(2u64, 1);
	e.family(
		"standard input and other inheritance",
		"every representative run x standard input closed, empty, a block, much text, a file, a terminal, nothing x umask, priority and descriptors as usual or not x program name",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1] + d[2]) as u64 % thin != 0 {
				return Ok(());
			}
			let c = &cases[d[0]];
			let around = Around {
				stdin: stdins[d[1]].clone(),
				umask: [0o022, 0, 0o777, 0o077][d[2]],
				nice: [0, 5, 19, 0][d[2]],
				extra_descriptors: [0, 5, 0, 60][d[2]],
				arg0: ["", "pemv", "", "x"][d[2]].to_owned(),
				merged: d[2] == 2,
				..Around::default()
			};
			let Some(o) = r.run_around(c, &around) else { return Ok(()) };
			r.item(&(c, &around));
			model::step();
			// clap names the program as it was called
			if !around.arg0.is_empty() && helps(&base[d[0]]) {
				return Ok(());
			}
			let res = if around.merged {
				// standard output and error in one: each part is there in full
				let mut want = base[d[0]].out.clone();
				want.extend(&base[d[0]].err);
				want.sort_unstable();
				let mut got = o.out.clone();
				got.sort_unstable();
				if got == want && o.status == base[d[0]].status { Ok(()) } else { Err("not the same when both outputs are one".to_owned()) }
			} else {
				same(&base[d[0]], &o)
			};
			res.map_err(|m| Bad::new(c, &o, base[d[0]].out_str() + &base[d[0]].err_str(), format!("{m} ({around:?})")))
		},
	);
	// where the program lies and what it is called
	const CALLED: [&str; 22] = [
		"", "pemv-raw", "-pemv", "raw", "ber", "ber-tlv", "tvr", "service-code", "auto", "pemv.exe", "PEMV", "/nonexistent/pemv", "./pemv", "pemv --no-sort", "5A0112",
		"@", "--help", "sh", "pemv-plain", "pemv-colour", "test", "é",
	];
	let radix = [n, CALLED.len() as u64, 2];
	let thin = e.pick(4u64, 1);
	e.family(
		"what the program is called and what lies beside it",
		"every representative run x 22 names the program is called by x a bare directory, or one full of other files named after it, and so above it (quick: a quarter, going round)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1] + d[2]) as u64 % thin != 0 {
				return Ok(());
			}
			let root = r.dir().join(["bare", "full"][d[2]]);
			let program = root.join("bin/pemv");
			if !program.exists() {
				std::fs::create_dir_all(root.join("bin/pemv.d")).expect("scratch directory");
				if std::fs::hard_link(&r.ctx.bin, &program).is_err() {
					// written by another process, so that no descriptor of it is inherited here
					let done = std::process::Command::new("cp").arg(&r.ctx.bin).arg(&program).status();
					assert!(done.is_ok_and(|s| s.success()), "the program can be copied");
				}
				if d[2] == 1 {
					let toml = "cli_colour = \"always\"\nmasking_characters = [\"X\", \"4\"]\nsort_parsed_tags = false\n";
					let text = format!("{toml}[default]\n{toml}[global]\n{toml}");
					for f in [
						"bin/pemv.toml", "bin/pemv.conf", "bin/pemv.cfg", "bin/pemv.ini", "bin/.pemv.toml", "bin/config.toml", "bin/pemv.d/pemv.toml", "pemv.toml",
						"config.toml", "bin/pemv.json", "bin/pemv-raw", "bin/.pemvrc", "bin/pemv.exe.toml",
					] {
						std::fs::write(root.join(f), &text).expect("scratch file");
					}
					std::fs::write(
						root.join("bin/.env"),
						"PEMV_CLI_COLOUR=always\nPEMV_SORT_PARSED_TAGS=false\nPEMV_MASKING_CHARACTERS=[\"4\"]\n",
					)
					.expect("scratch file");
				}
			}
			let c = &cases[d[0]];
			let around = Around {
				arg0: CALLED[d[1]].to_owned(),
				program: program.to_string_lossy().into_owned(),
				..Around::default()
			};
			let Some(o) = r.run_around(c, &around) else { return Ok(()) };
			r.item(&(c, d[1], d[2]));
			model::step();
			// clap names the program as it was called
			if helps(&base[d[0]]) {
				return Ok(());
			}
			same(&base[d[0]], &o).map_err(|m| Bad::new(c, &o, base[d[0]].out_str() + &base[d[0]].err_str(), format!("{m} ({around:?})")))
		},
	);
	// who runs it, and under what terms
	let mut terms: Vec<Vec<Inherited>> = Vec::new();
	for id in [1, 1000, 65534] {
		terms.push(vec![Inherited::User(id)]);
	}
	terms.push(vec![Inherited::OneProcessor]);
	// sizes of data, stack, core, processes, files, locked memory, address space, written files, message queues
	for (what, soft) in [
		(2, 1 << 30), (3, 1 << 20), (3, 64 << 20), (3, u64::MAX), (4, 0), (4, 1 << 30), (6, 64), (7, 16), (7, 100_000), (8, 0), (9, 1 << 30), (1, 1 << 20), (12, 0), (0, 5), (11, 1), (13, 0),
	] {
		terms.push(vec![Inherited::Limit(what, soft)]);
	}
	for s in [1, 2, 3, 10, 13, 15, 17, 21, 22, 25, 28] {
		terms.push(vec![Inherited::Ignores(s)]);
		terms.push(vec![Inherited::Blocks(s)]);
	}
	terms.push(vec![Inherited::NewSession]);
	terms.push(vec![Inherited::Personality(0x0040000)]);
	terms.push(vec![Inherited::Personality(0x0020000)]);
	terms.push(vec![Inherited::Policy(3)]);
	terms.push(vec![Inherited::Policy(5)]);
	terms.push(vec![Inherited::Timer]);
	terms.push(vec![Inherited::NoNewPrivileges]);
	terms.push(vec![Inherited::NotDumpable]);
	terms.push(vec![Inherited::Name]);
	terms.push(vec![Inherited::NewSession, Inherited::OneProcessor, Inherited::Limit(7, 32), Inherited::User(65534)]);
	let refused: Vec<std::sync::atomic::AtomicBool> = terms.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect();
	let radix = [n, terms.len() as u64];
	let thin = e.pick(4u64, 1);
	e.family(
		"who runs it and under what terms",
		"every representative run by other users, on one processor, under other limits, signals ignored and blocked, in another session, personality, policy (quick: a quarter, going round)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let must_start = d[0] == 0;
			if (d[0] + d[1]) as u64 % thin != 0 && !must_start {
				return Ok(());
			}
			let program = r.dir().join("anyone/pemv");
			if !program.exists() {
				std::fs::create_dir_all(r.dir().join("anyone")).expect("scratch directory");
				let done = std::process::Command::new("cp").arg(&r.ctx.bin).arg(&program).status();
				assert!(done.is_ok_and(|s| s.success()), "the program can be copied");
				use std::os::unix::fs::PermissionsExt;
				std::fs::set_permissions(&program, std::fs::Permissions::from_mode(0o755)).expect("scratch file");
			}
			let c = &cases[d[0]];
			let around = Around {
				program: program.to_string_lossy().into_owned(),
				inherited: terms[d[1]].clone(),
				..Around::default()
			};
			let Some(o) = r.run_around(c, &around) else {
				refused[d[1]].store(true, std::sync::atomic::Ordering::Relaxed);
				return Ok(());
			};
			r.item(&(c, d[1]));
			model::step();
			if helps(&base[d[0]]) {
				return Ok(());
			}
			same(&base[d[0]], &o).map_err(|m| Bad::new(c, &o, base[d[0]].out_str() + &base[d[0]].err_str(), format!("{m} ({around:?})")))
		},
	);
	for (t, r) in terms.iter().zip(&refused) {
		if r.load(std::sync::atomic::Ordering::Relaxed) {
			e.notes.push(format!("not possible here: {t:?}"));
		}
	}
	// who its parent is
	const PARENTS: [&str; 14] = ["sh", "bash", "zsh", "fish", "python3", "cron", "sshd", "make", "systemd", "init", "tmux", "node", "java", "pemv"];
	let radix = [n, PARENTS.len() as u64];
	let thin = e.pick(4u64, 1);
	e.family(
		"who its parent is",
		"every representative run as the child of a process of 14 names (quick: a quarter, going round)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1]) as u64 % thin != 0 {
				return Ok(());
			}
			let parent = r.dir().join("parents").join(PARENTS[d[1]]);
			if !parent.exists() {
				std::fs::create_dir_all(r.dir().join("parents")).expect("scratch directory");
				std::os::unix::fs::symlink("/bin/sh", &parent).expect("scratch file");
			}
			let mut c = cases[d[0]].clone();
			let mut args: Vec<Vec<u8>> = [b"-c".as_slice(), b"\"$0\" \"$@\"; exit $?", r.ctx.bin.as_bytes()].iter().map(|a| a.to_vec()).collect();
			args.append(&mut c.args);
			c.args = args;
			let around = Around {
				program: parent.to_string_lossy().into_owned(),
				..Around::default()
			};
			let Some(o) = r.run_around(&c, &around) else { return Ok(()) };
			r.item(&(&c, d[1]));
			model::step();
			if helps(&base[d[0]]) {
				return Ok(());
			}
			same(&base[d[0]], &o).map_err(|m| Bad::new(&c, &o, base[d[0]].out_str() + &base[d[0]].err_str(), format!("{m} (child of {})", PARENTS[d[1]])))
		},
	);
	// what its outputs are
	let sinks = [
		Sink::Pipe, Sink::File(""), Sink::File(".txt"), Sink::File(".html"), Sink::File(".json"), Sink::File(".log.gz"), Sink::Append, Sink::Over, Sink::Sparse, Sink::Socket, Sink::Fifo,
		Sink::Terminal, Sink::Null,
	];
	let radix = [n, sinks.len() as u64, sinks.len() as u64];
	let thin = e.pick(3u64, 1);
	e.family(
		"what the outputs are",
		"every representative run x standard output and standard error each a pipe, a new file of 5 names, a file that has something in it (appended to, written over, beyond its end), a socket, a named pipe, a terminal, nothing (quick: a third, going round)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1] * 2 + d[2]) as u64 % thin != 0 {
				return Ok(());
			}
			let (out, err) = (sinks[d[1]], sinks[d[2]]);
			let mut c = cases[d[0]].clone();
			if out == Sink::Terminal || err == Sink::Terminal {
				// clap speaks otherwise to terminals
				if helps(&base[d[0]]) {
					return Ok(());
				}
				c = c.env("TERM", "dumb");
			}
			let Some(o) = r.run_sinks(&c, out, err) else { return Ok(()) };
			r.item(&(d[0], out, err));
			model::step();
			let mut want = base[d[0]].clone();
			if out == Sink::Null {
				want.out.clear();
			}
			if err == Sink::Null {
				want.err.clear();
			}
			let text = |o: &Outcome| format!("{}{}", o.out_str(), o.err_str());
			same(&want, &o).map_err(|m| Bad::new(&c, &o, text(&want), format!("{m} (standard output: {out:?}, standard error: {err:?})")))
		},
	);
	// terminals of every size
	let sizes = [(0u16, 0u16), (1, 1), (5, 20), (24, 80), (50, 132), (24, 40), (1000, 1000), (65535, 65535)];
	let missing = std::sync::atomic::AtomicBool::new(false);
	let few: Vec<usize> = (0..cases.len()).step_by(e.pick(3, 1)).collect();
	e.family(
		"sizes of terminals",
		"every third (every) representative run on a terminal of 8 sizes, as plain text and in colour",
		few.len() as u64 * 2,
		|r, i| {
			let d = digits(i, &[few.len() as u64, 2]);
			let c = cases[few[d[0]]].clone().env("TERM", ["dumb", "xterm"][d[1]]);
			let mut first: Option<Outcome> = None;
			for s in sizes {
				let Some(o) = r.run_tty_sized(&c, Some(s)) else {
					missing.store(true, std::sync::atomic::Ordering::Relaxed);
					return Ok(());
				};
				r.item(&(&c.args, &c.env, s));
				model::step();
				match &first {
					None => first = Some(o),
					Some(f) => same(f, &o).map_err(|m| Bad::new(&c, &o, f.out_str(), format!("{m} on a terminal of {s:?}")))?,
				}
			}
			Ok(())
		},
	);
	if missing.into_inner() {
		e.notes.push("no pseudo-terminal was available: the terminal cases were skipped".into());
	}
	// histories: the files around pemv are its only possible memory; they have one reachable state
	let few: Vec<usize> = (0..cases.len()).filter(|k| base[*k].status == Status::Exit(0) || k % 3 == 0).collect();
	let q = Seqs {
		k: e.pick(20, 40),
		lo: 1,
		hi: 2,
	};
	e.family(
		"histories",
		"every sequence of up to 2 of 20 (40) runs in a house of home, cache, temporary and working directories, empty or full of files that are not pemv's: the files stay as they are after each run, and each prints what it always does",
		q.count() * 2,
		|r, i| {
			let steps: Vec<usize> = q.get(i / 2).iter().map(|x| few[x * few.len() / q.k as usize]).collect();
			let h = House::new(r, i % 2 == 1);
			let before = snapshot(&h.root);
			for k in steps {
				let c = h.live(&cases[k]);
				compare(r, k, &c)?;
				if snapshot(&h.root) != before {
					let o = r.run(&c);
					return Err(Bad::new(&c, &o, "", "pemv leaves files behind, or changes them"));
				}
			}
			Ok(())
		},
	);
	// files that are called as its arguments are
	e.family(
		"namesakes",
		"every representative run where a file, a directory or a link is called as each of its arguments is, alone and with usual endings; and in a furnished house",
		n * 4,
		|r, i| {
			let d = digits(i, &[n, 4]);
			let c = &cases[d[0]];
			if d[1] == 3 {
				let h = House::new(r, true);
				let before = snapshot(&h.root);
				let c = h.live(c);
				compare(r, d[0], &c)?;
				if snapshot(&h.root) != before {
					let o = r.run(&c);
					return Err(Bad::new(&c, &o, "", "pemv leaves files behind, or changes them"));
				}
				return Ok(());
			}
			let root = namesakes(r, c, d[1]);
			let mut c = c.clone();
			c.cwd = root.to_string_lossy().into_owned();
			let before = snapshot(&root);
			compare(r, d[0], &c)?;
			if snapshot(&root) != before {
				let o = r.run(&c);
				return Err(Bad::new(&c, &o, "", "pemv leaves files behind, or changes them"));
			}
			Ok(())
		},
	);
	// words that mean something to other programs: standard input, a file, a variable
	let mut words: Vec<Case> = Vec::new();
	for op in ALL_OPS {
		for x in ["-", "@f", "@5A0112", "<f", "f", "file:f", "./f", "~/f", "$HOME", "%", "!", "@-", "/dev/stdin", "f.hex", "|f", "`f`", "&0", "-f", "0", "*"] {
			for known in [String::new(), values_of(op)] {
				if known.is_empty() || x.len() == 1 {
					words.push(Case::new(&[format!("{}={x}{known}", op.flag())]));
				}
			}
		}
	}
	let nw = words.len() as u64;
	e.family(
		"words that mean something elsewhere",
		"every operation given words such as -, @f, <f, file:f, /dev/stdin, alone and before a value x standard input of 7 kinds, files, directories and links of those names; and under the filter",
		nw * 11,
		|r, i| {
			let d = digits(i, &[nw, 11]);
			let c = &words[d[0]];
			let o = r.run(c);
			r.item(&(&c.args, d[1]));
			model::step();
			let differs = |m: String, x: &Outcome| Bad::new(c, x, o.out_str() + &o.err_str(), m);
			match d[1] {
				k @ 0..=6 => {
					let around = Around {
						stdin: stdins[k].clone(),
						..Around::default()
					};
					let Some(x) = r.run_around(c, &around) else { return Ok(()) };
					same(&o, &x).map_err(|m| differs(format!("{m} ({around:?})"), &x))
				}
				k @ 7..=9 => {
					let mut c = c.clone();
					let root = namesakes(r, &c, k - 7);
					c.cwd = root.to_string_lossy().into_owned();
					let x = r.run(&c);
					same(&o, &x).map_err(|m| differs(m, &x))
				}
				_ => {
					let mut w = c.clone();
					w.world = "w".to_owned();
					let x = r.run(&w);
					watched(&x, &Mutex::new(BTreeSet::new()), &std::sync::atomic::AtomicBool::new(false)).map_err(|m| Bad::new(&w, &x, "", m))?;
					same(&o, &x).map_err(|m| differs(m, &x))
				}
			}
		},
	);
	// what a configuration file says counts, not how old it is or who may read it
	let contents = [
		"cli_colour = \"always\"\nsort_parsed_tags = false\n",
		"masking_characters = [\"X\", \"#\"]\n",
		"[global]\ncli_colour = \"ansi\"\n[default]\nsort_parsed_tags = false\n",
		"cli_colour = 5\n",
	];
	const WAYS: [&str; 12] =
		["old", "new", "0444", "0600", "0666", "0777", "04755", "link", "hard", "chain", "noise around", "above"];
	let radix = [n, contents.len() as u64, WAYS.len() as u64];
	let thin = e.pick(3u64, 1);
	e.family(
		"the same configuration stored otherwise",
		"every representative run x 4 configuration files x 12 ways to store the file: times, permissions, links, other files around, the directory above",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if (d[0] + d[1] + d[2]) as u64 % thin != 0 {
				return Ok(());
			}
			let root = r.dir().join("stored");
			let _ = std::fs::remove_dir_all(&root);
			std::fs::create_dir_all(root.join("plain")).expect("scratch directory");
			std::fs::create_dir_all(root.join("else/below")).expect("scratch directory");
			let text = contents[d[1]];
			std::fs::write(root.join("plain/pemv.toml"), text).expect("scratch file");
			let p = root.join("else/pemv.toml");
			let mut below = "else";
			match WAYS[d[2]] {
				"link" => std::os::unix::fs::symlink("../plain/pemv.toml", &p).expect("link"),
				"hard" => std::fs::hard_link(root.join("plain/pemv.toml"), &p).expect("link"),
				"chain" => {
					std::os::unix::fs::symlink("../plain/pemv.toml", root.join("else/a")).expect("link");
					std::os::unix::fs::symlink("a", &p).expect("link");
				}
				way => {
					std::fs::write(&p, text).expect("scratch file");
					match way {
						"old" | "new" => {
							let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(if way == "old" { 1 } else { 4_000_000_000 });
							let f = std::fs::OpenOptions::new().append(true).open(&p).expect("scratch file");
							f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(t)).expect("times");
						}
						"noise around" => {
							for f in ["pemv.toml~", "pemv.toml.bak", ".pemv.toml", "pemv.json", "pemv.yaml", "pemv.local.toml", "pemv.d", "Pemv.toml"] {
								std::fs::write(root.join("else").join(f), "cli_colour = \"never\"\nmasking_characters = [\"4\"]\n").expect("scratch file");
							}
						}
						"above" => below = "else/below",
						mode => {
							use std::os::unix::fs::PermissionsExt;
							let m = u32::from_str_radix(mode, 8).unwrap();
							std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).expect("permissions");
						}
					}
				}
			}
			let c = &cases[d[0]];
			let mut first = c.clone();
			first.cwd = root.join("plain").to_string_lossy().into_owned();
			let mut second = c.clone();
			second.cwd = root.join(below).to_string_lossy().into_owned();
			let (a, b) = (r.run(&first), r.run(&second));
			r.item(&(&c.args, &c.env, d[1], d[2]));
			model::step();
			let place = |o: &Outcome, at: &str| Outcome {
				err: o.err_str().replace(at, "").into_bytes(),
				..o.clone()
			};
			let (x, y) = (
				place(&a, &root.join("plain").to_string_lossy()),
				place(&b, &root.join("else").to_string_lossy()),
			);
			let calm = |o: &Outcome| o.err.is_empty();
			// a complaint may name the file as it was found
			let res = if !calm(&x) && !calm(&y) && x.status == y.status && x.out == y.out { Ok(()) } else { same(&x, &y) };
			res.map_err(|m| Bad::new(&second, &b, a.out_str() + &a.err_str(), format!("{m} (the configuration stored: {})", WAYS[d[2]])))
		},
	);
	e.family(
		"again and again",
		"every representative run 20 (100) times over in one place",
		n,
		|r, i| {
			for _ in 0..e_times(r) {
				compare(r, i as usize, &cases[i as usize])?;
			}
			Ok(())
		},
	);
	// blocks of all shapes, at other times and with other chances
	broad::surroundings(e, &[Form::Ber, Form::BerUnsorted, Form::AutoIngenico], &|r, op, t, s| {
		let c = settings_args(op_case(op, t), s);
		let o = r.run(&c);
		let mut w = c.clone();
		w.world = format!("t{},j7,r{},p{}", t.len() * 7919, t.len() % 256, t.len() + 2);
		let x = r.run(&w);
		r.item(&c.args);
		same(&o, &x).map_err(|m| Bad::new(&w, &x, o.out_str(), m))
	});
	if blind.into_inner() {
		e.notes.push("system calls could not be filtered here: only opened files and looked-up variables were watched".into());
	}
}
fn values_of(op: model::Op) -> String {
	crate::cli::values_for(op)[0].clone()
}
fn e_times(r: &Runner) -> usize {
	if r.ctx.thorough {
		100
	} else {
		20
	}
}

fn watched(o: &Outcome, seen: &Mutex<BTreeSet<String>>, blind: &std::sync::atomic::AtomicBool) -> Result<(), String> {
	for l in String::from_utf8_lossy(&o.log).lines() {
		let Some((kind, what)) = l.split_once(' ') else { continue };
		match kind {
			"env" => {
				seen.lock().unwrap().insert(what.to_owned());
			}
			"open" => {
				let ok = ["/proc/", "/sys/", "/dev/null", "/dev/urandom", "/lib", "/usr/lib", "/usr/share", "/etc/ld.so", "/etc/terminfo"]
					.iter()
					.any(|p| what.starts_with(p))
					|| what.ends_with("pemv.toml");
				if !ok {
					return Err(format!("pemv opens {what}, which is not its configuration file"));
				}
			}
			"sys" => return Err(format!("pemv does more than print: system call {what}")),
			_ => blind.store(true, std::sync::atomic::Ordering::Relaxed),
		}
	}
	Ok(())
}
