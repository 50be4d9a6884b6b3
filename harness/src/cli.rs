//! C17, C18, C19, C22 and C25: settings, colour, robustness and the command line.

use std::path::{Path, PathBuf};

use crate::broad::{self, Form};
use crate::common::*;
use crate::engine::{digits, product, Bad, Engine, Runner, Seqs};
use crate::model::{self, expect, hex, tlv, Op, Settings, ALL_OPS};
use crate::observe::{self, Proj};
use crate::server::{Case, Outcome, Status};
use crate::spec::Sev;

// ---------------------------------------------------------------------------------------------------------
// colour

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Style {
	/// SGR codes in force since the last reset, but for the foreground
	other: Vec<String>,
	fg: Option<String>,
}
impl Style {
	fn plain(&self) -> bool {
		*self == Style::default()
	}
}
/// The text, the style of each of its characters, and the style in force at the end.
pub fn ansi(s: &str) -> Result<(String, Vec<Style>, Style), String> {
	let mut text = String::new();
	let mut styles = Vec::new();
	let mut now = Style::default();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c != '\x1b' {
			text.push(c);
			styles.push(now.clone());
			continue;
		}
		if it.next() != Some('[') {
			return Err("an escape that is no colour code".into());
		}
		let mut code = String::new();
		loop {
			match it.next() {
				Some('m') => break,
				Some(c) if c.is_ascii_digit() || c == ';' => code.push(c),
				_ => return Err("an escape that is no colour code".into()),
			}
		}
		if code.is_empty() || code == "0" {
			now = Style::default();
		} else if code.starts_with('3') || code.starts_with("9") {
			now.fg = (code != "39").then_some(code);
		} else {
			now.other.push(code);
		}
	}
	Ok((text, styles, now))
}

fn is_yellow(f: &str) -> bool {
	matches!(f, "33" | "93" | "38;5;3" | "38;5;11")
}
fn is_red(f: &str) -> bool {
	matches!(f, "31" | "91" | "38;5;1" | "38;5;9")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mark {
	Plain,
	Bold,
	Heading,
}
const HEADINGS: [&str; 12] = [
	"Raw:",
	"Parsed:",
	"* Masked *",
	"Constructed Data Object's Child Tags:",
	"Common Core Identifier:",
	"Card Verification Results:",
	"Counters: (Payment System-Specific)",
	"Issuer-Discretionary Data",
	"Cardholder Verification Rules:",
	"If any of the following match the TVR, deny the transaction without even going online:",
	"If not an online transaction and any of the following match the TVR, reject the transaction:",
	"If any of the following match the TVR, complete the transaction online:",
];
const HEADED: [&str; 7] =
	["Name:", "Class:", "Data Object Type:", "TLV Format:", "X Value:", "Y Value:", "Derivation Key Index:"];
const LABELS: [&str; 8] = [
	"Method:",
	"Condition:",
	"If Unsuccessful:",
	"Allowed Services:",
	"PIN Requirements:",
	"Authorisation Processing:",
	"Interchange:",
	"Technology:",
];
/// How each character of a line (other than a bit's explanation) is highlighted.
fn marks(t: &str) -> Vec<Mark> {
	let n = t.chars().count();
	let all = |m: Mark| vec![m; n];
	let start = |k: usize, m: Mark| -> Vec<Mark> { (0..n).map(|i| if i < k { m } else { Mark::Plain }).collect() };
	if HEADINGS.contains(&t) {
		return all(Mark::Heading);
	}
	// a line of bits: groups of eight digits
	if !t.is_empty() && t.split(' ').all(|g| g.len() == 8 && g.bytes().all(|b| b == b'0' || b == b'1')) {
		return all(Mark::Bold);
	}
	// a service code
	if n == 3 && t.bytes().all(|b| b.is_ascii_digit()) {
		return all(Mark::Bold);
	}
	if let Some(rest) = t.strip_prefix("Tag:") {
		let mut v = start(4, Mark::Heading);
		if let Some(x) = rest.find("0x") {
			for (k, c) in rest[x + 2..].chars().enumerate() {
				if !c.is_ascii_hexdigit() {
					break;
				}
				v[4 + x + 2 + k] = Mark::Bold;
			}
		}
		return v;
	}
	if let Some(h) = HEADED.iter().find(|h| t.starts_with(**h)) {
		return start(h.len(), Mark::Heading);
	}
	// the drawing in front of a part of a service code
	let bare = t.trim_start_matches(|c: char| " │├└─┘".contains(c));
	let lead = n - bare.chars().count();
	if let Some(h) = LABELS.iter().find(|h| bare.starts_with(**h)) {
		let mut v = start(lead + h.len(), Mark::Bold);
		v[..lead].fill(Mark::Plain);
		return v;
	}
	if t.strip_prefix("CVM ").and_then(|x| x.strip_suffix(':')).is_some_and(|x| x.bytes().all(|b| b.is_ascii_digit())) {
		return all(Mark::Bold);
	}
	all(Mark::Plain)
}
fn marked(s: &Style) -> Option<Mark> {
	let bold = s.other.len() == 1 && s.other[0] == "1";
	match s.fg.as_deref() {
		None if s.plain() => Some(Mark::Plain),
		None if bold => Some(Mark::Bold),
		Some("36" | "96" | "38;5;6" | "38;5;14") if bold => Some(Mark::Heading),
		_ => None,
	}
}

/// Judges coloured output against the uncoloured one, and the severities against the model.
fn judge_colour(coloured: &str, plain: &str, lines: Option<&model::Lines>) -> Result<(), String> {
	let (text, styles, end) = ansi(coloured)?;
	if text != plain {
		return Err("the coloured output is not the uncoloured one plus colour codes".into());
	}
	if !end.plain() {
		return Err(format!("the last style is left switched on: {end:?}"));
	}
	// one style at a time: what is on when another is switched on was never switched off
	if let Some(s) = styles.iter().find(|s| s.other.len() > 1) {
		return Err(format!("styles pile up: {s:?}"));
	}
	let Some(lines) = lines else {
		return Ok(());
	};
	if model::text_of(lines) != plain {
		return Ok(()); // other properties' business
	}
	let mut at = 0; // in characters
	for l in lines {
		let indent = if l.text.is_empty() { 0 } else { l.indent };
		let n = indent + l.text.chars().count() + 1;
		if let Some((off, sev)) = l.bit {
			let from = at + indent + l.text[..off].chars().count();
			for s in &styles[from..at + n - 1] {
				let ok = match sev {
					Sev::Normal => s.plain(),
					Sev::Warning => s.fg.as_deref().is_some_and(is_yellow),
					Sev::Error => s.fg.as_deref().is_some_and(is_red),
				};
				if !ok {
					return Err(format!("{:?} should be shown as {sev:?}, its style is {s:?}", l.text));
				}
			}
		}
		// all but the explanation of a bit
		let shown = l.bit.map_or(n - indent - 1, |(off, _)| l.text[..off].chars().count());
		for (k, (c, m)) in l.text.chars().zip(marks(if l.bit.is_some() { "" } else { &l.text }).into_iter().chain(std::iter::repeat(Mark::Plain))).enumerate().take(shown) {
			let s = &styles[at + indent + k];
			if c != ' ' && marked(s) != Some(m) {
				return Err(format!("{c:?} in {:?} should be {m:?}, its style is {s:?}", l.text));
			}
		}
		at += n;
	}
	Ok(())
}

fn fields_by_op() -> Vec<(Op, usize)> {
	vec![(Op::Tvr, 5), (Op::Tsi, 2), (Op::Cvr, 5)]
}

pub fn c18(e: &mut Engine) {
	let on = ["always", "ansi"];
	let run3 = |r: &mut Runner, op: Op, text: &str| -> Result<(), Bad> {
		let exp = expect(op, text.as_bytes(), &Settings::default());
		let base = op_case(op, text);
		let never = r.run(&base.clone().arg("--colour=never"));
		let auto = r.run(&base);
		r.item(&base.args);
		for (o, what) in [(&never, "off"), (&auto, "automatic and not on a terminal")] {
			if o.out.contains(&0x1b) || o.err.contains(&0x1b) {
				return Err(Bad::new(&base, o, "", format!("colour codes although colour is {what}")));
			}
		}
		if never.out != auto.out {
			return Err(Bad::new(&base, &auto, never.out_str(), "the text depends on the colour setting"));
		}
		for w in on {
			let c = base.clone().arg(format!("--colour={w}"));
			let o = r.run(&c);
			r.sample(|| format!("{} -> {:?}", c.shell("pemv"), o.out_str()));
			judge_colour(&o.out_str(), &never.out_str(), exp.result.as_ref().ok())
				.map_err(|m| Bad::new(&c, &o, never.out_str(), m))?;
			if o.err != never.err || o.status != never.status {
				return Err(Bad::new(&c, &o, never.err_str(), "the diagnostic depends on the colour setting"));
			}
			if !never.out.is_empty() && op == Op::Tvr && !o.out.contains(&0x1b) {
				return Err(Bad::new(&c, &o, "", "no colour although it is on"));
			}
		}
		Ok(())
	};
	// single bits, all bits, bits beside one another, in every position, by option and in blocks
	let mut values: Vec<(Op, String)> = Vec::new();
	for (op, n) in fields_by_op() {
		for bit in 0..n * 8 {
			let mut v = vec![0u8; n];
			v[bit / 8] |= 0x80 >> (bit % 8);
			values.push((op, hex(&v)));
			values.push((op, hex(&v.iter().map(|b| !b).collect::<Vec<_>>())));
			for other in (0..n * 8).step_by(e.pick(3, 1)) {
				let mut w = v.clone();
				w[other / 8] |= 0x80 >> (other % 8);
				values.push((op, hex(&w)));
			}
		}
	}
	for m in 0..=255u8 {
		for res in 0..3 {
			values.push((Op::CvmResults, hex(&[m, m % 11, res])));
			values.push((Op::CvmResults, hex(&[0x1F, m, res])));
		}
	}
	for (a, b) in [(0x0F, 0xA5), (0x0F, 0xA6), (0x0F, 0xA7), (0x0E, 0xA5)] {
		for k in 0..40 {
			let mut v = vec![a, b, 1];
			let mut c = [0u8; 5];
			c[k / 8] = 0x80 >> (k % 8);
			v.extend(c);
			v.extend([0; 8]);
			v.push(0x0F);
			v.extend([0; 15]);
			values.push((Op::Iad, hex(&v)));
		}
	}
	for t in [
		"0000000000000000", "00000001000000091F064203", "0000000000000000FFFF", "00",
	] {
		values.push((Op::CvmList, t.to_owned()));
	}
	for t in ["95", "9F26", "E1", "FF01", "00", "zz"] {
		values.push((Op::Identify, t.to_owned()));
	}
	for n in 0..1000 {
		if n % 10 == 0 || n < 10 || n % 111 == 0 || e.thorough() {
			values.push((Op::ServiceCode, format!("{n:03}")));
		}
	}
	e.family(
		"single values",
		"TVR, TSI, CVR: every bit alone, every bit missing, pairs of bits; CVM Results: every method and condition byte x result; IADs with each CVR bit; other operations: a few; x 4 colour settings",
		values.len() as u64,
		|r, i| {
			let (op, t) = &values[i as usize];
			run3(r, *op, t)
		},
	);
	// in blocks: each bit-field tag, each bit, at several depths, beside neighbours
	let pal = palette();
	let bits: Vec<Vec<u8>> = {
		let mut v = Vec::new();
		for (tag, n) in [
			(&[0x95][..], 5),
			(&[0x9B], 2),
			(&[0x9F, 0x33], 3),
			(&[0x9F, 0x40], 5),
			(&[0x9F, 0x0D], 5),
			(&[0x9F, 0x0E], 5),
			(&[0x9F, 0x0F], 5),
		] {
			for bit in 0..n * 8 {
				let mut x = vec![0u8; n];
				x[bit / 8] |= 0x80 >> (bit % 8);
				v.push(tlv(tag, &x));
			}
			v.push(tlv(tag, &vec![0xFF; n]));
			v.push(tlv(tag, &vec![0x00; n]));
		}
		for res in 0..3 {
			v.push(tlv(&[0x9F, 0x34], &[0x5F, 0x03, res]));
		}
		v
	};
	e.family(
		"bits inside blocks",
		"every bit of 7 bit-field tags and 3 CVM Results, at depth 0, 1 and 3, alone and before an error bit of a TVR",
		bits.len() as u64 * 3 * 2,
		|r, i| {
			let d = digits(i, &[bits.len() as u64, 3, 2]);
			let mut b = bits[d[0]].clone();
			if d[2] == 1 {
				b.extend(tlv(&[0x95], &[0x48, 0, 0, 0, 0]));
			}
			for _ in 0..[0, 1, 3][d[1]] {
				b = tlv(&[0xE1], &b);
			}
			run3(r, Op::Ber, &hex(&b))
		},
	);
	let q = Seqs {
		k: pal.len() as u64,
		lo: 1,
		hi: e.pick(1, 2),
	};
	e.family(
		"object sequences",
		"every sequence of palette objects up to the bound in three ways: BER, nested and detected automatically, Ingenico",
		q.count() * 3,
		|r, i| {
			let v = q.get(i / 3);
			let b: Vec<u8> = v.iter().flat_map(|x| pal[*x].1.clone()).collect();
			match i % 3 {
				0 => run3(r, Op::Ber, &hex(&b)),
				1 => run3(r, Op::Auto, &hex(&tlv(&[0xE1], &tlv(&[0x6F], &b)))),
				_ => {
					let f: Vec<String> = v
						.iter()
						.map(|x| {
							let (t, v) = split_tlv(&pal[*x].1);
							ingenico(&t, &v)
						})
						.collect();
					run3(r, Op::Auto, &f.join(" "))
				}
			}
		},
	);
	broad::surroundings(e, &[Form::Ber, Form::Nested, Form::AutoIngenico], &|r, op, t, s| {
		let exp = expect(op, t.as_bytes(), s);
		let base = settings_args(op_case(op, t), s);
		let never = r.run(&base.clone().arg("--colour=never"));
		let c = base.arg("--colour=always");
		let o = r.run(&c);
		r.item(&c.args);
		judge_colour(&o.out_str(), &never.out_str(), exp.result.as_ref().ok())
			.map_err(|m| Bad::new(&c, &o, never.out_str(), m))?;
		if o.err != never.err || o.status != never.status {
			return Err(Bad::new(&c, &o, never.err_str(), "the diagnostic depends on the colour setting"));
		}
		Ok(())
	});
	e.family(
		"refused inputs",
		"every operation with values of 0..8 bytes it refuses or not, under every colour setting",
		11 * 9,
		|r, i| {
			let d = digits(i, &[11, 9]);
			let t = if d[1] == 0 { "zz".to_owned() } else { hex(&vec![0xEE; d[1]]) };
			run3(r, ALL_OPS[d[0]], &t)
		},
	);
	// colour from the other sources, off a terminal
	e.family(
		"other sources",
		"each colour setting by environment and by spelling, with NO_COLOR and TERM set or not",
		4 * 3 * 4 * 4,
		|r, i| {
			let d = digits(i, &[4, 3, 4, 4]);
			let w = ["auto", "always", "ansi", "never"][d[0]];
			let text = hex(&[tlv(&[0x95], &[0xFF; 5]), tlv(&[0xE1], &tlv(&[0x50], b"V"))].concat());
			let mut c = op_case(Op::Ber, &text);
			c = match d[1] {
				0 => c.arg("--colour").arg(w),
				1 => c.arg(format!("--color={w}")),
				_ => c.env("PEMV_CLI_COLOUR", w),
			};
			if d[2] & 1 == 1 {
				c = c.env("NO_COLOR", "1");
			}
			if d[2] & 2 == 2 {
				c = c.env("CLICOLOR_FORCE", "1");
			}
			if d[3] > 0 {
				c = c.env("TERM", ["", "dumb", "xterm", "xterm-256color"][d[3]]);
			}
			let plain = expect(Op::Ber, text.as_bytes(), &Settings::default());
			let o = r.run(&c);
			r.item(&c);
			let coloured = d[0] == 1 || d[0] == 2;
			if o.out.contains(&0x1b) != coloured {
				return Err(Bad::new(&c, &o, "", format!("colour codes expected: {coloured}")));
			}
			if !coloured && o.out_str() != plain.stdout() {
				return Err(Bad::new(&c, &o, plain.stdout(), "the plain text differs"));
			}
			if coloured {
				judge_colour(&o.out_str(), &plain.stdout(), plain.result.as_ref().ok())
					.map_err(|m| Bad::new(&c, &o, plain.stdout(), m))?;
			}
			Ok(())
		},
	);
	// on a terminal
	let tty_values: Vec<(Op, String)> = values
		.iter()
		.step_by(e.pick(97, 11))
		.cloned()
		.chain(pal.iter().map(|p| (Op::Auto, hex(&p.1))))
		.chain(bits.iter().step_by(e.pick(7, 1)).map(|b| (Op::Ber, hex(b))))
		.collect();
	let terms = ["", "dumb", "xterm"];
	let missing = std::sync::atomic::AtomicBool::new(false);
	e.family(
		"on a terminal",
		"a spread of the values above x automatic, always, never x TERM unset, dumb, xterm, on a pseudo-terminal",
		tty_values.len() as u64 * 9,
		|r, i| {
			let d = digits(i, &[tty_values.len() as u64, 3, 3]);
			let (op, t) = &tty_values[d[0]];
			let w = ["auto", "always", "never"][d[1]];
			let mut c = op_case(*op, t).arg(format!("--colour={w}"));
			if d[2] > 0 {
				c = c.env("TERM", terms[d[2]]);
			}
			let plain = r.run(&op_case(*op, t).arg("--colour=never"));
			let want = r.run(&op_case(*op, t).arg("--colour=always"));
			let Some(o) = r.run_tty(&c) else {
				missing.store(true, std::sync::atomic::Ordering::Relaxed);
				return Ok(());
			};
			r.item(&(&c.args, &c.env, "tty"));
			let exp = expect(*op, t.as_bytes(), &Settings::default());
			let coloured = match d[1] {
				0 => d[2] == 2,
				1 => true,
				_ => false,
			};
			if coloured {
				judge_colour(&o.out_str(), &plain.out_str(), exp.result.as_ref().ok())
					.map_err(|m| Bad::new(&c, &o, plain.out_str(), format!("on a terminal: {m}")))?;
			}
			let want = if coloured { &want } else { &plain };
			if o.out != want.out {
				return Err(Bad::new(
					&c,
					&o,
					want.out_str(),
					format!("on a terminal (TERM={:?}) with --colour={w}: wrong colours", terms[d[2]]),
				));
			}
			Ok(())
		},
	);
	if missing.into_inner() {
		e.notes.push("no pseudo-terminal was available: the terminal cases were skipped".into());
	}
}

// ---------------------------------------------------------------------------------------------------------
// configuration

/// One source's values; None: says nothing.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Layer {
	colour: Option<bool>,
	masks: Option<Vec<char>>,
	sort: Option<bool>,
}
impl Layer {
	fn is_empty(&self) -> bool {
		*self == Layer::default()
	}
	fn toml(&self) -> String {
		let mut s = String::new();
		if let Some(c) = self.colour {
			s += &format!("cli_colour = \"{}\"\n", if c { "always" } else { "never" });
		}
		if let Some(m) = &self.masks {
			let v: Vec<String> = m.iter().map(|c| format!("\"{c}\"")).collect();
			s += &format!("masking_characters = [{}]\n", v.join(", "));
		}
		if let Some(b) = self.sort {
			s += &format!("sort_parsed_tags = {b}\n");
		}
		s
	}
	fn env(&self, mut c: Case) -> Case {
		if let Some(b) = self.colour {
			c = c.env("PEMV_CLI_COLOUR", if b { "ansi" } else { "never" });
		}
		if let Some(m) = &self.masks {
			let v: Vec<String> = m.iter().map(|c| format!("\"{c}\"")).collect();
			c = c.env("PEMV_MASKING_CHARACTERS", &format!("[{}]", v.join(",")));
		}
		if let Some(b) = self.sort {
			c = c.env("PEMV_SORT_PARSED_TAGS", &b.to_string());
		}
		c
	}
	fn cli(&self, mut c: Case) -> Case {
		if let Some(b) = self.colour {
			c = c.arg(format!("--colour={}", if b { "always" } else { "never" }));
		}
		for m in self.masks.iter().flatten() {
			c = c.arg(format!("--masking-character={m}"));
		}
		match self.sort {
			Some(true) => c = c.arg("--sort-parsed-tags=true"),
			Some(false) => c = c.arg("--no-sort-parsed-tags"),
			None => (),
		}
		c
	}
}
/// The effective settings: the first layer that says something wins, then the defaults.
fn effective(layers: &[&Layer]) -> (bool, Settings) {
	let d = Settings::default();
	(
		layers.iter().find_map(|l| l.colour).unwrap_or(false),
		Settings {
			masks: layers.iter().find_map(|l| l.masks.clone()).unwrap_or(d.masks),
			sort: layers.iter().find_map(|l| l.sort).unwrap_or(d.sort),
		},
	)
}
/// A block that shows every setting: out of order, and one value for each masking character used.
fn probe() -> String {
	let mut b = tlv(&[0x9F, 0x4B], &[1]);
	for m in "*X#Z+%".bytes() {
		b.extend(tlv(&[0xC1], &[m; 3]));
	}
	b.extend(tlv(&[0x5A], &[2]));
	b.extend(tlv(&[0x42], &[3]));
	hex(&b)
}
const SETTINGS_SHOWN: Proj = Proj {
	order: true,
	size: false,
	value: false,
	name: false,
	masked: true,
	parsed: false,
	kids: false,
	dump: false,
};
fn judge_settings(o: &Outcome, coloured: bool, s: &Settings) -> Result<(), String> {
	if o.out.contains(&0x1b) != coloured {
		return Err(format!("colour should be {}", if coloured { "on" } else { "off" }));
	}
	let mut plain = o.clone();
	plain.out = ansi(&o.out_str())?.0.into_bytes();
	let exp = expect(Op::Ber, probe().as_bytes(), s);
	judge_tlv(Op::Ber, &exp, &plain, SETTINGS_SHOWN).map_err(|m| format!("effective settings should be {s:?}: {m}"))
}
fn write_file(p: &Path, text: &[u8]) {
	if let Some(d) = p.parent() {
		std::fs::create_dir_all(d).expect("scratch directory");
	}
	std::fs::write(p, text).expect("scratch file");
}

const PROFILE: &str = "prof";
#[derive(Clone, Debug, Default, Hash)]
struct FileText {
	global: Layer,
	selected: Layer,
	default: Layer,
	/// a section that is never selected
	other: Layer,
}
impl FileText {
	fn text(&self, order: usize) -> String {
		let mut parts = Vec::new();
		for (name, l) in [
			("global", &self.global),
			(PROFILE, &self.selected),
			("default", &self.default),
			("other", &self.other),
		] {
			if !l.is_empty() {
				parts.push(format!("[{name}]\n{}", l.toml()));
			}
		}
		if order == 1 {
			parts.reverse();
		}
		parts.join("\n")
	}
}

/// Where the file stands, and how it is found.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
	Named,
	NamedRelative,
	Cwd,
	Parent,
	Grandparent,
}
const PLACES: [Place; 5] = [Place::Named, Place::NamedRelative, Place::Cwd, Place::Parent, Place::Grandparent];

struct Tree {
	root: PathBuf,
	cwd: PathBuf,
}
impl Tree {
	/// A fresh directory for one configuration, so that nothing is left over from another.
	fn new(r: &Runner) -> Tree {
		let root = r.dir().join("cfg");
		let _ = std::fs::remove_dir_all(&root);
		let cwd = root.join("a/b");
		std::fs::create_dir_all(&cwd).expect("scratch directory");
		Tree { root, cwd }
	}
	fn put(&self, place: Place, text: &[u8]) {
		let p = match place {
			Place::Named => self.root.join("elsewhere/my.toml"),
			Place::NamedRelative => self.cwd.join("rel.toml"),
			Place::Cwd => self.cwd.join("pemv.toml"),
			Place::Parent => self.root.join("a/pemv.toml"),
			Place::Grandparent => self.root.join("pemv.toml"),
		};
		write_file(&p, text);
	}
	fn apply(&self, place: Place, c: Case) -> Case {
		let mut c = match place {
			Place::Named => c.env("PEMV_CONFIG", &self.root.join("elsewhere/my.toml").to_string_lossy()),
			Place::NamedRelative => c.env("PEMV_CONFIG", "rel.toml"),
			_ => c,
		};
		c.cwd = self.cwd.to_string_lossy().into_owned();
		c
	}
}
fn describe_files(t: &Tree) -> String {
	let mut s = String::new();
	fn walk(d: &Path, s: &mut String) {
		for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				walk(&p, s);
			} else {
				*s += &format!(
					"file {}:\n{}\n",
					p.display(),
					String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default())
				);
			}
		}
	}
	walk(&t.root, &mut s);
	s
}

/// What a setting is given as by one source, 0: not at all.
fn layer_of(setting: usize, v: usize, source: usize) -> Layer {
	let mut l = Layer::default();
	if v == 0 {
		return l;
	}
	match setting {
		0 => l.colour = Some(v == 1),
		1 => {
			// the two values of each source differ from those of every other
			let sets: [&[char]; 2] = [
				[&['X'][..], &['#'], &['Z'], &['+'], &['%']][source],
				[&['X', '#'][..], &['#', 'Z'], &['Z', '+'], &['+', '%'], &['%', 'X']][source],
			];
			l.masks = Some(sets[v - 1].to_vec());
		}
		_ => l.sort = Some(v == 1),
	}
	l
}
fn join(a: Layer, b: Layer) -> Layer {
	Layer {
		colour: a.colour.or(b.colour),
		masks: a.masks.or(b.masks),
		sort: a.sort.or(b.sort),
	}
}

pub fn c17(e: &mut Engine) {
	// profile: 0 default, 1 selected, 2 one the file does not have
	let run = |r: &mut Runner,
	           cli: &Layer,
	           env: &Layer,
	           file: &FileText,
	           profile: usize,
	           place: Place,
	           order: usize|
	 -> Result<(), Bad> {
		let t = Tree::new(r);
		t.put(place, file.text(order).as_bytes());
		let mut c = t.apply(place, Case::new(&["-b", &probe()]));
		c = env.env(c);
		match profile {
			1 => c = c.env("PEMV_PROFILE", PROFILE),
			2 => c = c.env("PEMV_PROFILE", "nosuchprofile"),
			_ => (),
		}
		c = cli.cli(c);
		let none = Layer::default();
		let selected = if profile == 1 { &file.selected } else { &none };
		let (coloured, s) = effective(&[cli, env, &file.global, selected, &file.default]);
		let o = r.run(&c);
		r.item(&(cli, env, file, profile, place, order));
		for _ in 0..5 {
			model::step();
		}
		r.sample(|| format!("{}\nwith {}", c.shell("pemv"), describe_files(&t)));
		judge_settings(&o, coloured, &s)
			.map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {s:?}\n{}", describe_files(&t)), m))
	};
	// each setting by itself: every combination of sources and values
	let places = e.pick(2u64, 5);
	let radix = [3, 3, 3, 3, 3, 3, 3, places];
	e.family(
		"one setting, every source",
		"each of 3 settings x absent or one of two values on the command line, in the environment, in the global, selected and default sections x 3 profiles x 2 (5) file locations",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let l = |k: usize| layer_of(d[0], d[k + 1], k);
			let file = FileText {
				global: l(2),
				selected: l(3),
				default: l(4),
				other: layer_of(d[0], 1 + (d[5] + d[4]) % 2, 3),
			};
			let place = if places == 2 {
				PLACES[(d[7] * 2 + (i / 2) as usize % 3) % 5]
			} else {
				PLACES[d[7]]
			};
			run(r, &l(0), &l(1), &file, d[6], place, (i % 2) as usize)
		},
	);
	// the command line's spellings, also of what is the default anyway, over the other sources
	let spellings: Vec<(Vec<&str>, Layer)> = {
		let sort = |b: bool| Layer {
			sort: Some(b),
			..Layer::default()
		};
		let masks = |m: &str| Layer {
			masks: Some(m.chars().collect()),
			..Layer::default()
		};
		let colour = |b: bool| Layer {
			colour: Some(b),
			..Layer::default()
		};
		vec![
			(vec!["--sort"], sort(true)),
			(vec!["--sort=true"], sort(true)),
			(vec!["--sort", "true"], sort(true)),
			(vec!["--sort=false"], sort(false)),
			(vec!["--sort-parsed-tags"], sort(true)),
			(vec!["--sort-parsed-tags=true"], sort(true)),
			(vec!["--sort-parsed-tags", "false"], sort(false)),
			(vec!["--no-sort"], sort(false)),
			(vec!["--no-sort=true"], sort(false)),
			(vec!["--no-sort=false"], sort(true)),
			(vec!["--no-sort", "false"], sort(true)),
			(vec!["--no-sort-parsed-tags"], sort(false)),
			(vec!["--no-sort-parsed-tags=false"], sort(true)),
			(vec!["--no-sort-parsed-tags", "true"], sort(false)),
			(vec!["-m*"], masks("*")),
			(vec!["-m", "*"], masks("*")),
			(vec!["-m", "X"], masks("X")),
			(vec!["-m", "X", "#"], masks("X#")),
			(vec!["-mX", "-m#"], masks("X#")),
			(vec!["--masking=*"], masks("*")),
			(vec!["--masking", "Z", "X", "--masking-char=+"], masks("ZX+")),
			(vec!["--masking-character=Z"], masks("Z")),
			(vec!["--masking-char", "*"], masks("*")),
			(vec!["--colour=auto"], colour(false)),
			(vec!["--colour", "auto"], colour(false)),
			(vec!["--color=auto"], colour(false)),
			(vec!["--color", "never"], colour(false)),
			(vec!["--colour=ansi"], colour(true)),
			(vec!["--colour", "always"], colour(true)),
		]
	};
	let radix = [spellings.len() as u64, 3, 3, 3, 3];
	e.family(
		"spellings over other sources",
		"29 ways to give a setting on the command line (the defaults among them) x absent or one of two values in the environment, in the global, selected and default sections",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (args, top) = &spellings[d[0]];
			let setting = if top.colour.is_some() {
				0
			} else if top.masks.is_some() {
				1
			} else {
				2
			};
			let l = |k: usize| layer_of(setting, d[k], k);
			let (env, file) = (
				l(1),
				FileText {
					global: l(2),
					selected: l(3),
					default: l(4),
					other: Layer::default(),
				},
			);
			let t = Tree::new(r);
			t.put(Place::Cwd, file.text(0).as_bytes());
			let mut c = env.env(t.apply(Place::Cwd, Case::new(&["-b", &probe()]))).env("PEMV_PROFILE", PROFILE);
			for a in args {
				c = c.arg(*a);
			}
			let (coloured, s) = effective(&[top, &env, &file.global, &file.selected, &file.default]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, coloured, &s)
				.map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {s:?}\n{}", describe_files(&t)), m))
		},
	);
	// what is overridden does not matter, not even when it is invalid
	let invalid: [&[(&str, &str)]; 3] = [
		&[("\"green\"", "green"), ("5", "5"), ("true", "true"), ("\"\"", " "), ("[\"never\"]", "[never]"), ("\"alway\"", "alway"), ("{ a = 1 }", "{a=1}")],
		&[("\"X\"", "X"), ("5", "5"), ("[\"XY\"]", "[XY]"), ("[\"\"]", "[\"\"]"), ("true", "false"), ("[[\"X\"]]", "[[X]]"), ("{ a = 1 }", "{a=1}")],
		&[("\"yes\"", "yes"), ("5", "5"), ("[true]", "[true]"), ("\"\"", " "), ("1.0", "1.0"), ("\"maybe\"", "maybe"), ("{ a = 1 }", "{a=1}")],
	];
	// the source of the value that holds; of the lower ones any may be invalid, each absent, valid or invalid
	let radix = [3, 7, 4, 3, 3, 3, 3, 2, e.pick(2, 5)];
	e.family(
		"invalid values beneath the one that holds",
		"each setting x 7 invalid values x the source of the valid value that holds x each lower source absent, valid or invalid x both values x 2 (5) file locations: the one that holds holds",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (s, (bad_file, bad_env), top) = (d[0], invalid[d[0]][d[1]], d[2]);
			// sources at or above the one that holds have no choice, and something must be invalid
			if (0..4).any(|k| k < top && d[3 + k] != 0) || (0..4).all(|k| d[3 + k] != 2) {
				return Ok(());
			}
			let key = ["cli_colour", "masking_characters", "sort_parsed_tags"][s];
			let var = ["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS"][s];
			let holds = layer_of(s, 1 + d[7], top);
			let valid = |k: usize| if k == top { Some(layer_of(s, 1 + d[7], k)) } else if k > top && d[2 + k] == 1 { Some(layer_of(s, 2 - d[7], k)) } else { None };
			let wrong = |k: usize| k > top && d[2 + k] == 2;
			let mut text = String::new();
			for (k, name) in [(4, "default"), (3, PROFILE), (2, "global")] {
				if let Some(l) = valid(k) {
					text += &format!("[{name}]\n{}\n", l.toml());
				} else if wrong(k) {
					text += &format!("[{name}]\n{key} = {bad_file}\n");
				}
			}
			let place = if radix[8] == 2 { [Place::Cwd, Place::Named][d[8]] } else { PLACES[d[8]] };
			let t = Tree::new(r);
			t.put(place, text.as_bytes());
			let mut c = t.apply(place, Case::new(&["-b", &probe()])).env("PEMV_PROFILE", PROFILE);
			if let Some(l) = valid(1) {
				c = l.env(c);
			} else if wrong(1) {
				c = c.env(var, bad_env);
			}
			if top == 0 {
				c = holds.cli(c);
			}
			let (coloured, set) = effective(&[&holds]);
			let o = r.run(&c);
			r.item(&d);
			r.sample(|| format!("{}\nwith {}", c.shell("pemv"), describe_files(&t)));
			model::step();
			judge_settings(&o, coloured, &set)
				.map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {set:?}\n{}", describe_files(&t)), format!("an overridden value matters: {m}")))
		},
	);
	// the settings jointly: which of them each source gives
	let radix = [8, 8, 8, 8, e.pick(1, 8)];
	e.family(
		"settings jointly",
		"every subset of settings on the command line x in the environment x in the global section x in the selected one (x in the default one)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let l = |k: usize, bits: usize| {
				let mut x = Layer::default();
				for s in 0..3 {
					if bits >> s & 1 == 1 {
						x = join(x, layer_of(s, 1 + (k + s) % 2, k));
					}
				}
				x
			};
			let file = FileText {
				global: l(2, d[2]),
				selected: l(3, d[3]),
				default: l(4, d[4]),
				other: Layer::default(),
			};
			run(r, &l(0, d[0]), &l(1, d[1]), &file, 1, PLACES[(i % 5) as usize], 0)
		},
	);
	// which file is read
	e.family(
		"which file",
		"every subset of the five locations holding a file (with a value of its own) x named absolutely, relatively or not at all",
		32 * 3,
		|r, i| {
			let d = digits(i, &[32, 3]);
			let t = Tree::new(r);
			for (k, p) in PLACES.iter().enumerate() {
				if d[0] >> k & 1 == 1 {
					let l = layer_of(1, 1, k);
					t.put(*p, format!("[default]\n{}", l.toml()).as_bytes());
				}
			}
			let how = [Place::Named, Place::NamedRelative, Place::Cwd][d[1]];
			let has = |p: Place| d[0] >> PLACES.iter().position(|x| *x == p).unwrap() & 1 == 1;
			// a file that is named but missing: not decided by the property
			if how != Place::Cwd && !has(how) {
				return Ok(());
			}
			let read = if how == Place::Cwd {
				[Place::Cwd, Place::Parent, Place::Grandparent].into_iter().find(|p| has(*p))
			} else {
				Some(how)
			};
			let l = match read {
				Some(p) => layer_of(1, 1, PLACES.iter().position(|x| *x == p).unwrap()),
				None => Layer::default(),
			};
			let c = t.apply(how, Case::new(&["-b", &probe()]));
			let o = r.run(&c);
			r.item(&(d[0], d[1]));
			model::step();
			let (coloured, s) = effective(&[&l]);
			judge_settings(&o, coloured, &s)
				.map_err(|m| Bad::new(&c, &o, format!("{s:?}\n{}", describe_files(&t)), m))
		},
	);
	// every colour word from every source; several masking characters in every way
	let words = ["always", "ansi", "auto", "never"];
	e.family(
		"every colour word",
		"each of 4 words on the command line over each of 4 in the environment over each of 4 in the file, each present or not",
		5 * 5 * 5,
		|r, i| {
			let d = digits(i, &[5, 5, 5]);
			let t = Tree::new(r);
			if d[2] > 0 {
				t.put(Place::Cwd, format!("[default]\ncli_colour = \"{}\"\n", words[d[2] - 1]).as_bytes());
			}
			let mut c = t.apply(Place::Cwd, Case::new(&["-b", &probe()]));
			if d[1] > 0 {
				c = c.env("PEMV_CLI_COLOUR", words[d[1] - 1]);
			}
			if d[0] > 0 {
				c = c.arg("--colour").arg(words[d[0] - 1]);
			}
			let word = d.iter().find(|x| **x > 0).map_or("auto", |x| words[*x - 1]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, matches!(word, "always" | "ansi"), &Settings::default())
				.map_err(|m| Bad::new(&c, &o, format!("{word}\n{}", describe_files(&t)), m))
		},
	);
	let chars = ['*', 'X', '#', 'Z', '+', '%'];
	e.family(
		"every set of masking characters",
		"every subset of 6 characters from each source, others giving something else (an empty set only where it can be given)",
		64 * 3,
		|r, i| {
			let d = digits(i, &[64, 3]);
			let m: Vec<char> = chars
				.iter()
				.enumerate()
				.filter(|(k, _)| d[0] >> k & 1 == 1)
				.map(|(_, c)| *c)
				.collect();
			let l = Layer {
				masks: Some(m),
				..Layer::default()
			};
			let no = Layer::default();
			let decoy = layer_of(1, 1, 2);
			match d[1] {
				0 if d[0] == 0 => Ok(()),
				0 => run(
					r,
					&l,
					&decoy,
					&FileText {
						default: layer_of(1, 2, 3),
						..FileText::default()
					},
					0,
					Place::Cwd,
					0,
				),
				1 => run(
					r,
					&no,
					&l,
					&FileText {
						global: decoy.clone(),
						..FileText::default()
					},
					0,
					Place::Named,
					0,
				),
				_ => run(
					r,
					&no,
					&no,
					&FileText {
						selected: l.clone(),
						default: decoy.clone(),
						..FileText::default()
					},
					1,
					Place::Cwd,
					0,
				),
			}
		},
	);
	let mq = Seqs { k: 5, lo: 1, hi: e.pick(3, 4) };
	e.family(
		"every sequence of masking characters",
		"every sequence of up to 3 (4) of 5 characters (the default one among them, repeats too) from each source, over a lower source giving others",
		mq.count() * 5,
		|r, i| {
			let m: Vec<char> = mq.get(i / 5).iter().map(|x| ['*', 'X', '#', 'Z', '+'][*x]).collect();
			let l = Layer {
				masks: Some(m),
				..Layer::default()
			};
			let no = Layer::default();
			let decoy = layer_of(1, 1 + (i / 5 % 2) as usize, 4);
			let f = FileText::default();
			match i % 5 {
				0 => run(r, &l, &decoy, &f, 0, Place::Cwd, 0),
				1 => run(r, &no, &l, &FileText { default: decoy, ..f }, 0, Place::Cwd, 0),
				2 => run(r, &no, &no, &FileText { global: l, default: decoy, ..f }, 0, Place::Cwd, 0),
				3 => run(r, &no, &no, &FileText { selected: l, default: decoy, ..f }, 1, Place::Cwd, 0),
				_ => run(r, &no, &no, &FileText { default: l, selected: decoy, ..f }, 0, Place::Cwd, 0),
			}
		},
	);
	many_masks(e);
	// what a profile may be called
	let names = [
		"prof", "p", "a-b", "my-prof", "-x", "x-", "--", "a.b", "a b", " a", "a_b", "_", "1", "0x", "42", "true", "staging2",
		"PROD", "Prod", "pRoD", "debug", "release", "defaults", "globals", "cli", "pemv", "é", "профиль", "💳", "a/b", "a=b", "very-long-name-of-a-profile-that-goes-on",
	];
	let radix = [names.len() as u64, 3, 2, 2];
	e.family(
		"names of profiles",
		"32 names (with dashes, dots, blanks, digits, capitals and letters beyond ASCII) x each setting x found in the working directory or named x a default section or none",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let name = names[d[0]];
			let mine = layer_of(d[1], 1 + d[0] % 2, 3);
			let def = if d[3] == 1 { layer_of(d[1], 2 - d[0] % 2, 4) } else { Layer::default() };
			let t = Tree::new(r);
			let mut text = String::new();
			if d[3] == 1 {
				text += &format!("[default]\n{}\n", def.toml());
			}
			// another section whose name begins or ends in the same way
			text += &format!("[\"{name}z\"]\n{}\n", layer_of(d[1], 2 - d[0] % 2, 2).toml());
			text += &format!("[\"{name}\"]\n{}\n", mine.toml());
			let place = [Place::Cwd, Place::Named][d[2]];
			t.put(place, text.as_bytes());
			let c = t
				.apply(place, Case::new(&["-b", &probe()]))
				.env("PEMV_PROFILE", name);
			let (coloured, s) = effective(&[&mine, &def]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, coloured, &s)
				.map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {s:?}\n{}", describe_files(&t)), m))
		},
	);
	// the nearest file among the directories above
	let deep = e.pick(7usize, 12);
	let radix = [deep as u64 + 1, deep as u64 + 1, 3];
	e.family(
		"the nearest file",
		"every pair of a nearer and a farther directory above the working one, up to 7 (12) levels, x what lies between: nothing, a directory called pemv.toml, files of similar names",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if d[0] > d[1] {
				return Ok(());
			}
			let t = Tree::new(r);
			let up = |k: usize| -> PathBuf {
				let mut p = t.root.clone();
				for level in 0..deep - k {
					p = p.join(format!("d{level}"));
				}
				p
			};
			std::fs::create_dir_all(up(0)).expect("scratch directory");
			let (near, far) = (layer_of(1, 1, 0), layer_of(1, 1, 1));
			// the nearer one gives only sorting when both are there: nothing of the other is taken
			let near = if d[2] == 1 { layer_of(2, 2, 0) } else { near };
			write_file(&up(d[1]).join("pemv.toml"), format!("[default]\n{}", far.toml()).as_bytes());
			write_file(&up(d[0]).join("pemv.toml"), format!("[default]\n{}", near.toml()).as_bytes());
			if d[2] == 2 {
				for k in 0..d[0] {
					for n in ["Pemv.toml", "pemv.toml.bak", ".pemv.toml", "pemv.tom", "pemv"] {
						write_file(&up(k).join(n), format!("[default]\n{}", layer_of(1, 1, 3).toml()).as_bytes());
					}
				}
			}
			let mut c = Case::new(&["-b", &probe()]);
			c.cwd = up(0).to_string_lossy().into_owned();
			let (coloured, s) = effective(&[&near]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, coloured, &s)
				.map_err(|m| Bad::new(&c, &o, format!("{s:?}\n{}", describe_files(&t)), m))
		},
	);
	// the same three settings in TOML's own ways
	let want = Layer {
		colour: Some(true),
		masks: Some(vec!['X', '#']),
		sort: Some(false),
	};
	let ways: Vec<String> = {
		let (c, m, s) = (r##"cli_colour = "always""##, r##"masking_characters = ["X", "#"]"##, "sort_parsed_tags = false");
		vec![
			format!("[default]\n{c}\n{m}\n{s}\n"),
			format!("[default]\n{s}\n{m}\n{c}"),
			format!("[default]\r\n{c}\r\n{m}\r\n{s}\r\n"),
			format!("# a note\n\n\n[default] # here\n  {c} # colour\n\t{m}\n{s}# sorting\n\n"),
			format!("[global]\n{c}\n{m}\n{s}\n"),
			format!("[global]\n{c}\n[default]\n{m}\n{s}\n"),
			format!("[default]\n{m}\n{s}\n[global]\n{c}\n"),
			r##"default = { cli_colour = "always", masking_characters = ["X", "#"], sort_parsed_tags = false }"##.to_owned(),
			"default.cli_colour = \"always\"\ndefault.masking_characters = [\"X\", \"#\"]\ndefault.sort_parsed_tags = false\n".to_owned(),
			format!("[\"default\"]\n{c}\n{m}\n{s}\n"),
			format!("['default']\n{c}\n{m}\n{s}\n"),
			format!("[ default ]\n{c}\n{m}\n{s}\n"),
			format!("[default]\ncli_colour='always'\nmasking_characters=['X','#']\nsort_parsed_tags=false"),
			format!("[default]\n\"cli_colour\" = \"\"\"always\"\"\"\n'masking_characters' = [\"\"\"X\"\"\", '''#''']\n{s}"),
			format!("[default]\n{c}\nmasking_characters = [\n  \"X\", # one\n\n  \"#\",\n]\n{s}\n"),
			format!("[default]\n{c}\nmasking_characters = [ \"\\u0058\", \"\\U00000023\", ]\n{s}\n"),
			format!("[default]\n{c}\n{m}\n{s}\nunknown = 5\nother = [1, 2]\n"),
			format!("[default]\n{c}\n{m}\n{s}\n[default.more]\nsort_parsed_tags = true\n"),
			format!("[other]\nsort_parsed_tags = true\nx = 1979-05-27\n[default]\n{c}\n{m}\n{s}\n[zzz]\ncli_colour = \"never\"\n"),
			format!("[default]\ncli_colour = \"ansi\"\n{m}\n{s}\n"),
			format!("\n\n\n[default]\n{c}\n{m}\n{s}\n{}", "# filler\n".repeat(2000)),
		]
	};
	let radix = [ways.len() as u64, 5, 8, 2];
	e.family(
		"ways to write a file",
		"21 ways to write the same settings in TOML x 5 locations x every subset of the settings given by the environment or the command line",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut top = Layer::default();
			for k in 0..3 {
				if d[2] >> k & 1 == 1 {
					// not what the file says
					top = join(top, layer_of(k, [2, 2, 1][k], 2));
				}
			}
			let t = Tree::new(r);
			t.put(PLACES[d[1]], ways[d[0]].as_bytes());
			let mut c = t.apply(PLACES[d[1]], Case::new(&["-b", &probe()]));
			c = if d[3] == 0 { top.env(c) } else { top.cli(c) };
			let (coloured, s) = effective(&[&top, &want]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, coloured, &s)
				.map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {s:?}\n{}", describe_files(&t)), m))
		},
	);
	// the other operations obey the same settings
	e.family(
		"every operation",
		"each operation with colour set in each source; automatic and Ingenico parsing with masks and sorting set in each source",
		11 * 4 * 2,
		|r, i| {
			let d = digits(i, &[11, 4, 2]);
			let op = ALL_OPS[d[0]];
			let text = match op {
				Op::Tvr | Op::Cvr => "8000000000".to_owned(),
				Op::Iad => format!("0FA501{}0F{}", "00".repeat(13), "00".repeat(15)),
				Op::Tsi => "E800".to_owned(),
				Op::CvmResults => "420302".to_owned(),
				Op::CvmList => "00000000000000001F00".to_owned(),
				Op::Identify => "9F26".to_owned(),
				Op::Auto | Op::Ber => probe(),
				Op::Ingenico => "T9F4B:01:a1 TC1:03:aXXX TC1:03:h###### T5A:03:a***".to_owned(),
				Op::ServiceCode => "201".to_owned(),
			};
			let l = Layer {
				colour: Some(d[2] == 1),
				masks: op.is_tlv().then(|| vec!['X', '#']),
				sort: op.is_tlv().then_some(d[2] == 0),
			};
			let t = Tree::new(r);
			let mut c = t.apply(Place::Cwd, op_case(op, &text));
			match d[1] {
				0 => c = l.cli(c),
				1 => c = l.env(c),
				2 => t.put(Place::Cwd, format!("[default]\n{}", l.toml()).as_bytes()),
				_ => t.put(Place::Parent, format!("[global]\n{}", l.toml()).as_bytes()),
			}
			let s = effective(&[&l]).1;
			let exp = expect(op, text.as_bytes(), &s);
			let o = r.run(&c);
			r.item(&d);
			let go = || -> Result<(), String> {
				if op.is_tlv() || d[2] == 0 {
					// not every breakdown has something to colour
					if d[2] == 0 && o.out.contains(&0x1b) || d[2] == 1 && !o.out.contains(&0x1b) {
						return Err("the colour setting has no effect".into());
					}
				}
				if op.is_tlv() {
					let mut p = o.clone();
					p.out = ansi(&o.out_str())?.0.into_bytes();
					judge_tlv(op, &exp, &p, SETTINGS_SHOWN)?;
				}
				Ok(())
			};
			go().map_err(|m| Bad::new(&c, &o, format!("{}\n{}", exp.stdout(), describe_files(&t)), m))
		},
	);
	// what the file is called
	let mut names: Vec<String> = Vec::new();
	for c in (0x20u8..0x7F).map(|c| c as char).chain(['\t', '\n', '\u{1}', '\u{7f}', 'é', 'ß', '\u{301}', '漢', '😀', '\u{200b}', '\u{feff}']) {
		if c == '/' {
			continue;
		}
		for n in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b"), format!("{c}{c}{c}"), format!("a{c}.toml"), format!("d{c}/x"), format!("a{c}/{c}/b{c}c")] {
			names.push(n);
		}
	}
	names.extend(
		[
			"./x", "./x.toml", "d/../x.toml", "d//x.toml", "d/./x", "././x", "x.TOML", "pemv", "PEMV.toml", "pemv.toml.bak", "pemv.json", "x.yaml", "default", "none",
			"false", "0", "a/b/c/d/e/f/g.toml", "\"x\"", "'x'", "$HOME/x", "%x%", "${x}", "x;y", "x:y", "x,y", "file:x", "[x]", "{x}", "x y.toml", "-", "--", "-b",
		]
		.map(str::to_owned),
	);
	names.push("n".repeat(250));
	names.push(["d".repeat(200), "e".repeat(200), "f".repeat(200)].join("/"));
	// names of directories are no names of files, and figment trims what stands in a variable
	names.retain(|n| n != "." && n != ".." && n != "..." && n.trim() == n && !n.is_empty() && !n.split('/').any(|p| p == "." && !n.starts_with('.')));
	let radix = [names.len() as u64, 3, 2];
	e.family(
		"what the file is called",
		"about 800 names with every printable character in every place, as a file or a directory, named from the working directory, from below it, and absolutely; with another pemv.toml beside",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let name = &names[d[0]];
			let t = Tree::new(r);
			let dir = if d[1] == 1 { t.root.clone() } else { t.cwd.clone() };
			// `d/../x` needs `d`
			if name.contains("/../") || name.contains("/./") {
				std::fs::create_dir_all(dir.join("d")).expect("scratch directory");
			}
			let want = Layer {
				colour: Some(true),
				masks: Some(vec!['X', '#']),
				sort: Some(false),
			};
			if dir.join(name).is_dir() {
				return Ok(());
			}
			write_file(&dir.join(name), format!("[default]\n{}", want.toml()).as_bytes());
			if d[2] == 1 {
				let other = Layer {
					colour: Some(true),
					masks: Some(vec!['Z']),
					sort: Some(true),
				};
				write_file(&t.cwd.join("pemv.toml"), format!("[default]\n{}", other.toml()).as_bytes());
			}
			let given = if d[1] == 2 { dir.join(name).to_string_lossy().into_owned() } else { name.clone() };
			let mut c = Case::new(&["-b", &probe()]).env("PEMV_CONFIG", &given);
			c.cwd = t.cwd.to_string_lossy().into_owned();
			let (coloured, s) = effective(&[&want]);
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_settings(&o, coloured, &s).map_err(|m| Bad::new(&c, &o, format!("colour {coloured}, {s:?}\n{}", describe_files(&t)), m))
		},
	);
}

/// An ordinary failure that explains itself.
fn judge_reported(o: &Outcome) -> Result<(), String> {
	match o.status {
		Status::Exit(0) => Err("a broken configuration is not reported".into()),
		Status::Exit(101) | Status::Signal(_) => Err("a broken configuration crashes pemv".into()),
		Status::Exit(_) => {
			if !o.out.is_empty() {
				Err("something is decoded under a broken configuration".into())
			} else if o.err.is_empty() {
				Err("a broken configuration is not explained".into())
			} else if o.err_str().contains("panicked") {
				Err("a broken configuration makes pemv panic".into())
			} else {
				Ok(())
			}
		}
	}
}

/// Lists of masking characters of every length: each of them masks, and no other character does.
fn many_masks(e: &mut Engine) {
	let all: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&()*+./:;<=>?@[]^_`{|}~ ".chars().collect();
	let top = all.len() as u64 - 2;
	let radix = [top, 8, 3];
	e.family(
		"lists of masking characters of every length",
		"1..88 masking characters x each option by itself, one option with all of them, options with two each, long options, with `=`, in the environment, in two sections of the file x 3 orders of them",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut from = all.clone();
			match d[2] {
				0 => {}
				1 => from.reverse(),
				_ => from.rotate_left(41),
			}
			let masks: Vec<char> = from[..=d[0]].to_vec();
			let block = hex(&all
				.iter()
				.enumerate()
				.flat_map(|(k, c)| tlv(&[0xDF, k as u8 + 1], &[*c as u8; 2]))
				.collect::<Vec<u8>>());
			let t = Tree::new(r);
			let mut a = vec!["-b".to_owned(), block.clone()];
			let list = format!("[{}]", masks.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", "));
			match d[1] {
				0 => masks.iter().for_each(|c| a.extend(["-m".to_owned(), c.to_string()])),
				1 => {
					a.push("-m".to_owned());
					a.extend(masks.iter().map(char::to_string));
				}
				2 => masks.chunks(2).for_each(|x| {
					a.push("--masking".to_owned());
					a.extend(x.iter().map(char::to_string));
				}),
				3 => masks.iter().for_each(|c| a.extend(["--masking-character".to_owned(), c.to_string()])),
				4 => masks.iter().for_each(|c| a.push(format!("--masking-char={c}"))),
				_ => {}
			}
			let mut c = t.apply(Place::Cwd, Case::new(&a));
			match d[1] {
				5 => c = c.env("PEMV_MASKING_CHARACTERS", &list),
				6 => t.put(Place::Cwd, format!("[global]\nmasking_characters = {list}\n").as_bytes()),
				7 => t.put(Place::Cwd, format!("[default]\nmasking_characters = {list}\n").as_bytes()),
				_ => {}
			}
			let set = Settings {
				masks,
				..Settings::default()
			};
			let o = r.run(&c);
			r.item(&d);
			model::step();
			let exp = expect(Op::Ber, block.as_bytes(), &set);
			judge_tlv(Op::Ber, &exp, &o, SETTINGS_SHOWN)
				.map_err(|m| Bad::new(&c, &o, exp.stdout(), format!("each of the masking characters should mask, and no other: {m}")))
		},
	);
}

pub fn c25(e: &mut Engine) {
	// (setting, value as TOML or None, value in the environment or None)
	let bad: Vec<(usize, Option<&str>, Option<&str>)> = vec![
		(0, Some("\"blue\""), Some("blue")),
		(0, Some("5"), Some("5")),
		(0, Some("true"), Some("true")),
		(0, Some("1.5"), Some("1.5")),
		(0, Some("[]"), Some("[]")),
		(0, Some("[\"never\"]"), Some("[never]")),
		(0, Some("{ a = 1 }"), Some("{a=1}")),
		(0, Some("\"\""), Some("")),
		(0, Some("\" \""), Some(" ")),
		(0, Some("\"alway\""), Some("alway")),
		(0, Some("\"always \""), None),
		(0, Some("1979-05-27"), None),
		(1, Some("5"), Some("5")),
		(1, Some("true"), Some("true")),
		(1, Some("\"X\""), Some("X")),
		(1, Some("\"\""), Some("")),
		(1, Some("\" \""), Some(" ")),
		(1, Some("[\"XY\"]"), Some("[XY]")),
		(1, Some("[\"\"]"), Some("[\"\"]")),
		(1, Some("[\"X\", \"XY\"]"), Some("[X,XY]")),
		(1, Some("[[\"X\"]]"), Some("[[X]]")),
		(1, Some("[true]"), Some("[true]")),
		(1, Some("{ a = \"X\" }"), Some("{a=X}")),
		(2, Some("\"yes\""), Some("yes")),
		(2, Some("\"maybe\""), Some("maybe")),
		(2, Some("\"\""), Some("")),
		(2, Some("5"), Some("5")),
		(2, Some("[true]"), Some("[true]")),
		(2, Some("{ a = true }"), Some("{a=true}")),
		(2, Some("1.0"), Some("1.0")),
	];
	let key = ["cli_colour", "masking_characters", "sort_parsed_tags"];
	let var = ["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS"];
	let good = ["\"always\"", "[\"#\"]", "false"];
	let good_env = ["always", "[\"#\"]", "false"];
	let good_layer = |s: usize| Layer {
		colour: (s == 0).then_some(true),
		masks: (s == 1).then(|| vec!['#']),
		sort: (s == 2).then_some(false),
	};
	// source of the bad value: 0 environment, 1 global, 2 selected section, 3 default section
	// a good value from every subset of the other sources (bits: cli, env, global, selected, default)
	let radix = [bad.len() as u64, 4, 32, 3];
	e.family(
		"invalid values",
		"30 invalid values x 4 sources of it x every subset of the other sources giving a valid value x 3 ways to find the file",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (s, file_value, env_value) = bad[d[0]];
			// priorities: 0 command line, 1 environment, 2 global, 3 selected, 4 default
			let at = d[1] + 1;
			let goods: Vec<usize> = (0..5).filter(|k| d[2] >> k & 1 == 1).collect();
			if goods.contains(&at) || (at == 1 && env_value.is_none()) || (at > 1 && file_value.is_none()) {
				return Ok(());
			}
			let place = [Place::Named, Place::Cwd, Place::Parent][d[3]];
			let t = Tree::new(r);
			let mut text = String::new();
			for (k, name) in [(2, "global"), (3, PROFILE), (4, "default")] {
				text += &format!("[{name}]\n");
				if at == k {
					text += &format!("{} = {}\n", key[s], file_value.unwrap());
				} else if goods.contains(&k) {
					text += &format!("{} = {}\n", key[s], good[s]);
				}
			}
			t.put(place, text.as_bytes());
			let mut c = t.apply(place, Case::new(&["-b", &probe()])).env("PEMV_PROFILE", PROFILE);
			if at == 1 {
				c = c.env(var[s], env_value.unwrap());
			} else if goods.contains(&1) {
				c = c.env(var[s], good_env[s]);
			}
			if goods.contains(&0) {
				c = good_layer(s).cli(c);
			}
			let overridden = goods.iter().any(|k| *k < at);
			let o = r.run(&c);
			r.item(&(d[0], at, &goods, d[3]));
			model::step();
			r.sample(|| format!("{} -> {}", c.shell("pemv"), o.err_str()));
			let res = if overridden {
				let (coloured, set) = effective(&[&good_layer(s)]);
				judge_settings(&o, coloured, &set)
			} else {
				judge_reported(&o)
			};
			res.map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// one element of a list that is no character
	let letters: Vec<char> = "*#X+%ZabcdefghijklmnopqrstuvwxyzABCDEFG".chars().collect();
	let elements = ["\"XY\"", "\"\"", "\"**\"", "5", "true", "1.5", "[\"X\"]", "[]", "{ a = \"X\" }", "\"X \"", "\" X\"", "\"abc\"", "\"\u{e9}\u{301}\""];
	let top = e.pick(20u64, 40);
	let radix = [top, top, elements.len() as u64, 3];
	e.family(
		"lists with one that is no character",
		"lists of 1..20 (40) masking characters x each place x 13 elements that are no character there, in the environment and two sections of the file: reported",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			if d[1] > d[0] {
				return Ok(());
			}
			let list: Vec<String> = (0..=d[0])
				.map(|k| if k == d[1] { elements[d[2]].to_owned() } else { format!("\"{}\"", letters[k % letters.len()]) })
				.collect();
			let list = format!("[{}]", list.join(", "));
			let t = Tree::new(r);
			let mut c = t.apply(Place::Cwd, Case::new(&["-b", &probe()]));
			match d[3] {
				0 => c = c.env(var[1], &list),
				1 => t.put(Place::Cwd, format!("[default]\nmasking_characters = {list}\n").as_bytes()),
				_ => t.put(Place::Cwd, format!("[global]\nmasking_characters = {list}\n").as_bytes()),
			}
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// words that say nothing to a setting, however much they say elsewhere
	let words: Vec<&str> = "on off y n yes no yep nope ja nein oui non si ok enabled disabled enable disable asc desc ascending descending none null nil nan inf infinity auto-detect \
		default unset empty always! never! force forced tty pipe terminal plain raw html ansi256 ansi8 16 256 88 8 truecolor truecolour 24bit 24-bit colour color red green blue light dark \
		bright mono monochrome grey gray vivid basic full minimal some both either sometimes maybe often rarely true! !true false! tru fals tr fa ye truefalse true,false true/false \
		falsey truthy 0x0 0x1 0b1 0o1 2 -1 00 01 10 1e3 0.5 1. .5 +2 -0.0 sorted unsorted sort no-sort nosort reverse reversed stable tag tags by-tag length XYZ XX ** ### *# X# #X X*Z \
		xyz ABC abc ABCD X+Z X-Z XXXX **** aaaa all any mask masks masked X.Y X;Y X|Y X/Y Xand# star stars asterisk"
		.split_whitespace()
		.collect();
	let abc: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
	let short = Seqs { k: 26, lo: 2, hi: e.pick(3, 4) };
	let nw = words.len() as u64;
	let radix = [nw, 3, 2];
	e.family(
		"words that are no values",
		"a long list of words as each setting, in the environment and in the file; every word of 2 to 3 (4) small letters as colour, as sorting and as masking characters: reported",
		product(&radix) + short.count() * 3,
		|r, i| {
			let (s, w, file) = if i < product(&radix) {
				let d = digits(i, &radix);
				(d[1], words[d[0]].to_owned(), d[2] == 1)
			} else {
				let j = i - product(&radix);
				((j % 3) as usize, short.get(j / 3).iter().map(|x| abc[*x]).collect::<String>(), j % 2 == 0)
			};
			// these are values
			if s == 0 && matches!(w.as_str(), "always" | "never" | "auto" | "ansi") || s == 2 && matches!(w.as_str(), "true" | "false") {
				return Ok(());
			}
			let t = Tree::new(r);
			let mut c = t.apply(Place::Cwd, Case::new(&["-b", &probe()]));
			if file {
				t.put(Place::Cwd, format!("[default]\n{} = \"{w}\"\n", key[s]).as_bytes());
			} else {
				c = c.env(var[s], &w);
			}
			let o = r.run(&c);
			r.item(&(s, &w, file));
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// without an operation, too
	let alone: [&[&str]; 10] = [
		&["--colour", "never"], &["--colour=never"], &["--color", "always"], &["--color=ansi"], &["--colour", "auto"], &["--cli-colour", "never"], &["--cli-colour=always"], &["--cli-color", "auto"],
		&["--colour", "NEVER"], &["--color=Always"],
	];
	let radix = [bad.len() as u64, alone.len() as u64, 2];
	e.family(
		"invalid values without an operation",
		"30 invalid values x the spellings of the colour option with nothing else x environment or file: reported (or the option refused)",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (s, f, v) = bad[d[0]];
			if s == 0 {
				return Ok(());
			}
			let t = Tree::new(r);
			let mut c = t.apply(Place::Cwd, Case::new(alone[d[1]]));
			if d[2] == 0 {
				let Some(v) = v else { return Ok(()) };
				c = c.env(var[s], v);
			} else {
				let Some(f) = f else { return Ok(()) };
				t.put(Place::Cwd, format!("[default]\n{} = {f}\n", key[s]).as_bytes());
			}
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// every operation refuses to work under a broken configuration
	e.family(
		"invalid values under every operation",
		"30 invalid values x 11 operations x environment or file",
		bad.len() as u64 * 11 * 2,
		|r, i| {
			let d = digits(i, &[bad.len() as u64, 11, 2]);
			let (s, f, v) = bad[d[0]];
			let op = ALL_OPS[d[1]];
			let t = Tree::new(r);
			let text = if op == Op::ServiceCode { "201" } else { "5A0100" };
			let mut c = t.apply(Place::Cwd, op_case(op, text));
			if d[2] == 0 {
				let Some(v) = v else { return Ok(()) };
				c = c.env(var[s], v);
			} else {
				let Some(f) = f else { return Ok(()) };
				t.put(Place::Cwd, format!("[default]\n{} = {f}\n", key[s]).as_bytes());
			}
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// other settings, however they are given, do not make up for an invalid one; the same one does
	let given: Vec<(usize, Vec<&str>)> = vec![
		(0, vec!["--colour", "never"]),
		(0, vec!["--colour=auto"]),
		(0, vec!["--color", "always"]),
		(0, vec!["--color=ansi"]),
		(1, vec!["-m", "X"]),
		(1, vec!["-m*"]),
		(1, vec!["--masking-character", "X"]),
		(1, vec!["--masking=*"]),
		(2, vec!["--sort"]),
		(2, vec!["--sort=true"]),
		(2, vec!["--sort-parsed-tags", "false"]),
		(2, vec!["--no-sort"]),
		(2, vec!["--no-sort=false"]),
		(2, vec!["--no-sort-parsed-tags", "true"]),
	];
	let ng = given.len() as u64;
	let radix = [bad.len() as u64, ng, ng, 3];
	e.family(
		"invalid values beside options",
		"30 invalid values in the environment, the file or both x every pair of 14 spellings of command-line settings: reported unless that very setting is given",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (s, f, v) = bad[d[0]];
			let (a, b) = (&given[d[1]], &given[d[2]]);
			// one setting twice is a matter of the command line; the same spelling twice stands for one alone
			if a.0 == b.0 && d[1] != d[2] {
				return Ok(());
			}
			let t = Tree::new(r);
			let mut c = t.apply(Place::Cwd, Case::new(&["-b", &probe()]));
			if d[3] != 1 {
				let Some(v) = v else { return Ok(()) };
				c = c.env(var[s], v);
			}
			if d[3] != 0 {
				let Some(f) = f else { return Ok(()) };
				t.put(Place::Cwd, format!("[default]\n{} = {f}\n", key[s]).as_bytes());
			}
			for x in if d[1] == d[2] { vec![a] } else { vec![a, b] } {
				for y in &x.1 {
					c = c.arg(*y);
				}
			}
			let o = r.run(&c);
			r.item(&d);
			model::step();
			let res = if a.0 == s || b.0 == s {
				if o.status == Status::Exit(0) && o.err.is_empty() && !o.out.is_empty() {
					Ok(())
				} else {
					Err("an invalid value that is overridden matters".into())
				}
			} else {
				judge_reported(&o)
			};
			res.map_err(|m: String| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// files that are no TOML
	let broken: Vec<Vec<u8>> = [
		"[default", "default]", "[]", "[default]\ncli_colour", "[default]\ncli_colour =", "[default]\ncli_colour = never",
		"[default]\ncli_colour = \"never", "[default]\ncli_colour = \"never\" x", "[default]\n= 3", "[default]\nsort_parsed_tags = tru",
		"[default]\nsort_parsed_tags = true true", "[default]\nmasking_characters = [\"X\"", "[default]\nmasking_characters = [\"X\" \"Y\"]",
		"[default]\n[default]\n", "[[default]]\n[default]\n", "{", "}", "\"", "=", "a b",
		"[default]\ncli_colour = 'never\"", "[default] cli_colour = \"never\"", "[default]\nx = 08", "[default]\nx = \"\\q\"", "[default]\nx = \"\u{1}\"",
		"\u{0}", "[default]\r", "[default]\nsort_parsed_tags = True", "[default]\nsort_parsed_tags: true", "]]",
	]
	.iter()
	.map(|s| s.as_bytes().to_vec())
	.chain([vec![0xFF], b"[default]\nx = \"\xFF\"".to_vec(), vec![0xFE, 0xFF, 0, 0x5B]])
	.collect();
	// is a lone carriage return an error? toml: yes; kept out to stay on safe ground
	let broken: Vec<Vec<u8>> = broken.into_iter().filter(|b| b != b"[default]\r").collect();
	e.family(
		"files that are not TOML",
		"33 broken files x 5 locations x with or without all settings overridden by the environment and the command line",
		broken.len() as u64 * 5 * 4,
		|r, i| {
			let d = digits(i, &[broken.len() as u64, 5, 2, 2]);
			let t = Tree::new(r);
			t.put(PLACES[d[1]], &broken[d[0]]);
			let mut c = t.apply(PLACES[d[1]], Case::new(&["-b", &probe()]));
			let all = Layer {
				colour: Some(false),
				masks: Some(vec!['X']),
				sort: Some(true),
			};
			if d[2] == 1 {
				c = all.env(c);
			}
			if d[3] == 1 {
				c = all.cli(c);
			}
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// torn files
	let files: Vec<(&str, usize)> = vec![
		(
			"# settings\n[global]\ncli_colour = \"always\"\n\n[default]\nmasking_characters = [\"X\", \"#\"]\nsort_parsed_tags = false\n",
			0,
		),
		(
			"[default]\nsort_parsed_tags = false\nmasking_characters = [\"Z\"]\n# almost done\n[prof]\nsort_parsed_tags = true\ncli_colour = \"ansi\"\n[global]\nmasking_characters = [\"+\", \"%\", \"X\"]\n",
			1,
		),
		(
			"[prof]\ncli_colour = \"always\"\n[default]\ncli_colour = \"never\"\nsort_parsed_tags = false\n",
			1,
		),
		(
			"[prof]\ncli_colour = \"always\"\n[default]\ncli_colour = \"never\"\nmasking_characters = [ \"X\" ]\n",
			0,
		),
		("[global]\nsort_parsed_tags = false", 0),
	];
	let total: u64 = files.iter().map(|f| f.0.len() as u64 + 1).sum();
	e.family(
		"torn files",
		"5 configuration files cut off at every byte x 5 locations x the environment overriding one of the settings or none",
		total * 5 * 4,
		|r, i| {
			let d = digits(i, &[total, 5, 4]);
			let mut cut = d[0];
			let mut k = 0;
			while cut > files[k].0.len() {
				cut -= files[k].0.len() + 1;
				k += 1;
			}
			let (text, profile) = files[k];
			let t = Tree::new(r);
			t.put(PLACES[d[1]], &text.as_bytes()[..cut]);
			let mut c = t.apply(PLACES[d[1]], Case::new(&["-b", &probe()]));
			if profile == 1 {
				c = c.env("PEMV_PROFILE", PROFILE);
			}
			let env = match d[2] {
				0 => Layer::default(),
				n => layer_of(n - 1, 1, 2),
			};
			c = env.env(c);
			let o = r.run(&c);
			r.item(&d);
			let res = match torn(text, cut, profile == 1) {
				None => judge_reported(&o),
				Some(layers) => {
					let mut l: Vec<&Layer> = vec![&env];
					l.extend(&layers);
					let (coloured, s) = effective(&l);
					judge_settings(&o, coloured, &s)
				}
			};
			res.map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
	// files of every size with something wrong at their end or at their beginning
	let sizes: Vec<usize> = [0usize, 100, 1000, 5000, 10_000, 100_000]
		.into_iter()
		.chain((8..=e.pick(17u32, 20)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]))
		.collect();
	let wrong = ["cli_colour = \"blue\"", "masking_characters = [\"XY\"]", "sort_parsed_tags = 7", "sort_parsed_tags = tru", "]"];
	let radix = [sizes.len() as u64, wrong.len() as u64, 4, 2, 3];
	e.family(
		"files of every size",
		"files of 0..128 KiB (1 MiB) of comments, one long comment, blank lines or other profiles' settings, before or after each of 5 faults, in 3 places",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = sizes[d[0]];
			let padding: String = match d[2] {
				0 => "# filler\n".repeat(n / 9 + 1),
				1 => format!("#{}\n", "x".repeat(n)),
				2 => "\n".repeat(n),
				_ => {
					// tables are dear to read: not more than a few hundred
					(0..(n / 40).min(400)).map(|k| format!("[p{k}]\nsort_parsed_tags = true\n")).collect()
				}
			};
			let fault = format!("[default]\n{}\n", wrong[d[1]]);
			let text = if d[3] == 0 { padding + &fault } else { fault + &padding };
			let place = [Place::Named, Place::Cwd, Place::Grandparent][d[4]];
			let t = Tree::new(r);
			t.put(place, text.as_bytes());
			let c = t.apply(place, Case::new(&["-b", &probe()]));
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, format!("a file of {} bytes", text.len()), m))
		},
	);
	// settings that stand outside any profile
	let outside = [
		"cli_colour = \"never\"", "cli_colour = \"blue\"", "cli_colour = 5", "masking_characters = [\"X\"]", "masking_characters = \"X\"", "masking_characters = 5",
		"sort_parsed_tags = true", "sort_parsed_tags = false", "sort_parsed_tags = 7", "sort_parsed_tags = \"no\"",
	];
	let around = ["", "\n\n", "# a note\n", "[default]\n", "[default]\nsort_parsed_tags = true\n", "[prof]\nsort_parsed_tags = true\n"];
	let radix = [outside.len() as u64, outside.len() as u64 + 1, around.len() as u64, 3, 5];
	e.family(
		"settings outside any profile",
		"10 settings, valid and not, alone and in pairs, before a table or without one, indented or not, in 5 places",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let second = outside.get(d[1]).filter(|s| s.split(' ').next() != outside[d[0]].split(' ').next());
			let mut text = String::new();
			let a = around[d[2]];
			if !a.starts_with('[') {
				text += a;
			}
			for l in [Some(&outside[d[0]]), second].into_iter().flatten() {
				text += ["", "  ", "\t"][d[3]];
				text += l;
				text += "\n";
			}
			if a.starts_with('[') {
				text += a;
			}
			let t = Tree::new(r);
			t.put(PLACES[d[4]], text.as_bytes());
			let c = t.apply(PLACES[d[4]], Case::new(&["-b", &probe()]));
			let o = r.run(&c);
			r.item(&d);
			model::step();
			judge_reported(&o).map_err(|m| Bad::new(&c, &o, describe_files(&t), m))
		},
	);
}
/// What is left of a file of one-line settings when it is cut off: None when the last line is incomplete.
fn torn(text: &str, cut: usize, profile: bool) -> Option<[Layer; 3]> {
	let mut layers: [Layer; 3] = Default::default(); // global, selected, default
	let mut at: Option<usize> = None;
	let mut pos = 0;
	for full in text.split_inclusive('\n') {
		if pos >= cut {
			break;
		}
		let part = &full[..full.len().min(cut - pos)];
		pos += full.len();
		model::step();
		let (p, f) = (part.trim(), full.trim());
		if p.is_empty() || p.starts_with('#') {
			continue;
		}
		if p != f {
			return None;
		}
		if let Some(name) = p.strip_prefix('[') {
			at = match name {
				"global]" => Some(0),
				"prof]" if profile => Some(1),
				"default]" => Some(2),
				_ => None,
			};
			continue;
		}
		let (k, v) = p.split_once(" = ").expect("a setting");
		if let Some(n) = at {
			match k {
				"cli_colour" => layers[n].colour = Some(v != "\"never\""),
				"sort_parsed_tags" => layers[n].sort = Some(v == "true"),
				_ => layers[n].masks = Some(v.chars().filter(|c| "*X#Z+%".contains(*c)).collect()),
			}
		}
	}
	Some(layers)
}

// ---------------------------------------------------------------------------------------------------------
// robustness

fn judge_normal(o: &Outcome, bound: usize) -> Result<(), String> {
	match o.status {
		Status::Exit(101) => return Err("pemv panics".into()),
		Status::Exit(_) => (),
		Status::Signal(14 | 24) => return Err("pemv does not end within its time limit".into()),
		Status::Signal(n) => return Err(format!("pemv is killed by signal {n}")),
	}
	if o.err_str().contains("panicked at") || o.err_str().contains("overflowed") {
		return Err("pemv panics".into());
	}
	if o.out.len() > bound {
		return Err(format!("{} bytes of output, at most {bound} are in proportion", o.out.len()));
	}
	if o.err.len() > 65536 + bound {
		return Err("diagnostics out of proportion".into());
	}
	Ok(())
}
fn survive(r: &mut Runner, c: &Case) -> Result<(), Bad> {
	let n: usize = c.args.iter().map(Vec::len).sum();
	let o = r.run(c);
	r.item(c);
	model::step();
	r.sample(|| c.shell("pemv"));
	if std::env::var("MC_USAGE").is_ok() && (o.cpu_ms > 100 || o.peak_kib > 30_000) {
		eprintln!("{} in, {} out: {} ms, {} KiB: {:.60}", n, o.out.len(), o.cpu_ms, o.peak_kib, c.shell("pemv"));
	}
	judge_normal(&o, 65536 + 2000 * n)
		.and_then(|()| {
			// in proportion to what went in and came out, with much to spare
			let (ms, kib) = (1500 + o.out.len() / 5_000, 65_536 + (40 * n + 4 * o.out.len()) / 1024);
			if o.cpu_ms as usize > ms {
				Err(format!("{} ms of processor time, at most {ms} are in proportion", o.cpu_ms))
			} else if o.peak_kib as usize > kib {
				Err(format!("{} KiB of memory, at most {kib} are in proportion", o.peak_kib))
			} else {
				Ok(())
			}
		})
		.map_err(|m| Bad::new(c, &o, "", m))
}

pub fn c19(e: &mut Engine) {
	// arbitrary text for every operation
	let nasty = [
		"0", "1", "F", "T", ":", "a", "h", "*", " ", "-", "é", "💳", "\u{7f}", "\n", "C", "'",
	];
	let q = Seqs { k: 16, lo: 1, hi: e.pick(3, 4) };
	e.family(
		"short texts",
		"every text over 16 characters (digits, letters, punctuation, two- and four-byte characters) up to the bound x every operation",
		q.count() * 11,
		|r, i| {
			let t: String = q.get(i / 11).iter().map(|x| nasty[*x]).collect();
			let op = ALL_OPS[i as usize % 11];
			survive(r, &Case::new(&[format!("{}={t}", op.flag())]))
		},
	);
	// Ingenico tokens
	let tokens = ["T", "5A", ":", "FFFFFFFF", "01", "a", "h", "é", "00", "*"];
	let q = Seqs { k: 10, lo: 1, hi: e.pick(4, 5) };
	e.family(
		"Ingenico tokens",
		"every sequence over 10 tokens up to the bound, explicit and automatic",
		q.count() * 2,
		|r, i| {
			let t: String = q.get(i / 2).iter().map(|x| tokens[*x]).collect();
			survive(r, &Case::new(&[["-i", "-a"][i as usize % 2], &t]))
		},
	);
	let tail = Seqs { k: 10, lo: 1, hi: e.pick(3, 4) };
	e.family(
		"Ingenico tokens after a tag",
		"every sequence over 10 tokens up to the bound behind `T5A:` and `T5A:02:h`",
		tail.count() * 2,
		|r, i| {
			let toks = ["T", "5", ":", "FFFFFFFF", "0", "a", "h", "é", "🂡", "80000000"];
			let t: String = tail.get(i / 2).iter().map(|x| toks[*x]).collect();
			survive(r, &Case::new(&["-i", &format!("{}{t}", ["T5A:", "T5A:02:h"][i as usize % 2])]))
		},
	);
	// BER bytes
	let bytes = [0x00u8, 0x01, 0x1F, 0x3F, 0x5A, 0x7F, 0x80, 0x81, 0x84, 0x85, 0x8E, 0xE1, 0xFF, 0x9F];
	let q = Seqs { k: 14, lo: 1, hi: e.pick(4, 5) };
	e.family(
		"byte strings",
		"every string over 14 significant bytes up to the bound, as BER-TLV",
		q.count(),
		|r, i| {
			let v: Vec<u8> = q.get(i).iter().map(|x| bytes[*x]).collect();
			survive(r, &Case::new(&["-b", &hex(&v)]))
		},
	);
	// length boundaries
	let lens: Vec<u64> = {
		let mut v = vec![0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x100, 0x101];
		for k in [15, 16, 24, 31, 32] {
			for d in 0..5u64 {
				v.push((1 << k) - d - 1);
				if k < 32 {
					v.push((1 << k) + d);
				}
			}
		}
		v
	};
	let tags: [&[u8]; 6] = [&[0x5A], &[0xE1], &[0x9F, 0x26], &[0x95], &[0xFF, 0xFF, 0xFF, 0x7F], &[0x00]];
	let radix = [tags.len() as u64, lens.len() as u64, 6, 6, 3];
	e.family(
		"stated lengths",
		"6 tags x lengths at and around every boundary up to 2^32-1 x 1..6 length bytes x 0..5 bytes present x depth 0..2",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let be = lens[d[1]].to_be_bytes();
			let n = d[2] + 1;
			let mut b = tags[d[0]].to_vec();
			b.push(0x80 + n as u8);
			b.extend(&be[8 - n..]);
			b.extend(&[0xC1, 0x01, 0x00, 0x5A, 0x01][..d[3]]);
			for _ in 0..d[4] {
				b = tlv(&[0xE1], &b);
			}
			survive(r, &Case::new(&["-b", &hex(&b)]))
		},
	);
	e.family(
		"first length bytes",
		"every first length byte 0x00..0xFF x 0..9 further bytes of 00, 01, FF x primitive or constructed",
		256 * 10 * 3 * 2,
		|r, i| {
			let d = digits(i, &[256, 10, 3, 2]);
			let mut b = vec![[0x5Au8, 0x70][d[3]], d[0] as u8];
			b.extend(vec![[0x00u8, 0x01, 0xFF][d[2]]; d[1]]);
			survive(r, &Case::new(&["-b", &hex(&b)]))
		},
	);
	e.family(
		"stated Ingenico lengths",
		"lengths at and around every boundary x spelling with 0..4 leading zero bytes x both formats x 0..4 characters x shown or skipped",
		lens.len() as u64 * 5 * 2 * 5 * 2,
		|r, i| {
			let d = digits(i, &[lens.len() as u64, 5, 2, 5, 2]);
			let mut l = format!("{:X}", lens[d[0]]);
			if l.len() % 2 == 1 {
				l.insert(0, '0');
			}
			let t = format!(
				"{}5A:{}{l}:{}{}",
				["T", "X"][d[4]],
				"00".repeat(d[1]),
				["a", "h"][d[2]],
				&"00aé"[..[0, 1, 2, 3, 5][d[3]]]
			);
			survive(r, &Case::new(&["-i", &t]))
		},
	);
	// depth
	let depths: Vec<usize> = {
		let mut v: Vec<usize> = (1..=40).collect();
		v.extend([63, 64, 99, 100, 120, 126, 127, 128, 129, 130, 131, 150, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513]);
		v.extend([1000, 2000, 4000, 8000, 12000]);
		v
	};
	e.family(
		"depths",
		"nesting 1..12,000 deep x 4 kinds of innermost contents x 4 operations' readings",
		depths.len() as u64 * 4 * 4,
		|r, i| {
			let d = digits(i, &[depths.len() as u64, 4, 4]);
			let n = depths[d[0]];
			let mut b = match d[1] {
				0 => vec![],
				1 => vec![0xC1, 0x01, 0x00],
				2 => vec![0xC1, 0x02, 0x00],
				_ => tlv(&[0x95], &[0xFF; 5]),
			};
			for _ in 0..n {
				b = tlv(&[0xE1], &b);
				if b.len() > 60_000 {
					break;
				}
			}
			let text = hex(&b);
			let c = match d[2] {
				0 => Case::new(&["-b", &text]),
				1 => Case::new(&["-a", &text]),
				2 => Case::new(&["-b", &text, "--no-sort", "--colour=always"]),
				_ => {
					let l = b.len();
					Case::new(&["-i", &format!("TE1:{l:06X}:h{text}")])
				}
			};
			survive(r, &c)
		},
	);
	e.family(
		"wide and deep",
		"depth 1..130 with 1..200 siblings at each level or at the deepest",
		130 * 4 * 2,
		|r, i| {
			let d = digits(i, &[130, 4, 2]);
			let w = [1usize, 3, 20, 200][d[1]];
			let sib: Vec<u8> = (0..w).flat_map(|k| tlv(&[0xC1], &[k as u8])).collect();
			let mut b = sib.clone();
			for level in 0..=d[0] {
				b = tlv(&[0xE1], &b);
				if d[2] == 1 && (level + 1) * sib.len() < 50_000 {
					b.extend(&sib);
				}
			}
			survive(r, &Case::new(&["-b", &hex(&b)]))
		},
	);
	let wide = [0u64, 1, 2, 3, 4, 5, 8, 16, 32, 64, 100, 126];
	let units: [&[u8]; 5] = [&[0x5A, 0x00], &[0xC1, 0x01, 0x00], &[0xE1, 0x00], &[0xE1, 0x02, 0xC1, 0x00], &[0x9B, 0x02, 0xE8, 0x00]];
	let amounts = [250usize, 1000, 3000, 10_000, 20_000];
	let radix = [wide.len() as u64, units.len() as u64, amounts.len() as u64, 2];
	e.family(
		"many objects at depth",
		"250..20,000 objects of 5 kinds within 0..126 constructed objects, under either tag, sorted and not",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let u = units[d[1]];
			// what is printed grows with the depth
			let n = amounts[d[2]].min(if wide[d[0]] > 5 { 3000 } else { 60_000 / u.len() });
			let mut b = u.repeat(n);
			for _ in 0..wide[d[0]] {
				b = tlv([&[0xE1][..], &[0x7F, 0x21]][d[3]], &b);
			}
			let c = Case::new(&["-b", &hex(&b)]);
			survive(r, &if d[3] == 0 { c } else { c.arg("--no-sort") })
		},
	);
	// size
	let sizes = [100usize, 1000, 5000, 10_000, 20_000, 30_000, 43_000];
	e.family(
		"many objects",
		"blocks of 100..43,000 bytes of the smallest objects, of one kind each (8 kinds), by 3 operations",
		sizes.len() as u64 * 8 * 3,
		|r, i| {
			let d = digits(i, &[sizes.len() as u64, 8, 3]);
			let unit: Vec<u8> = match d[1] {
				0 => vec![0x00, 0x00],
				1 => vec![0x5A, 0x00],
				2 => vec![0xE1, 0x02, 0xC1, 0x00],
				3 => tlv(&[0x95], &[0xFF; 5]),
				4 => tlv(&[0x9F, 0x34], &[0x42, 0x03, 0x01]),
				5 => tlv(&[0x8E], &[0, 0, 0, 1, 0, 0, 0, 2, 0x42, 0x06]),
				6 => tlv(&[0x5A], b"**"),
				_ => vec![0xE1, 0x02, 0xC1, 0x05],
			};
			let b: Vec<u8> = unit.iter().copied().cycle().take(sizes[d[0]] / unit.len() * unit.len()).collect();
			survive(r, &Case::new(&[["-b", "-a", "--identify"][d[2]], &hex(&b)]))
		},
	);
	// every order, so that no way of sorting or building takes too long
	let many = [100usize, 1000, 8000, 32_000];
	e.family(
		"many objects in every order",
		"100..32,000 objects x 3 kinds (distinct two-byte tags as far as there are any, one-byte tags, nested) x sorted or not x 7 orders (ascending, descending, alternating, equal, rising then falling, last first, scattered)",
		3 * many.len() as u64 * 2 * 7,
		|r, i| {
			let d = digits(i, &[3, many.len() as u64, 2, 7]);
			let n = many[d[1]];
			let n = if d[0] == 0 { n.min(21_000) } else { n };
			// ranks into the tags in ascending order
			let rank = |k: usize| -> usize {
				match d[3] {
					0 => k,
					1 => n - 1 - k,
					2 => if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 },
					3 => n / 2,
					4 => if k < n / 2 { 2 * k } else { 2 * (n - 1 - k) + 1 },
					5 => if k == n - 1 { 0 } else { k + 1 },
					_ => (k * 7919) % n,
				}
			};
			let mut b = Vec::new();
			for k in 0..n {
				let x = rank(k);
				match d[0] {
					0 => {
						// two-byte tags: 3F.., 5F.., 7F.. by rank
						let t = x * 380 / n;
						let first = [0x1Fu8, 0x5F, 0x9F][t / 127 % 3];
						b.extend([first, (t % 127) as u8 + 1, 0]);
					}
					1 => b.extend([(x * 30 / n) as u8 + 0x40, 0]),
					_ => b.extend([(x * 30 / n) as u8 + 0xC0, 0]),
				}
			}
			if d[0] == 2 {
				b = tlv(&[0xE1], &b);
			}
			let mut c = Case::new(&["-b", &hex(&b)]);
			if d[2] == 1 {
				c = c.arg("--no-sort");
			}
			survive(r, &c)
		},
	);
	let fields = [100usize, 1000, 6000, 15_000];
	let radix = [fields.len() as u64, 8, 5, 2, 3];
	e.family(
		"many Ingenico fields in every order",
		"100..15,000 fields (as many as an argument holds) x 8 kinds (shown, skipped or both, hexadecimal or text data, empty, masked, the last one broken) x 5 orders of their tags x explicit or automatic x tags of one, two or four bytes",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = fields[d[0]];
			let mut t = String::new();
			for k in 0..n {
				let x = match d[2] {
					0 => k,
					1 => n - 1 - k,
					2 => if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 },
					3 => 7,
					_ => (k * 7919) % n,
				};
				let tag = match d[4] {
					0 => format!("{:02X}", x & 0xFF),
					1 => format!("{:04X}", x),
					_ => format!("{:08X}", x * 65_537),
				};
				let shown = match d[1] {
					0 | 2 | 4 | 6 => 'T',
					1 | 3 => 'D',
					_ => ['T', 'D'][k % 2],
				};
				let data = match d[1] {
					0 | 1 | 5 => "01:h12",
					2 | 3 => "01:aX",
					4 => "00:h",
					6 => "02:h****",
					_ => if k == n - 1 { "02:h1" } else { "00:a" },
				};
				let f = format!("{shown}{tag}:{data} ");
				if t.len() + f.len() > 131_000 {
					break;
				}
				t += &f;
			}
			survive(r, &Case::new(&[["-i", "-a"][d[3]], t.trim_end()]))
		},
	);
	// a character of several bytes at every place of a text of every form
	let texts: Vec<(Op, String)> = {
		let long: String = (0..40).map(|k| format!("C1{:02X}{}", 4, hex(&[k, k ^ 0x5A, 0x0F, 0xF0]))).collect();
		let fields: Vec<String> = (0..12).map(|k| format!("T5A:04:h{:08X} T50:03:aViX", k * 0x01020304u32)).collect();
		vec![
			(Op::Ber, long.clone()),
			(Op::Auto, long.clone()),
			(Op::Ingenico, fields.join(" ")),
			(Op::Auto, fields.join(",")),
			(Op::Ingenico, format!("T9F10:{:02X}:a{}", 120, "kl9-".repeat(30))),
			(Op::Ingenico, format!("T9F10:{:02X}:h{}", 100, "5Aff".repeat(50))),
			(Op::Iad, "0F".repeat(80)),
			(Op::CvmList, "0000000000000000".to_owned() + &"42031F00".repeat(30)),
			(Op::Identify, "9F".repeat(100)),
			(Op::ServiceCode, "201".to_owned() + &" ".repeat(200)),
		]
	};
	let odd = ["é", "ß", "Ａ", "✓", "💳", "\u{10FFFF}", "\u{80}", "\u{7FF}", "\u{800}", "\u{FEFF}"];
	e.family(
		"a wide character at every place",
		"10 texts of 80..300 characters x 10 characters of two to four bytes, put in at every place, put in place of 1..3 characters, and as the last one of the text cut off there",
		10 * 10,
		|r, i| {
			let d = digits(i, &[10, 10]);
			let (op, text) = &texts[d[0]];
			for at in 0..=text.len() {
				for gone in 0..=4 {
					let (head, tail) = text.split_at(at);
					let t = match gone {
						4 => format!("{head}{}", odd[d[1]]),
						g if g > tail.len() => continue,
						g => format!("{head}{}{}", odd[d[1]], &tail[g..]),
					};
					survive(r, &Case::new(&[format!("{}={t}", op.flag())]))?;
				}
			}
			Ok(())
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::BerUnsorted, Form::Nested2, Form::AutoBer, Form::IngenicoText, Form::AutoIngenico],
		&|r, op, t, s| survive(r, &settings_args(op_case(op, t), s)),
	);
	e.family(
		"long texts",
		"every operation with 131,000 characters of one kind (8 kinds)",
		11 * 8,
		|r, i| {
			let d = digits(i, &[11, 8]);
			let unit = ["0", "F", "T", ":", "é", "💳", "T5A:01:a1 ", "E1"][d[1]];
			let t = unit.repeat(131_000 / unit.len());
			survive(r, &Case::new(&[format!("{}={t}", ALL_OPS[d[0]].flag())]))
		},
	);
	// single values of every size and filling
	e.family(
		"values of every size",
		"every operation x sizes 0..300 x 6 fillings",
		11 * 301 * 6,
		|r, i| {
			let d = digits(i, &[11, 301, 6]);
			let v = vec![[0x00u8, 0x0F, 0x5F, 0x80, 0xA5, 0xFF][d[2]]; d[1]];
			survive(r, &Case::new(&[format!("{}=z{}", ALL_OPS[d[0]].flag(), hex(&v))]))
		},
	);
	// bytes that are not text, and other odd arguments
	e.family(
		"odd arguments",
		"arguments that are not UTF-8, empty, or very many masking characters; every operation",
		11 * 6,
		|r, i| {
			let d = digits(i, &[11, 6]);
			let op = ALL_OPS[d[0]].flag();
			let mut c = Case::new(&[op]);
			match d[1] {
				0 => c.args.push(vec![0xFF, 0xFE]),
				1 => c.args.push(b"5A01\xC3".to_vec()),
				2 => c.args.push(vec![]),
				3 => {
					c.args.push(b"5A0100".to_vec());
					for k in 0..500u32 {
						c.args.push(format!("--masking={}", char::from_u32(0x100 + k).unwrap()).into_bytes());
					}
				}
				4 => (),
				_ => c.args.extend([b"--".to_vec(), b"5A".to_vec()]),
			}
			survive(r, &c)
		},
	);
	// masks that are no ASCII character, against all kinds of data
	let masks = ["é", "💳", "\u{7f}", "ÿ", "\u{80}", "a", "0", " "];
	let q = Seqs { k: 8, lo: 0, hi: e.pick(2, 3) };
	e.family(
		"masking characters",
		"8 masking characters (one to four bytes long) x every data text over them up to the bound, Ingenico and BER",
		8 * q.count() * 2,
		|r, i| {
			let d = digits(i, &[8, q.count(), 2]);
			let data: String = q.get(d[1] as u64).iter().map(|x| masks[*x]).collect();
			let m = format!("--masking-character={}", masks[d[0]]);
			let c = if d[2] == 0 {
				let n = data.chars().count();
				Case::new(&["-i", &format!("T5A:{n:02X}:a{data}")])
			} else {
				Case::new(&["-b", &hex(&tlv(&[0xE1], &tlv(&[0x5A], data.as_bytes())))])
			};
			survive(r, &c.arg(m))
		},
	);
}

// ---------------------------------------------------------------------------------------------------------
// the command line

fn spellings(op: Op) -> &'static [&'static str] {
	match op {
		Op::Tvr => &["-t", "--tvr", "--95", "--iac", "--tac"],
		Op::Iad => &["--ccd-iad", "--9F10", "--9f10", "--iad"],
		Op::Cvr => &["--ccd-cvr", "--cvr"],
		Op::Tsi => &["--tsi", "--9B", "--9b"],
		Op::CvmResults => &["-r", "--cvm-results", "--9F34", "--9f34", "--cvm-result"],
		Op::CvmList => &["--cvm-list", "--8E", "--8e"],
		Op::Identify => &["--identify", "--id"],
		Op::Auto => &["-a", "--auto-tlv", "--auto", "--parse-tlv", "--parse"],
		Op::Ber => &["-b", "--ber-tlv", "--ber"],
		Op::Ingenico => &["-i", "--ingenico-tlv", "--ingenico"],
		Op::ServiceCode => &["--service-code", "--5F30", "--5f30"],
	}
}
/// Values for each operation: valid ones that no other operation would show the same way, and refused ones.
pub fn values_for(op: Op) -> Vec<String> {
	match op {
		Op::Tvr => vec!["8408008010".into(), "FFFFFFFFFF".into(), "84".into(), "z".into()],
		Op::Iad => vec![
			format!("0FA501A4200000001122334455667788{}", "0FA0A1A2A3A4A5A6A7A8A9AAABACADAE"),
			"0F".into(),
		],
		Op::Cvr => vec!["A420000000".into(), "00".into()],
		Op::Tsi => vec!["E800".into(), "0".into()],
		Op::CvmResults => vec!["420302".into(), "4203".into()],
		Op::CvmList => vec!["000000000000000942011F06".into(), "00".into()],
		Op::Identify => vec!["9F26".into(), "95".into(), "g".into()],
		Op::Auto => vec!["5F340101 5A0112".into(), "T5F34:01:h01 T5A:01:h12".into(), "zz".into()],
		Op::Ber => vec!["9F260112500156".into(), "9F26".into()],
		Op::Ingenico => vec!["T9F26:01:h12 T50:01:aV".into(), "T9F26".into()],
		Op::ServiceCode => vec!["201".into(), " 7 ".into(), "1000".into(), "x".into()],
	}
}
/// Every way to write one option with a value.
fn forms(name: &str, value: &str) -> Vec<Vec<String>> {
	let mut v = vec![
		vec![name.to_owned(), value.to_owned()],
		vec![format!("{name}={value}")],
	];
	if !name.starts_with("--") {
		v.push(vec![format!("{name}{value}")]);
	}
	v
}
fn judge_refused(o: &Outcome) -> Result<(), String> {
	match o.status {
		Status::Exit(0) => return Err("must be refused, but pemv succeeds".into()),
		Status::Exit(101) | Status::Signal(_) => return Err("must be refused, but pemv crashes".into()),
		Status::Exit(_) => (),
	}
	if !o.out.is_empty() {
		return Err("must be refused, but something is decoded".into());
	}
	if !o.err_str().to_lowercase().contains("usage") && !o.err_str().starts_with("error") {
		return Err("must be refused with a usage error".into());
	}
	Ok(())
}

pub fn c22(e: &mut Engine) {
	let same = |r: &mut Runner, base: &Outcome, c: &Case, what: &str| -> Result<(), Bad> {
		let o = r.run(c);
		r.item(&c.args);
		r.sample(|| c.shell("pemv"));
		model::step();
		if o.out != base.out || o.err != base.err || o.status != base.status {
			return Err(Bad::new(c, &o, base.out_str() + &base.err_str(), what));
		}
		Ok(())
	};
	let refused = |r: &mut Runner, c: &Case| -> Result<(), Bad> {
		let o = r.run(c);
		r.item(&c.args);
		model::step();
		judge_refused(&o).map_err(|m| Bad::new(c, &o, "", m))
	};
	// each spelling reaches its own operation
	e.family(
		"spellings of operations",
		"every spelling of every operation x separate, `=` and attached value x several values: all as the model of that operation says",
		11,
		|r, i| {
			let op = ALL_OPS[i as usize];
			for v in values_for(op) {
				let exp = expect(op, v.as_bytes(), &Settings::default());
				let base = r.run(&op_case(op, &v));
				// the operation itself, as a whole
				let ok = match &exp.result {
					Ok(_) => !base.out.is_empty() && base.err.is_empty(),
					Err(_) => base.out.is_empty() && one_line(&base.err),
				};
				if !ok || exp.result.is_ok() && !belongs(op, &base) {
					return Err(Bad::new(
						&op_case(op, &v),
						&base,
						exp.stdout(),
						"the option does not reach its operation",
					));
				}
				for s in spellings(op) {
					for f in forms(s, &v) {
						same(r, &base, &Case::new(&f), "spellings of one operation differ")?;
					}
				}
			}
			Ok(())
		},
	);
	// exactly one operation
	let all: Vec<(Op, &str)> = ALL_OPS
		.iter()
		.flat_map(|o| spellings(*o).iter().map(|s| (*o, *s)))
		.collect();
	let n = all.len() as u64;
	e.family(
		"pairs of operations",
		"every ordered pair of spellings (also of one and the same operation, with another or the same value), the values apart and behind `=`: refused",
		n * n,
		|r, i| {
			let (a, b) = (all[(i / n) as usize], all[(i % n) as usize]);
			let (va, vb) = (values_for(a.0), values_for(b.0));
			refused(r, &Case::new(&[a.1, &va[0], b.1, &vb[0]]))?;
			refused(r, &Case::new(&[format!("{}={}", a.1, va[0]), format!("{}={}", b.1, vb[0])]))?;
			if a.0 == b.0 {
				refused(r, &Case::new(&[format!("{}={}", a.1, va[0]), format!("{}={}", b.1, vb[vb.len() - 1])]))?;
				refused(r, &Case::new(&[a.1, &va[0], b.1, &vb[vb.len() - 1]]))?;
				refused(r, &Case::new(&[a.1, &va[0], b.1, &vb[0], a.1, &va[0]]))?;
			}
			Ok(())
		},
	);
	e.family(
		"triples of operations",
		"every triple of different operations: refused",
		11 * 11 * 11,
		|r, i| {
			let d = digits(i, &[11, 11, 11]);
			if d[0] == d[1] || d[1] == d[2] || d[0] == d[2] {
				return Ok(());
			}
			let args: Vec<String> = d
				.iter()
				.map(|x| format!("{}={}", ALL_OPS[*x].flag(), values_for(ALL_OPS[*x])[0]))
				.collect();
			refused(r, &Case::new(&args))
		},
	);
	e.family(
		"empty and missing values",
		"every spelling of every operation with an empty value in each form, or none: refused",
		n * 3,
		|r, i| {
			let s = all[(i / 3) as usize].1;
			let c = match i % 3 {
				0 => Case::new(&[s, ""]),
				1 => Case::new(&[format!("{s}=")]),
				_ => Case::new(&[s]),
			};
			refused(r, &c)
		},
	);
	// options of the TLV operations
	let masking = ["-m", "--masking-character", "--masking-char", "--masking"];
	let sorting = ["--sort-parsed-tags", "--sort"];
	let nosort = ["--no-sort-parsed-tags", "--no-sort"];
	let mut options: Vec<Vec<String>> = Vec::new();
	for m in masking {
		options.extend(forms(m, "X"));
	}
	for s in sorting.iter().chain(&nosort) {
		options.push(vec![s.to_string()]);
		for v in ["true", "false"] {
			options.push(vec![format!("{s}={v}")]);
			options.push(vec![s.to_string(), v.to_owned()]);
		}
	}
	let no = options.len() as u64;
	e.family(
		"TLV options with every operation",
		"every spelling of the masking and sorting options, before and behind every spelling of every operation: refused unless it is a TLV operation",
		no * n * 2,
		|r, i| {
			let d = digits(i, &[no, n, 2]);
			let (op, s) = all[d[1]];
			let val = values_for(op)[0].clone();
			let mut args: Vec<String> = vec![s.to_owned(), val];
			if d[2] == 0 {
				args.extend(options[d[0]].clone());
			} else {
				args = [options[d[0]].clone(), args].concat();
			}
			let c = Case::new(&args);
			if !op.is_tlv() {
				return refused(r, &c);
			}
			let o = r.run(&c);
			r.item(&c.args);
			model::step();
			if o.out.is_empty() || o.status != Status::Exit(0) {
				return Err(Bad::new(&c, &o, "", "a TLV option is refused together with a TLV operation"));
			}
			Ok(())
		},
	);
	e.family(
		"TLV options without an operation",
		"every spelling of the masking and sorting options by itself, and pairs of them: refused",
		no * (no + 1),
		|r, i| {
			let d = digits(i, &[no, no + 1]);
			let mut args = options[d[0]].clone();
			if d[1] < options.len() {
				args.extend(options[d[1]].clone());
			}
			// only refusal is judged: some pairs are refused for another reason
			refused(r, &Case::new(&args))
		},
	);
	// what the options do, in every spelling
	let block = hex(&[
		tlv(&[0x9F, 0x26], &[1]),
		tlv(&[0x5A], b"XXX"),
		tlv(&[0x50], b"***"),
		tlv(&[0x42], b"##"),
	]
	.concat());
	let ops: [&[&str]; 3] = [spellings(Op::Auto), spellings(Op::Ber), spellings(Op::Ingenico)];
	let ing = "T9F26:01:h01 T5A:03:aXXX T50:03:a*** T42:02:a##";
	let effects: Vec<(Vec<Vec<String>>, Settings)> = {
		let d = Settings::default();
		let set = |masks: &[char], sort: bool| Settings {
			masks: masks.to_vec(),
			sort,
		};
		let one = |a: &[&str]| -> Vec<String> { a.iter().map(|s| s.to_string()).collect() };
		let mut x = Vec::new();
		let mut by: Vec<Vec<String>> = Vec::new();
		for m in masking {
			by.extend(forms(m, "X"));
		}
		x.push((by, set(&['X'], true)));
		let mut by = Vec::new();
		for a in masking {
			for b in masking {
				for fa in forms(a, "X") {
					for fb in forms(b, "#") {
						by.push([fa.clone(), fb].concat());
					}
				}
			}
			by.push(one(&[a, "X", "#"]));
			by.push(one(&[a, "#", "X"]));
			by.push(one(&[a, "X", "#", "X"]));
		}
		x.push((by, set(&['X', '#'], true)));
		let mut on = vec![vec![]];
		let mut off = Vec::new();
		for s in sorting {
			on.push(one(&[s]));
			on.push(one(&[s, "true"]));
			on.push(one(&[&format!("{s}=true")]));
			off.push(one(&[s, "false"]));
			off.push(one(&[&format!("{s}=false")]));
		}
		for s in nosort {
			off.push(one(&[s]));
			off.push(one(&[s, "true"]));
			off.push(one(&[&format!("{s}=true")]));
			on.push(one(&[s, "false"]));
			on.push(one(&[&format!("{s}=false")]));
		}
		// both kinds of option together
		let mut both = Vec::new();
		for a in &off {
			for m in masking {
				both.push([a.clone(), vec![format!("{m}=X")]].concat());
				both.push([vec![m.to_owned(), "X".to_owned()], a.clone()].concat());
			}
		}
		x.push((on, d.clone()));
		x.push((off, set(&['*'], false)));
		x.push((both, set(&['X'], false)));
		x
	};
	let flat: Vec<(&Vec<String>, &Settings)> = effects.iter().flat_map(|(a, s)| a.iter().map(move |x| (x, s))).collect();
	e.family(
		"what TLV options do",
		"every spelling and form of the masking and sorting options (and pairs of them), before or behind every spelling of the TLV operations",
		flat.len() as u64 * 3,
		|r, i| {
			let d = digits(i, &[flat.len() as u64, 3]);
			let (args, set) = flat[d[0]];
			let op = [Op::Auto, Op::Ber, Op::Ingenico][d[1]];
			let text = if op == Op::Ingenico { ing } else { &block };
			for s in ops[d[1]] {
				for before in [false, true] {
					let mut v = vec![s.to_string(), text.to_owned()];
					v = if before {
						[args.clone(), v].concat()
					} else {
						[v, args.clone()].concat()
					};
					let c = Case::new(&v);
					let o = r.run(&c);
					r.item(&c.args);
					r.sample(|| c.shell("pemv"));
					let exp = expect(op, text.as_bytes(), set);
					judge_tlv(op, &exp, &o, SETTINGS_SHOWN)
						.map_err(|m| Bad::new(&c, &o, exp.stdout(), format!("an option's spelling or place changes what it does: {m}")))?;
				}
			}
			Ok(())
		},
	);
	// colour
	e.family(
		"colour spellings",
		"--colour and --color, separate and `=`, every word, before and behind every operation; words that do not exist: refused",
		11 * 7,
		|r, i| {
			let d = digits(i, &[11, 7]);
			let w = ["auto", "always", "ansi", "never", "", "sometimes", "true"][d[1]];
			let op = ALL_OPS[d[0]];
			let v = values_for(op)[0].clone();
			let base = r.run(&op_case(op, &v).arg(format!("--colour={w}")));
			for s in ["--colour", "--color"] {
				for f in forms(s, w).into_iter().take(2) {
					for before in [false, true] {
						let o = vec![op.flag().to_owned(), v.clone()];
						let args = if before {
							[f.clone(), o].concat()
						} else {
							[o, f.clone()].concat()
						};
						if d[1] >= 4 {
							refused(r, &Case::new(&args))?;
						} else {
							same(r, &base, &Case::new(&args), "spellings of one option differ")?;
						}
					}
				}
			}
			Ok(())
		},
	);
	// conflicts
	e.family(
		"sorting both ways",
		"every spelling of sorting and of not sorting together: refused",
		5 * 2 * 5 * 2 * 2,
		|r, i| {
			let d = digits(i, &[5, 2, 5, 2, 2]);
			let f = |s: &str, k: usize| -> Vec<String> {
				match k {
					0 => vec![s.to_owned()],
					1 => vec![format!("{s}=true")],
					2 => vec![format!("{s}=false")],
					3 => vec![s.to_owned(), "true".to_owned()],
					_ => vec![s.to_owned(), "false".to_owned()],
				}
			};
			let (a, b) = (f(sorting[d[1]], d[0]), f(nosort[d[3]], d[2]));
			let mut v = vec!["-b".to_owned(), block.clone()];
			if d[4] == 0 {
				v.extend(a);
				v.extend(b);
			} else {
				v.extend(b);
				v.extend(a);
			}
			refused(r, &Case::new(&v))
		},
	);
	// bad option values, unknown options, stray arguments
	e.family(
		"bad option values",
		"masking characters that are not one character, sorting values that are not boolean, stray arguments: refused",
		3 * 13,
		|r, i| {
			let d = digits(i, &[3, 13]);
			let extra: Vec<&str> = match d[1] {
				0 => vec!["--masking-character=XY"],
				1 => vec!["--masking-character="],
				2 => vec!["-m"],
				3 => vec!["--sort=yes"],
				4 => vec!["--sort="],
				5 => vec!["--no-sort=1"],
				6 => vec!["--nonsense"],
				7 => vec!["--colour"],
				8 => vec!["stray"],
				9 => vec!["--", "stray"],
				10 => vec!["-x"],
				11 => vec!["--no-sort=TRUE "],
				_ => vec!["--masking=éé"],
			};
			let mut v = vec![["-a", "-b", "-i"][d[0]], if d[0] == 2 { ing } else { &block }];
			v.extend(extra);
			refused(r, &Case::new(&v))
		},
	);
	// nothing else is an option
	let documented: Vec<String> = {
		let mut v: Vec<String> = ALL_OPS.iter().flat_map(|o| spellings(*o).iter().map(|s| (*s).to_owned())).collect();
		for s in masking.iter().chain(&sorting).chain(&nosort).chain(&["--colour", "--color", "--help", "--version", "-h", "-?", "-V"]) {
			v.push((*s).to_owned());
		}
		v
	};
	let mut near: std::collections::BTreeSet<String> = std::collections::BTreeSet::new();
	for d in documented.iter().filter(|d| d.starts_with("--")) {
		let w = &d[2..];
		for k in 1..w.len() {
			near.insert(w[..k].to_owned());
			near.insert(w[k..].to_owned());
			near.insert(format!("{}{}", &w[..k], &w[k + 1..]));
			near.insert(format!("{}{}", &w[..k], w[k..].to_uppercase()));
		}
		for x in [w.to_uppercase(), w.replace('-', "_"), w.replace('-', ""), format!("{w}s"), format!("{w}-"), format!("-{w}"), format!("no-{w}"), format!("{w}1")] {
			near.insert(x);
		}
		let mut c = w.chars();
		near.insert(c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default());
	}
	let near: Vec<String> = near.into_iter().map(|w| format!("--{w}")).filter(|w| !documented.contains(w) && w != "--").collect();
	e.notes.push(format!("{} words near the documented options", near.len()));
	// any one character may be the masking character, and nothing else
	let odd: Vec<char> = (0x20u8..0x7F).map(char::from).chain("éßÿĀ€•█＊中😀𝟘\u{1}\t\n\u{7F}\u{A0}\u{AD}".chars()).collect();
	let nodd = odd.len() as u64;
	e.family(
		"every masking character",
		"every printable character and some wide and control ones as the masking character, in every spelling and form: exactly that one masks",
		nodd,
		|r, i| {
			let c = odd[i as usize];
			let v = c.to_string();
			let other = if c == '#' { "X" } else { "#" };
			let block = hex(&[
				tlv(&[0x9F, 0x26], &[1]),
				tlv(&[0x5A], v.repeat(3).as_bytes()),
				tlv(&[0x50], b"***"),
				tlv(&[0x42], other.repeat(2).as_bytes()),
			]
			.concat());
			let set = Settings { masks: vec![c], ..Settings::default() };
			let exp = expect(Op::Ber, block.as_bytes(), &set);
			for m in masking {
				for f in forms(m, &v) {
					// `-m=` has an empty value
					if f[0] == "-m=" {
						continue;
					}
					for before in [false, true] {
						let mut a = vec!["-b".to_owned(), block.clone()];
						a = if before { [f.clone(), a].concat() } else { [a, f.clone()].concat() };
						let case = Case::new(&a);
						let o = r.run(&case);
						r.item(&case.args);
						r.sample(|| case.shell("pemv"));
						judge_tlv(Op::Ber, &exp, &o, SETTINGS_SHOWN)
							.map_err(|m| Bad::new(&case, &o, exp.stdout(), format!("a masking character is not taken as it is: {m}")))?;
					}
				}
			}
			Ok(())
		},
	);
	many_masks(e);
	e.family(
		"masking words of two characters",
		"every two printable characters as one masking word: refused",
		95 * 95,
		|r, i| {
			let w: String = [0x20 + (i / 95) as u8, 0x20 + (i % 95) as u8].iter().map(|b| *b as char).collect();
			refused(r, &Case::new(&["-b".to_owned(), "5A0112".to_owned(), format!("{}={w}", masking[1 + i as usize % 3])]))?;
			if w.starts_with('-') {
				return Ok(());
			}
			refused(r, &Case::new(&["-b", "5A0112", "-m", &w]))
		},
	);
	e.family(
		"masking words of three characters",
		"every three of a set of separators, quotes, letters and digits as one masking word: refused",
		18 * 18 * 18,
		|r, i| {
			let set: Vec<char> = ",;:|/ .*#X0'\"[]\\\u{e9}=".chars().collect();
			let w: String = digits(i, &[18, 18, 18]).iter().map(|x| set[*x]).collect();
			refused(r, &Case::new(&["-b".to_owned(), "5A0112".to_owned(), format!("--masking={w}")]))
		},
	);
	// what stands in the place of a value
	let mut hyphened: Vec<String> = documented.clone();
	for w in [
		"-x", "-1", "-5", "-201", "-95", "-1.5", "-1e3", "-0", "-00", "-F", "-9F26", "-5A0112", "-m*", "-mX", "-b5A0112", "-s201", "-aFF", "--colour=never", "--masking=X",
		"--sort=true", "--ber-tlv=5A0112", "--tvr=0000000000", "--nothing", "--", "---", "--201", "--1", "--=", "--5A0112", "-=", "-:", "-T50:01:aV", "-é",
	] {
		hyphened.push(w.to_owned());
	}
	let nh = hyphened.len() as u64;
	e.family(
		"options in the place of a value",
		"every documented option, and odd words and numbers that begin with a hyphen, where the value of an operation should stand: nothing is decoded",
		n * nh * 2,
		|r, i| {
			let d = digits(i, &[n, nh, 2]);
			let (op, s) = all[d[0]];
			let w = hyphened[d[1]].as_str();
			let mut v = vec![s, w];
			let val = values_for(op)[0].clone();
			if d[2] == 1 {
				v.push(&val);
				// the value behind `--` is a stray argument still
			}
			let c = Case::new(&v);
			let o = r.run(&c);
			r.item(&c.args);
			model::step();
			// help and version are their own answers
			if matches!(w, "-h" | "-?" | "-V" | "--help" | "--version") {
				return Ok(());
			}
			judge_refused(&o).map_err(|m| Bad::new(&c, &o, "", m))
		},
	);
	e.family(
		"words that are no options",
		"every beginning and end of every documented long option, each with one letter missing, in other case, with other hyphens or something added, with and without a value, alone and beside an operation: refused unless documented itself",
		near.len() as u64 * 5,
		|r, i| {
			let w = &near[i as usize / 5];
			let c = match i % 5 {
				0 => Case::new(&[w.as_str()]),
				1 => Case::new(&[w.as_str(), "95"]),
				2 => Case::new(&[format!("{w}=95")]),
				3 => Case::new(&["-b", "5A0112", w]),
				_ => Case::new(&[w.as_str(), "--ber-tlv=5A0112"]),
			};
			refused(r, &c)
		},
	);
	// nor is any other word
	let letters: Vec<char> = ('a'..='z').collect();
	let nl = letters.len() as u64;
	let longest = e.pick(3, 4);
	let mut plain: Vec<String> = Vec::new();
	let sq = Seqs { k: nl, lo: 1, hi: longest };
	let words = "hex bytes data tlv ber emv emvco track track1 track2 msr magstripe card icc chip tag tags tagname name names service servicecode code codes \
		issuer application iad verification results result terminal tvr cvr cvm cvmr cvml cvmlist cvmresult list rule rules tsi status information transaction \
		auto autodetect detect any guess parse parser decode read show display print dump hexdump raw text ascii plain json yaml toml xml csv html format output \
		out input in file stdin config configuration conf cfg settings profile profiles env environment mask masks masked masking-char masking-chars \
		masking-characters mask-char mask-character mask-characters unmask sort sorted sort-tags sort-parsed sort-parsed-tag unsorted no-sort-tags \
		no-sort-parsed order color colors colours colouring no-color no-colour color-mode ansi verbose quiet silent debug trace log log-level dry-run force yes \
		all help-all usage about author licence license credits man manual completions complete generate version-long ver strict lenient permissive safe unsafe \
		ingenico ing ingenico-tlv ing-tlv verifone pax newland ber-tlv-hex bertlv tlvs dol pdol cdol ddol tdol aid apdu atr pan expiry pin amount currency country \
		language bitmap bits binary bin decimal number id ident identity identifier ccd ccd-iad vis mchip visa mastercard amex interac jcb discover unionpay \
		class tag-class encode build make write edit compare diff validate check test self-test update upgrade install init watch follow recursive depth indent \
		width columns limit offset skip count index from to with without only exclude include filter match find search query explain describe details long short \
		wide compact tree flat nested children parent root template terminal-verification-results-hex tvr-hex cvr-hex tsi-hex cvm cardholder \
		cardholder-verification card-verification-result cvm-result cvm-rules service-codes tag-identify identify identify-tags tag-name tag-id";
	for w in words.split_whitespace() {
		plain.push(w.to_owned());
	}
	let spec_words: Vec<String> = crate::spec::TAG_NAMES
		.iter()
		.flat_map(|(_, n)| {
			let w: Vec<String> = n.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(str::to_lowercase).collect();
			let initials: String = w.iter().filter_map(|x| x.chars().next()).collect();
			let mut v = vec![w.join("-"), initials];
			v.extend(w);
			v
		})
		.collect();
	plain.extend(spec_words);
	plain.sort();
	plain.dedup();
	plain.retain(|w| !documented.contains(&format!("--{w}")) && w.len() > 1);
	e.notes.push(format!("{} plausible words", plain.len()));
	e.family(
		"other words that are no options",
		"every word of up to 3 (4) letters and every one of a long list of plausible ones, including those of the names of all tags, beside an operation: refused unless documented itself",
		sq.count() + plain.len() as u64 * 3,
		|r, i| {
			if i < sq.count() {
				let w: String = sq.get(i).iter().map(|x| letters[*x]).collect();
				let w = format!("--{w}");
				if documented.contains(&w) {
					return Ok(());
				}
				return refused(r, &Case::new(&[&w, "5A0112"]));
			}
			let w = format!("--{}", plain[(i - sq.count()) as usize / 3]);
			match (i - sq.count()) % 3 {
				0 => refused(r, &Case::new(&[w.as_str(), "5A0112"])),
				1 => refused(r, &Case::new(&["-b", "5A0112", &w])),
				_ => refused(r, &Case::new(&["-b", "5A0112", &format!("{w}=1")])),
			}
		},
	);
	e.family(
		"words that are no commands",
		"every plausible word in place of an operation, alone, before and behind one, and with a value: refused",
		plain.len() as u64,
		|r, i| {
			let w = plain[i as usize].as_str();
			refused(r, &Case::new(&[w]))?;
			refused(r, &Case::new(&[w, "5A0112"]))?;
			refused(r, &Case::new(&[w, "-b", "5A0112"]))?;
			refused(r, &Case::new(&["-b", "5A0112", w]))
		},
	);
	e.family(
		"letters that are no options",
		"every printable character as a short option, and every pair of letters, beside an operation and with a value: refused unless documented",
		95 * 95,
		|r, i| {
			let d = digits(i, &[95, 95]);
			let a = (0x20 + d[0] as u8) as char;
			let b = (0x20 + d[1] as u8) as char;
			let known = |c: char| documented.iter().any(|x| x.len() == 2 && x.ends_with(c));
			if known(a) || a == '-' {
				return Ok(());
			}
			if d[1] == 0 {
				refused(r, &Case::new(&[format!("-{a}")]))?;
				refused(r, &Case::new(&[format!("-{a}"), "95".to_owned()]))?;
				refused(r, &Case::new(&["-b", "5A0112", &format!("-{a}")]))?;
			}
			refused(r, &Case::new(&["-b".to_owned(), "5A0112".to_owned(), format!("-{a}{b}")]))
		},
	);
	// help and version
	e.family(
		"help and version",
		"the spellings of help and of version, alone and with an operation; no arguments at all: refused",
		10,
		|r, i| {
			let run = |r: &mut Runner, a: &[&str]| {
				let c = Case::new(a);
				let o = r.run(&c);
				r.item(&c.args);
				(c, o)
			};
			match i {
				0 => refused(r, &Case::new::<&str>(&[])),
				1..=4 => {
					let a = [["-h"], ["-?"], ["--help"], ["--version"]][i as usize - 1];
					let (c, o) = run(r, &a);
					if o.status != Status::Exit(0) || o.out.is_empty() || !o.err.is_empty() {
						return Err(Bad::new(&c, &o, "", "help or version is not shown"));
					}
					Ok(())
				}
				5 => {
					let (_, a) = run(r, &["-h"]);
					same(r, &a, &Case::new(&["-?"]), "-h and -? differ")
				}
				6 => {
					let (_, a) = run(r, &["-V"]);
					same(r, &a, &Case::new(&["--version"]), "-V and --version differ")
				}
				7 => {
					let (_, a) = run(r, &["-h"]);
					same(r, &a, &Case::new(&["-b", &block, "-h"]), "help depends on the operation")
				}
				8 => {
					let (_, a) = run(r, &["--help"]);
					same(r, &a, &Case::new(&["--help", "--tvr", "00"]), "help depends on the operation")
				}
				_ => {
					let (_, a) = run(r, &["--version"]);
					same(r, &a, &Case::new(&["-t", "00", "-V"]), "version depends on the operation")
				}
			}
		},
	);
	// a value begins with any character, in any spelling
	let ahead: Vec<String> = (0x20u8..0x7F).filter(|c| !c.is_ascii_hexdigit()).flat_map(|c| [1usize, 2, 3].map(|n| (c as char).to_string().repeat(n))).collect();
	e.family(
		"characters before a value",
		"each printable character that is no hex digit, once to three times before the value of every operation, in every spelling and form: one result for all, and for hex values that of the bare value",
		11 * ahead.len() as u64,
		|r, i| {
			let d = digits(i, &[11, ahead.len() as u64]);
			let op = ALL_OPS[d[0]];
			let bare = values_for(op)[0].clone();
			let v = format!("{}{bare}", ahead[d[1]]);
			let exact = matches!(op, Op::Ingenico | Op::Auto | Op::ServiceCode);
			let base = r.run(&Case::new(&[format!("{}={}", op.flag(), if exact { &v } else { &bare })]));
			for s in spellings(op) {
				for f in forms(s, &v) {
					// where the value stands alone it looks like an option; where it is attached `=` belongs to the spelling
					if f.len() == 2 && v.starts_with('-') || f.len() == 1 && f[0].len() == s.len() + v.len() && v.starts_with('=') {
						continue;
					}
					same(r, &base, &Case::new(&f), "a character before the value changes the operation or its result")?;
				}
			}
			Ok(())
		},
	);
}
/// Does this output look like that operation's? (Its exact contents are other properties' business.)
fn belongs(op: Op, o: &Outcome) -> bool {
	let out = o.out_str();
	match op {
		Op::Tvr => out.starts_with("10000100 00001000 ") || out.starts_with("11111100 "),
		Op::Iad => out.starts_with("Common Core Identifier"),
		Op::Cvr => out.starts_with("10100100 00100000 "),
		Op::Tsi => out.starts_with("11101000 00000000\n"),
		Op::CvmResults => out.starts_with("01000010 00000011 00000010\n"),
		Op::CvmList => out.contains("CVM 2"),
		Op::Identify => out.contains("Class"),
		Op::Auto => out.starts_with("TLV Format"),
		Op::Ber | Op::Ingenico => out.starts_with("Tag: 0x50"),
		Op::ServiceCode => out.starts_with("201\n") || out.starts_with("007\n"),
	}
}

#[allow(dead_code)]
fn unused() {
	let _ = observe::block;
}
