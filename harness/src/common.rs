//! Alphabets and judging shared by the checks.

use crate::engine::{Bad, Engine, Runner};
use crate::model::{self, expect, hex, tlv, Expect, Lines, Op, Settings, Val};
use crate::observe::{self, Proj};
use crate::server::{Case, Outcome};

pub fn op_case(op: Op, text: &str) -> Case {
	Case::new(&[op.flag(), text])
}
pub fn settings_args(c: Case, s: &Settings) -> Case {
	let mut c = c;
	if !s.sort {
		c = c.arg("--no-sort-parsed-tags");
	}
	if s.masks != ['*'] {
		for m in &s.masks {
			c = c.arg(format!("--masking-character={m}"));
		}
	}
	c
}

/// Data objects, one per path through the tool: (label, tag, value).
pub fn palette() -> Vec<(&'static str, Vec<u8>)> {
	let iad = {
		let mut v = vec![0x0F, 0xA5, 0x01, 0x03, 0xA4, 0x20, 0x00, 0x00];
		v.extend([0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88]);
		v.push(0x0F);
		v.extend(0xA0..0xAF);
		v
	};
	vec![
		("plain", tlv(&[0x5A], &[0x11, 0x22])),
		("two-byte tag", tlv(&[0x5F, 0x34], &[0x01])),
		("unknown three-byte tag", tlv(&[0xDF, 0x81, 0x01], &[0xAA, 0xBB, 0xCC])),
		("empty", tlv(&[0x50], &[])),
		("eight bytes", tlv(&[0x9F, 0x26], &[1, 2, 3, 4, 5, 6, 7, 0x81])),
		("long-form length", vec![0x57, 0x82, 0x00, 0x02, 0x41, 0x7F]),
		("three length bytes", vec![0x82, 0x83, 0x00, 0x00, 0x02, 0x19, 0x80]),
		("TVR", tlv(&[0x95], &[0x84, 0x08, 0x00, 0x80, 0x10])),
		("CVM results", tlv(&[0x9F, 0x34], &[0x42, 0x03, 0x02])),
		("TSI", tlv(&[0x9B], &[0xE8, 0x00])),
		("transaction type", tlv(&[0x9C], &[0x09])),
		("transaction type, unknown", tlv(&[0x9C], &[0x77])),
		("response code", tlv(&[0x8A], b"05")),
		("response code, unknown", tlv(&[0x8A], b"Z3")),
		(
			"CVM list",
			tlv(&[0x8E], &[0, 0, 0, 0, 0, 0, 0, 9, 0x42, 0x01, 0x1F, 0x06]),
		),
		("IAD, CCD", tlv(&[0x9F, 0x10], &iad)),
		("IAD, not CCD", tlv(&[0x9F, 0x10], &[0x06, 0x01, 0x0A, 0x03])),
		("service code", tlv(&[0x5F, 0x30], &[0x02, 0x01])),
		("terminal type", tlv(&[0x9F, 0x35], &[0x22])),
		("POS entry mode", tlv(&[0x9F, 0x39], &[0x05])),
		("terminal capabilities", tlv(&[0x9F, 0x33], &[0xE0, 0xB8, 0xC8])),
		(
			"additional terminal capabilities",
			tlv(&[0x9F, 0x40], &[0x60, 0x00, 0xF0, 0xA0, 0x01]),
		),
		("IAC denial", tlv(&[0x9F, 0x0E], &[0x00, 0x10, 0x00, 0x00, 0x00])),
		("IAC online", tlv(&[0x9F, 0x0F], &[0xFC, 0x50, 0x84, 0xA0, 0x00])),
		("masked", tlv(&[0x5A], b"****")),
		(
			"nested",
			tlv(
				&[0x6F],
				&tlv(&[0xA5], &[tlv(&[0x50], b"VISA"), tlv(&[0x87], &[1])].concat()),
			),
		),
		("constructed, broken", tlv(&[0x70], &[0xFF, 0xFF, 0xFF])),
		("constructed, empty", tlv(&[0xBF, 0x0C], &[])),
		("zero tag", vec![0x00, 0x01, 0x00]),
		("private tag", tlv(&[0xC1], &[0x42, 0x20])),
	]
}

/// A value that tag accepts, of the given length if it can be chosen; None when the tag admits no value of
/// that length.
pub fn valid_value(tag: &[u8], len: usize) -> Option<Vec<u8>> {
	let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 37 + 0x8D) as u8).collect() };
	let fixed = |v: &[u8]| (v.len() == len).then(|| v.to_vec());
	match tag {
		[0x5F, 0x30] => fixed(&[0x02, 0x01]),
		[0x8A] => fixed(b"00"),
		[0x8E] => (len >= 8 && len % 2 == 0).then(|| fill(len)),
		[0x95] | [0x9F, 0x0D | 0x0E | 0x0F | 0x40] if len == 5 => Some(fill(5)),
		[0x9B] if len == 2 => Some(fill(2)),
		[0x9F, 0x33] if len == 3 => Some(fill(3)),
		[0x95 | 0x9B] | [0x9F, 0x0D | 0x0E | 0x0F | 0x40 | 0x33] => None,
		[0x9C] => (len == 1).then(|| fill(1)),
		[0x9F, 0x34] => fixed(&[0x42, 0x03, 0x02]),
		[0x9F, 0x35] => fixed(&[0x22]),
		[0x9F, 0x39] => fixed(&[0x05]),
		_ => Some(fill(len)),
	}
}

/// The bytes of plain hex digits.
pub fn hex_bytes(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex digits")).collect()
}

/// Every well-formed tag of `n` bytes drawn from the given subsequent bytes.
pub fn one_byte_tags() -> Vec<Vec<u8>> {
	(0..=255u8)
		.filter(|b| b & 0x1F != 0x1F)
		.map(|b| vec![b])
		.collect()
}
pub fn two_byte_tags() -> Vec<Vec<u8>> {
	let mut v = Vec::new();
	for c in 0..8u8 {
		for b in 0..128u8 {
			v.push(vec![(c << 5) | 0x1F, b]);
		}
	}
	v
}
pub fn longer_tags() -> Vec<Vec<u8>> {
	let mut v = Vec::new();
	for first in [0x1F, 0x3F, 0x5F, 0x7F, 0x9F, 0xBF, 0xDF, 0xFF] {
		for n in 1..=6usize {
			for cont in [0x80u8, 0x81, 0xFF] {
				for last in [0x00u8, 0x01, 0x1F, 0x7F] {
					let mut t = vec![first];
					t.extend(std::iter::repeat(cont).take(n));
					t.push(last);
					v.push(t);
				}
			}
		}
	}
	v
}

/// The length bytes for n in the given form: 0 short, 1..=4 that many length bytes.
pub fn length_bytes(n: usize, form: usize) -> Option<Vec<u8>> {
	match form {
		0 => (n < 0x80).then(|| vec![n as u8]),
		k => {
			let be = (n as u32).to_be_bytes();
			if be[..4 - k].iter().any(|b| *b != 0) {
				return None;
			}
			let mut v = vec![0x80 + k as u8];
			v.extend(&be[4 - k..]);
			Some(v)
		}
	}
}

pub fn one_line(err: &[u8]) -> bool {
	err.len() > 1 && err.ends_with(b"\n") && err.iter().filter(|b| **b == b'\n').count() == 1
}

/// Judges the outcome of a TLV operation by the parts of it that `proj` names.
pub fn judge_tlv(op: Op, exp: &Expect, o: &Outcome, proj: Proj) -> Result<(), String> {
	if exp.ambiguous {
		return Ok(());
	}
	match &exp.result {
		Ok(l) => {
			let out = o.out_str();
			if o.err.is_empty() && out == model::text_of(l) {
				return Ok(());
			}
			if !o.err.is_empty() {
				return Err(format!("a valid block is diagnosed: {}", o.err_str()));
			}
			let got = observe::block(body(op, &out))?;
			observe::compare(&exp.tree, &got, proj, "")
		}
		Err(d) => {
			if !o.out.is_empty() {
				return Err(format!("an invalid block is decoded (reason to refuse it: {d:?})"));
			}
			if !one_line(&o.err) {
				return Err(format!(
					"an invalid block must give one diagnostic line (reason: {d:?}), got {:?}",
					o.err_str()
				));
			}
			Ok(())
		}
	}
}

/// One TLV input, run and judged by itself.
pub fn single_tlv(r: &mut Runner, op: Op, text: &str, s: &Settings, proj: Proj) -> Result<(), Bad> {
	let exp = expect(op, text.as_bytes(), s);
	let c = settings_args(op_case(op, text), s);
	let o = r.run(&c);
	r.item(&(op, text, &s.masks, s.sort));
	r.sample(|| format!("{} -> {}", c.shell("pemv"), o.out_str()));
	judge_tlv(op, &exp, &o, proj).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
}

/// Many encoded objects as one block.
pub fn pack_ber(r: &mut Runner, items: &[Vec<u8>], s: &Settings, proj: Proj) -> Result<(), Bad> {
	for i in items {
		r.item(i);
	}
	r.sample(|| format!("a block of {} objects beginning {}", items.len(), hex(&items[0])));
	let mk = |v: &[Vec<u8>]| settings_args(op_case(Op::Ber, &hex(&v.concat())), s);
	let judge = |v: &[Vec<u8>], o: &Outcome| {
		let exp = expect(Op::Ber, hex(&v.concat()).as_bytes(), s);
		judge_tlv(Op::Ber, &exp, o, proj)
	};
	r.pack(items, &mk, &judge)
}



/// Explores `count` encoded objects: those the model accepts packed into blocks of up to 60,000 bytes, those it
/// refuses one by one. `sensible` picks what the property speaks about.
pub fn explore_objects<G>(
	e: &mut Engine,
	name: &str,
	rule: &str,
	count: u64,
	settings: &Settings,
	proj: Proj,
	refused: Refused,
	gen: G,
) where
	G: Fn(u64) -> Vec<u8> + Sync,
{
	// every block is one execution: keep them big, but give each core several
	let per = (count / 64).clamp(1, 4096);
	e.family(name, rule, count.div_ceil(per), |r, chunk| {
		let mut pack: Vec<Vec<u8>> = Vec::new();
		let mut size = 0;
		for i in chunk * per..((chunk + 1) * per).min(count) {
			let obj = gen(i);
			let text = hex(&obj);
			let exp = expect(Op::Ber, text.as_bytes(), settings);
			if exp.ambiguous {
				continue;
			}
			if exp.result.is_err() {
				if refused == Refused::Run {
					single_tlv(r, Op::Ber, &text, settings, proj)?;
				}
				continue;
			}
			if size + obj.len() > 60_000 {
				pack_ber(r, &pack, settings, proj)?;
				pack.clear();
				size = 0;
			}
			size += obj.len();
			pack.push(obj);
		}
		if pack.is_empty() {
			return Ok(());
		}
		pack_ber(r, &pack, settings, proj)
	});
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Refused {
	Run,
	Skip,
}

/// The words of a breakdown without its drawing: lines that consist of drawing only disappear.
pub fn words(lines: &[String]) -> Vec<String> {
	lines
		.iter()
		.map(|l| {
			l.trim_start_matches(|c: char| " \t│├─┘└".contains(c))
				.trim_end_matches(|c: char| " │├─┘└".contains(c))
				.to_owned()
		})
		.filter(|l| !l.is_empty())
		.collect()
}
/// Lines as text, without the indentation `by`.
pub fn plain_lines(l: &Lines) -> Vec<String> {
	let mut s = String::new();
	model::write_lines(l, 0, &mut s);
	s.lines().map(str::to_owned).collect()
}

/// Decodes text to data objects, whatever the operation's heading.
pub fn body<'a>(op: Op, out: &'a str) -> &'a str {
	if op == Op::Auto {
		match out.strip_prefix("TLV Format: ") {
			Some(r) => r.split_once("\n\n").map_or("", |(_, b)| b),
			None => out,
		}
	} else {
		out
	}
}

/// One object in the Ingenico format, with hex data.
pub fn ingenico(tag: &[u8], value: &[u8]) -> String {
	format!("T{}:{:02X}:h{}", hex(tag), value.len(), hex(value))
}
/// The tag and the value of one encoded object.
pub fn split_tlv(obj: &[u8]) -> (Vec<u8>, Vec<u8>) {
	let n = model::parse_ber(obj, &[], 0, &mut false).expect("a valid object");
	assert_eq!(n.len(), 1);
	match &n[0].val {
		Val::Data(d) => (n[0].tag.clone(), d.clone()),
		Val::Masked => unreachable!(),
	}
}
