//! C08-C16 and C24: what single values mean.

use crate::broad::{self, Form};
use crate::common::*;
use crate::engine::{digits, product, Bad, Engine, Runner, Seqs};
use crate::model::{self, expect, hex, tlv, Op, Settings};
use crate::observe::{self, Obs, Proj};
use crate::server::{Case, Outcome};
use crate::spec::{self, Field};

/// A kind of bit-field value: its TLV tag, fields and size.
#[derive(Clone, Copy)]
struct BitKind {
	name: &'static str,
	tag: &'static [u8],
	fields: &'static [Field],
	size: usize,
	heading: Option<&'static str>,
	op: Option<Op>,
}
const BIT_KINDS: [BitKind; 7] = [
	BitKind {
		name: "TVR",
		tag: &[0x95],
		fields: spec::TVR,
		size: 5,
		heading: None,
		op: Some(Op::Tvr),
	},
	BitKind {
		name: "TSI",
		tag: &[0x9B],
		fields: spec::TSI,
		size: 2,
		heading: None,
		op: Some(Op::Tsi),
	},
	BitKind {
		name: "Terminal Capabilities",
		tag: &[0x9F, 0x33],
		fields: spec::TERM_CAPS,
		size: 3,
		heading: None,
		op: None,
	},
	BitKind {
		name: "Additional Terminal Capabilities",
		tag: &[0x9F, 0x40],
		fields: spec::ADD_CAPS,
		size: 5,
		heading: None,
		op: None,
	},
	BitKind {
		name: "IAC - Default",
		tag: &[0x9F, 0x0D],
		fields: spec::TVR,
		size: 5,
		heading: Some(spec::IAC_DEFAULT),
		op: None,
	},
	BitKind {
		name: "IAC - Denial",
		tag: &[0x9F, 0x0E],
		fields: spec::TVR,
		size: 5,
		heading: Some(spec::IAC_DENIAL),
		op: None,
	},
	BitKind {
		name: "IAC - Online",
		tag: &[0x9F, 0x0F],
		fields: spec::TVR,
		size: 5,
		heading: Some(spec::IAC_ONLINE),
		op: None,
	},
];

/// An IAD that carries these CVR bytes.
fn iad_with_cvr(cvr: &[u8]) -> Vec<u8> {
	let mut v = vec![0x0F, 0xA5, 0x01];
	v.extend(cvr);
	v.extend([1, 2, 3, 4, 5, 6, 7, 8]);
	v.push(0x0F);
	v.extend([9; 15]);
	v
}

/// Values worth exploring for a bit-field of `size` bytes: every byte value in every position over several
/// backgrounds, and every pair of bits set or cleared over the same.
fn interesting(size: usize, fields: &[Field]) -> Vec<Vec<u8>> {
	let mask = model::used_mask(fields, size);
	let mut v = Vec::new();
	let rfu: Vec<u8> = mask.iter().map(|m| !m).collect();
	let backgrounds = [vec![0; size], vec![0xFF; size], vec![0xAA; size], mask.clone(), rfu];
	for b in &backgrounds {
		for at in 0..size {
			for x in 0..=255u8 {
				let mut c = b.clone();
				c[at] = x;
				v.push(c);
			}
		}
		for i in 0..size * 8 {
			for j in 0..i {
				let mut c = b.clone();
				c[i / 8] ^= 0x80 >> (i % 8);
				c[j / 8] ^= 0x80 >> (j % 8);
				v.push(c);
			}
		}
	}
	v.sort();
	v.dedup();
	v
}
fn all_of_size(size: usize) -> u64 {
	1 << (size * 8)
}
fn nth_value(i: u64, size: usize) -> Vec<u8> {
	i.to_be_bytes()[8 - size..].to_vec()
}
/// The i-th way to set the defined bits (reserved bits zero).
fn nth_defined(i: u64, mask: &[u8]) -> Vec<u8> {
	let mut v = vec![0; mask.len()];
	let mut k = 0;
	for byte in (0..mask.len()).rev() {
		for bit in 0..8 {
			if mask[byte] >> bit & 1 == 1 {
				v[byte] |= ((i >> k & 1) as u8) << bit;
				k += 1;
			}
		}
	}
	v
}

/// Every set of at most `most` of `n` bits.
fn subsets(n: usize, most: u32) -> Vec<u64> {
	fn go(from: usize, n: usize, left: u32, now: u64, out: &mut Vec<u64>) {
		out.push(now);
		if left > 0 {
			for k in from..n {
				go(k + 1, n, left - 1, now | 1 << k, out);
			}
		}
	}
	let mut v = Vec::new();
	go(0, n, most, 0, &mut v);
	v
}

/// How the part of a breakdown that a property is about is compared.
type Compare = dyn Fn(&BitKind, &[u8], &[String]) -> Result<(), String> + Sync;

/// Checks the breakdown of many values of one kind, packed into blocks and nested `depth` deep.
fn bit_blocks(
	e: &mut Engine,
	name: &str,
	rule: &str,
	kind: BitKind,
	count: u64,
	depth: usize,
	gen: &(dyn Fn(u64) -> Vec<u8> + Sync),
	cmp: &Compare,
) {
	let per = (count / 32).clamp(1, 2048);
	e.family(name, rule, count.div_ceil(per), |r, chunk| {
		// a value of masking characters alone is shown as masked (C06), not broken down
		let items: Vec<Vec<u8>> = (chunk * per..((chunk + 1) * per).min(count))
			.map(|i| gen(i))
			.filter(|v| !model::masked_bytes(v, &['*']))
			.collect();
		for i in &items {
			if i.len() <= 2 || count < 3_000_000 {
				r.item(&(kind.tag, i));
			}
		}
		if count >= 3_000_000 && kind.size > 2 {
			r.bulk_items(items.len() as u64);
		}
		bit_pack(r, &kind, &items, depth, cmp)
	});
}
fn bit_pack(r: &mut Runner, kind: &BitKind, items: &[Vec<u8>], depth: usize, cmp: &Compare) -> Result<(), Bad> {
	bit_pack_in(r, kind, items, &vec![&[0xE1][..]; depth], cmp)
}
fn bit_pack_in(r: &mut Runner, kind: &BitKind, items: &[Vec<u8>], above: &[&[u8]], cmp: &Compare) -> Result<(), Bad> {
	let depth = above.len();
	let mk = |v: &[Vec<u8>]| {
		let mut b: Vec<u8> = v.iter().flat_map(|x| tlv(kind.tag, x)).collect();
		for t in above {
			b = tlv(t, &b);
		}
		Case::new(&["-b", &hex(&b)])
	};
	let judge = |v: &[Vec<u8>], o: &Outcome| -> Result<(), String> {
		if !o.err.is_empty() {
			return Err(format!("valid values are diagnosed: {}", o.err_str()));
		}
		let mut nodes = observe::block(&o.out_str())?;
		for _ in 0..depth {
			nodes = nodes.pop().ok_or("no object shown")?.kids;
		}
		if nodes.len() != v.len() {
			return Err(format!("{} values given, {} shown", v.len(), nodes.len()));
		}
		for (x, n) in v.iter().zip(&nodes) {
			let p = n
				.parsed
				.as_ref()
				.ok_or_else(|| format!("{} {} has no breakdown", kind.name, hex(x)))?;
			cmp(kind, x, p).map_err(|m| format!("{} {}: {m}", kind.name, hex(x)))?;
			model::step();
		}
		Ok(())
	};
	r.pack(items, &mk, &judge)
}
/// The same through the value's own option.
fn bit_options(e: &mut Engine, name: &str, kind: BitKind, values: &[Vec<u8>], cmp: &Compare) {
	let op = kind.op.expect("an operation");
	e.family(
		name,
		"values given to their own option, one by one",
		values.len() as u64,
		|r, i| {
			let v = &values[i as usize];
			let c = op_case(op, &hex(v));
			let o = r.run(&c);
			r.item(&c.args);
			r.sample(|| c.shell("pemv"));
			model::step();
			let lines: Vec<String> = o.out_str().lines().map(str::to_owned).collect();
			let res = if o.err.is_empty() {
				cmp(&kind, v, &lines)
			} else {
				Err(format!("a valid value is diagnosed: {}", o.err_str()))
			};
			res.map_err(|m| {
				let exp = expect(op, hex(v).as_bytes(), &Settings::default());
				Bad::new(&c, &o, exp.stdout(), m)
			})
		},
	);
}

const CVR_KIND: BitKind = BitKind {
	name: "CVR",
	tag: &[],
	fields: spec::CVR,
	size: 5,
	heading: None,
	op: Some(Op::Cvr),
};
const RESULTS_KIND: BitKind = BitKind {
	name: "CVM Results",
	tag: &[0x9F, 0x34],
	fields: spec::CVM_RESULTS,
	size: 3,
	heading: None,
	op: Some(Op::CvmResults),
};
const CCI_KIND: BitKind = BitKind {
	name: "CCI",
	tag: &[],
	fields: spec::CCI,
	size: 1,
	heading: None,
	op: None,
};

/// Takes the heading off; the rest starts with the binary line.
fn after_heading<'a>(kind: &BitKind, lines: &'a [String]) -> Result<&'a [String], String> {
	match kind.heading {
		None => Ok(lines),
		Some(_) => match lines.split_first() {
			// its wording is C24's business
			Some((_, rest)) => Ok(rest),
			None => Err("no heading".into()),
		},
	}
}

/// C08: which meanings are listed, in which order, and the binary line.
fn compare_meanings(kind: &BitKind, v: &[u8], lines: &[String]) -> Result<(), String> {
	let lines = after_heading(kind, lines)?;
	let b = model::bits(kind.fields, kind.size, v).map_err(|d| format!("the model refuses it: {d:?}"))?;
	let want: Vec<String> = std::iter::once(b.binary.clone())
		.chain(b.entries.iter().rev().map(|x| x.text.clone()))
		.collect();
	let got = words(lines);
	if want != got {
		return Err(format!("should list {want:#?}, lists {got:#?}"));
	}
	Ok(())
}

/// The field an explanation belongs to.
fn field_of<'a>(fields: &'a [Field], text: &str) -> Option<&'a Field> {
	fields
		.iter()
		.filter(|f| {
			if f.kind == spec::Kind::Flag {
				f.text == text
			} else {
				text.starts_with(f.text)
			}
		})
		.max_by_key(|f| f.text.len())
}
/// C09: the drawing, for whatever explanations are listed.
fn compare_drawing(kind: &BitKind, _: &[u8], lines: &[String]) -> Result<(), String> {
	let lines = after_heading(kind, lines)?;
	let Some((binary, rest)) = lines.split_first() else {
		return Err("no binary line".into());
	};
	let w = words(rest);
	let mut entries: Vec<model::Entry> = Vec::new();
	for t in w.iter().rev() {
		// an unknown text: which bit it explains is C08's business
		let Some(f) = field_of(kind.fields, t) else {
			return Ok(());
		};
		entries.push(model::Entry {
			column: model::column(f.byte, f.hi),
			width: f.width as usize,
			text: t.clone(),
			sev: spec::Sev::Normal,
		});
	}
	// listed out of order, or twice: also C08's business
	if entries.windows(2).any(|p| p[0].column >= p[1].column) {
		return Ok(());
	}
	let want = plain_lines(&model::draw(
		&model::Bits {
			binary: binary.clone(),
			entries,
		},
		false,
	));
	if want != lines {
		return Err(format!("should be drawn\n{}\nis drawn\n{}", want.join("\n"), lines.join("\n")));
	}
	Ok(())
}

/// The lines of the CVR inside a decoded IAD, and of the CCI.
fn iad_part(p: &[String], from: &str, to: &str) -> Result<Vec<String>, String> {
	let a = p.iter().position(|l| l.starts_with(from));
	let b = p.iter().position(|l| l.starts_with(to));
	match (a, b) {
		(Some(a), Some(b)) if a < b => p[a + 1..b]
			.iter()
			.map(|l| {
				l.strip_prefix('\t')
					.map(str::to_owned)
					.ok_or_else(|| format!("a line below {from:?} is not indented: {l:?}"))
			})
			.collect(),
		_ => Err(format!("no part between {from:?} and {to:?} in {p:#?}")),
	}
}
fn cvr_part(p: &[String]) -> Result<Vec<String>, String> {
	iad_part(p, "Card Verification Results:", "Counters:")
}
fn cci_part(p: &[String]) -> Result<Vec<String>, String> {
	iad_part(p, "Common Core Identifier:", "Derivation Key Index:")
}

fn bitfields(e: &mut Engine, cmp: &Compare, deep: bool) {
	for kind in BIT_KINDS {
		let values = interesting(kind.size, kind.fields);
		for depth in if deep { vec![0, 1, 2, 7] } else { vec![0, 2] } {
			bit_blocks(
				e,
				&format!("{} at depth {depth}", kind.name),
				"every byte value in every position over 5 backgrounds, every pair of bits flipped over the same",
				kind,
				values.len() as u64,
				depth,
				&|i| values[i as usize].clone(),
				cmp,
			);
		}
		if kind.op.is_some() {
			bit_options(e, &format!("{} by its option", kind.name), kind, &values, cmp);
		}
	}
	// a few bits set, and a few clear, wherever they are
	for kind in BIT_KINDS {
		let most = e.pick(3u32, 5);
		let chosen = subsets(kind.size * 8, most);
		let n = chosen.len() as u64;
		bit_blocks(
			e,
			&format!("a few bits of {}", kind.name),
			"every set of up to 3 (5) bits set, the others clear; the same the other way round",
			kind,
			n * 2,
			0,
			&|i| {
				let mut v = vec![if i >= n { 0xFF } else { 0 }; kind.size];
				for bit in 0..kind.size * 8 {
					if chosen[(i % n) as usize] >> bit & 1 == 1 {
						v[bit / 8] ^= 0x80 >> (bit % 8);
					}
				}
				v
			},
			cmp,
		);
	}
	// one and two bits, wherever the value stands
	let depths: Vec<usize> = if e.thorough() { (0..=40).collect() } else { (0..=12).chain([20, 50]).collect() };
	let above: [&[u8]; 10] = [&[0x70], &[0x77], &[0x6F], &[0xA5], &[0xBF, 0x0C], &[0x61], &[0x71], &[0x72], &[0x73], &[0xFF, 0x01]];
	let radix = [BIT_KINDS.len() as u64, (depths.len() + above.len()) as u64];
	e.family(
		"one and two bits in every place",
		"every set of up to 2 bits set, the others clear, and the other way round, x 7 kinds x each depth up to 12, and 20 and 50 (40), and within each known template",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let kind = BIT_KINDS[d[0]];
			let items: Vec<Vec<u8>> = subsets(kind.size * 8, 2)
				.iter()
				.flat_map(|s| [(*s, 0u8), (*s, 0xFF)])
				.map(|(s, back)| {
					let mut v = vec![back; kind.size];
					for bit in 0..kind.size * 8 {
						if s >> bit & 1 == 1 {
							v[bit / 8] ^= 0x80 >> (bit % 8);
						}
					}
					v
				})
				.filter(|v| !model::masked_bytes(v, &['*']))
				.collect();
			for v in &items {
				r.item(&(kind.tag, d[1], v));
			}
			if d[1] < depths.len() {
				return bit_pack(r, &kind, &items, depths[d[1]], cmp);
			}
			bit_pack_in(r, &kind, &items, &[above[d[1] - depths.len()]], cmp)
		},
	);
	// more of them among those that have a meaning, and among all others
	for kind in BIT_KINDS {
		let mask = model::used_mask(kind.fields, kind.size);
		let bits: u32 = mask.iter().map(|b| b.count_ones()).sum();
		let chosen = subsets(bits as usize, e.pick(5u32, 7).min(bits));
		let n = chosen.len() as u64;
		let all = (1u64 << bits) - 1;
		bit_blocks(
			e,
			&format!("several meanings of {}", kind.name),
			"every set of up to 5 (7) defined bits set, the others clear; the same the other way round",
			kind,
			n * 2,
			1,
			&|i| {
				let x = chosen[(i % n) as usize];
				nth_defined(if i < n { x } else { all ^ x }, &mask)
			},
			cmp,
		);
	}
	// exhaustive value spaces
	bit_blocks(
		e,
		"every TSI",
		"all 65,536 values",
		BIT_KINDS[1],
		all_of_size(2),
		0,
		&|i| nth_value(i, 2),
		cmp,
	);
	let mask = model::used_mask(spec::TERM_CAPS, 3);
	bit_blocks(
		e,
		"every defined Terminal Capabilities value",
		"all 4,096 combinations of the defined bits",
		BIT_KINDS[2],
		1 << 12,
		1,
		&|i| nth_defined(i, &mask),
		cmp,
	);
	// bits of two or three bytes together, with the others clear
	let t = e.pick(1u64 << 20, 1 << 26);
	let mask = model::used_mask(spec::TVR, 5);
	bit_blocks(
		e,
		"combinations of TVR bits",
		"all combinations of the last 20 (all 26) of the 26 defined bits",
		BIT_KINDS[0],
		t,
		0,
		&|i| nth_defined(i, &mask),
		cmp,
	);
	bit_blocks(
		e,
		"combinations of the first TVR bits",
		"all combinations of the first 13 defined bits, the others set",
		BIT_KINDS[0],
		1 << 13,
		0,
		&|i| nth_defined(i << 13 | 0x1FFF, &mask),
		cmp,
	);
	let add = model::used_mask(spec::ADD_CAPS, 5);
	bit_blocks(
		e,
		"combinations of Additional Terminal Capabilities bits",
		"all combinations of the last 18 (24) of the 27 defined bits",
		BIT_KINDS[3],
		e.pick(1 << 18, 1 << 24),
		0,
		&|i| nth_defined(i, &add),
		cmp,
	);
	// CVR: by its option, and inside an IAD
	let mut cvrs = interesting(5, spec::CVR);
	let radix = [16u64, 16, 16];
	for i in 0..product(&radix) {
		let d = digits(i, &radix);
		cvrs.push(vec![
			(d[0] << 4) as u8 | 0x05,
			(d[1] << 4) as u8,
			0,
			(d[2] << 4) as u8 | 0x0A,
			0,
		]);
	}
	bit_options(e, "CVR by its option", CVR_KIND, &cvrs, cmp);
	let chosen = subsets(40, e.pick(3u32, 4));
	for x in &chosen {
		let v = x.to_be_bytes()[3..].to_vec();
		cvrs.push(v.iter().map(|b| !b).collect());
		cvrs.push(v);
	}
	let n = e.pick(cvrs.len() as u64, 1 << 20);
	let per = 512u64;
	e.family(
		"CVR inside Issuer Application Data",
		"every byte value in every position over 5 backgrounds, pairs of bits, all triples of multi-bit fields, every set of up to 3 (4) bits set or clear; thorough: also the first 2^20 values of the middle bytes",
		n.div_ceil(per),
		|r, chunk| {
			let items: Vec<Vec<u8>> = (chunk * per..((chunk + 1) * per).min(n))
				.map(|i| {
					cvrs.get(i as usize).cloned().unwrap_or_else(|| {
						let x = i * 0x9E37;
						vec![0x40 | (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
					})
				})
				.collect();
			for i in &items {
				r.item(i);
			}
			let mk = |v: &[Vec<u8>]| {
				let b: Vec<u8> = v.iter().flat_map(|x| tlv(&[0x9F, 0x10], &iad_with_cvr(x))).collect();
				Case::new(&["-b", &hex(&b)])
			};
			r.pack(&items, &mk, &|v, o| {
				let nodes = observe::block(&o.out_str())?;
				if nodes.len() != v.len() {
					return Err(format!("{} values given, {} shown; {}", v.len(), nodes.len(), o.err_str()));
				}
				for (x, n) in v.iter().zip(&nodes) {
					let p = n.parsed.as_ref().ok_or_else(|| format!("CVR {} is not shown", hex(x)))?;
					let part = cvr_part(p)?;
					cmp(&CVR_KIND, x, &part).map_err(|m| format!("CVR {}: {m}", hex(x)))?;
					model::step();
				}
				Ok(())
			})
		},
	);
}

pub fn c08(e: &mut Engine) {
	bitfields(e, &compare_meanings, false);
}

pub fn c09(e: &mut Engine) {
	bitfields(e, &compare_drawing, true);
	// the other drawings: CVM Results and the Common Core Identifier
	let results: Vec<Vec<u8>> = (0..256u64 * 256)
		.map(|i| vec![(i >> 8) as u8, i as u8, (i % 3) as u8])
		.collect();
	for depth in [0, 3] {
		bit_blocks(
			e,
			&format!("CVM Results at depth {depth}"),
			"every method byte x condition byte",
			RESULTS_KIND,
			results.len() as u64,
			depth,
			&|i| results[i as usize].clone(),
			&compare_drawing,
		);
	}
	bit_options(
		e,
		"CVM Results by their option",
		RESULTS_KIND,
		&results.iter().step_by(e.pick(97, 7)).cloned().collect::<Vec<_>>(),
		&compare_drawing,
	);
	e.family(
		"Common Core Identifiers",
		"both valid identifiers at depth 0..9",
		2 * 10,
		|r, i| {
			let d = digits(i, &[2, 10]);
			let mut v = iad_with_cvr(&[0; 5]);
			v[1] = [0xA5, 0xA6][d[0]];
			let mut b = tlv(&[0x9F, 0x10], &v);
			for _ in 0..d[1] {
				b = tlv(&[0xE1], &b);
			}
			let c = Case::new(&["-b", &hex(&b)]);
			let o = r.run(&c);
			r.item(&c.args);
			model::step();
			let go = || -> Result<(), String> {
				let mut n = observe::block(&o.out_str())?;
				for _ in 0..d[1] {
					n = n.pop().ok_or("nothing shown")?.kids;
				}
				let p = n.first().and_then(|n| n.parsed.clone()).ok_or("not parsed")?;
				compare_drawing(&CCI_KIND, &v[1..2], &cci_part(&p)?)?;
				compare_drawing(&CVR_KIND, &v[3..8], &cvr_part(&p)?)
			};
			go().map_err(|m| Bad::new(&c, &o, "", m))
		},
	);
	let deep = e.pick(40u64, 100);
	e.family(
		"drawings at every depth",
		"7 kinds x all bits, no bit, outermost bits x every depth up to the bound",
		7 * 3 * deep,
		|r, i| {
			let d = digits(i, &[7, 3, deep]);
			let k = BIT_KINDS[d[0]];
			let mut v = vec![[0xFF, 0x00, 0x00][d[1]]; k.size];
			if d[1] == 2 {
				v[0] |= 0x80;
				v[k.size - 1] |= 0x80;
			}
			r.item(&(k.tag, &v, d[2]));
			bit_pack(r, &k, &[v], d[2], &compare_drawing)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

const CODES: Proj = Proj {
	order: false,
	size: false,
	value: true,
	name: true,
	masked: false,
	parsed: true,
	kids: false,
	dump: false,
};

pub fn c10(e: &mut Engine) {
	// a value of two equal mask characters would be masked: use a mask that is not a printable character
	let s = Settings {
		masks: vec!['\u{1}'],
		sort: true,
	};
	explore_objects(
		e,
		"every response code",
		"all 65,536 two-byte Authorisation Response Codes (those that are not text are diagnosed, one by one)",
		65536,
		&s,
		CODES,
		Refused::Run,
		|i| tlv(&[0x8A], &(i as u16).to_be_bytes()),
	);
	for (name, tag) in [
		("transaction type", &[0x9C][..]),
		("terminal type", &[0x9F, 0x35]),
		("POS entry mode", &[0x9F, 0x39]),
	] {
		e.family(
			&format!("every {name}"),
			"all 256 values, in BER-TLV and Ingenico, at the top level and nested, beside a neighbour",
			256 * 4,
			|r, i| {
				let d = digits(i, &[256, 4]);
				let v = [d[0] as u8];
				match d[1] {
					0 => single_tlv(r, Op::Ber, &hex(&tlv(tag, &v)), &s, CODES),
					1 => single_tlv(r, Op::Ingenico, &ingenico(tag, &v), &s, CODES),
					2 => single_tlv(
						r,
						Op::Ber,
						&hex(&[tlv(&[0x9C], &[0]), tlv(tag, &v), tlv(&[0x8A], b"00")].concat()),
						&s,
						CODES,
					),
					_ => single_tlv(
						r,
						Op::Ber,
						&hex(&tlv(&[0xE1], &tlv(&[0xE2], &tlv(tag, &v)))),
						&s,
						Proj { kids: true, ..CODES },
					),
				}
			},
		);
	}
	e.family(
		"response codes as text",
		"every pair of printable ASCII characters, as Ingenico text data, 95 to a block",
		95,
		|r, i| {
			let items: Vec<String> = (0x20..0x7Fu8)
				.map(|b| format!("T8A:02:a{}{}", (0x20 + i as u8) as char, b as char))
				.collect();
			single_tlv(r, Op::Ingenico, &items.join(" "), &s, CODES)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

fn judge_words(op: Op, exp: &model::Expect, o: &Outcome) -> Result<(), String> {
	match &exp.result {
		Ok(l) => {
			if !o.err.is_empty() {
				return Err(format!("a valid value is diagnosed: {}", o.err_str()));
			}
			let got: Vec<String> = body(op, &o.out_str()).lines().map(str::to_owned).collect();
			let (want, got) = (words(&plain_lines(l)), words(&got));
			if want != got {
				return Err(format!("should show {want:#?}, shows {got:#?}"));
			}
			Ok(())
		}
		Err(d) => {
			if !o.out.is_empty() || !one_line(&o.err) {
				return Err(format!(
					"an invalid value (reason {d:?}) must be diagnosed by one line and not shown"
				));
			}
			Ok(())
		}
	}
}
fn single_words(r: &mut Runner, op: Op, text: &str) -> Result<(), Bad> {
	let exp = expect(op, text.as_bytes(), &Settings::default());
	let c = op_case(op, text);
	let o = r.run(&c);
	r.item(&c.args);
	r.sample(|| format!("{} -> {}", c.shell("pemv"), o.out_str()));
	judge_words(op, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
}
/// Blocks whose breakdowns are compared without their drawings.
fn pack_words(r: &mut Runner, items: &[Vec<u8>]) -> Result<(), Bad> {
	for i in items {
		r.item(i);
	}
	let mk = |v: &[Vec<u8>]| op_case(Op::Ber, &hex(&v.concat()));
	r.pack(items, &mk, &|v, o| {
		let exp = expect(Op::Ber, hex(&v.concat()).as_bytes(), &Settings::default());
		judge_block_words(&exp, o)
	})
}
fn judge_block_words(exp: &model::Expect, o: &Outcome) -> Result<(), String> {
	if exp.result.is_err() {
		return judge_words(Op::Ber, exp, o);
	}
	if !o.err.is_empty() {
		return Err(format!("valid values are diagnosed: {}", o.err_str()));
	}
	let got = observe::block(&o.out_str())?;
	fn cmp(e: &[model::Shown], g: &[Obs]) -> Result<(), String> {
		if e.len() != g.len() {
			return Err(format!("{} objects expected, {} shown", e.len(), g.len()));
		}
		for (s, o) in e.iter().zip(g) {
			let want = s.parsed.as_ref().map(|l| words(&plain_lines(l)));
			let have = o.parsed.as_ref().map(|l| words(l));
			let v = hex(s.data.as_deref().unwrap_or(b""));
			if want != have {
				return Err(format!("{} {v}: should show {want:#?}, shows {have:#?}", hex(&s.tag)));
			}
			if s.name != o.name {
				return Err(format!("{} {v}: should be named {:?}, is {:?}", hex(&s.tag), s.name, o.name));
			}
			cmp(&s.kids, &o.kids)?;
		}
		Ok(())
	}
	cmp(&exp.tree, &got)
}

pub fn c11(e: &mut Engine) {
	let list = |x: u32, y: u32, rules: &[u8]| -> Vec<u8> {
		[&x.to_be_bytes()[..], &y.to_be_bytes(), rules].concat()
	};
	e.family(
		"every rule",
		"all 65,536 rule byte pairs, each as a list of its own, in blocks",
		256,
		|r, i| {
			let items: Vec<Vec<u8>> = (0..=255u8)
				.map(|c| tlv(&[0x8E], &list(0, 0, &[i as u8, c])))
				.collect();
			pack_words(r, &items)
		},
	);
	e.family(
		"long lists",
		"every method byte: a list of 256 rules with every condition; and lists of 0..300 rules",
		256 + 301,
		|r, i| {
			let rules: Vec<u8> = if i < 256 {
				(0..=255u8).flat_map(|c| [i as u8, c]).collect()
			} else {
				(0..i - 256).flat_map(|k| [(k * 37) as u8, (k % 14) as u8]).collect()
			};
			single_words(r, Op::CvmList, &hex(&list(7, 0, &rules)))
		},
	);
	let mags: Vec<u32> = {
		let mut v = vec![0, 1, 5, 0x7FFF_FFFF, 0x8000_0000, u32::MAX, u32::MAX - 1];
		let mut p: u64 = 10;
		while p < 1 << 32 {
			v.extend([(p - 1) as u32, p as u32]);
			p *= 10;
		}
		for k in 0..32 {
			v.push(1 << k);
		}
		v.sort_unstable();
		v.dedup();
		v
	};
	let rulesets: Vec<Vec<u8>> = {
		let mut v: Vec<Vec<u8>> = vec![vec![]];
		for c in 0..=11u8 {
			v.push(vec![0x1F, c]);
		}
		v.push(vec![0x42, 0x01, 0x1F, 0x03]);
		v.push(vec![0x42, 0x06, 0x1F, 0x09]);
		v.push(vec![0x42, 0x01, 0x5E, 0x03, 0x1F, 0x09]);
		v.push(vec![0x06, 0x00, 0x09, 0x00, 0x08, 0x00]);
		v.push(vec![0x1F, 0x80 | 0x06]);
		v.push(vec![0x1F, 0xFF]);
		v
	};
	let n = mags.len() as u64;
	e.family(
		"amounts",
		"X and Y over 60 magnitudes each (every power of ten, every power of two) x 19 rule sets",
		n * rulesets.len() as u64,
		|r, i| {
			let d = digits(i, &[rulesets.len() as u64, n]);
			let items: Vec<Vec<u8>> = mags
				.iter()
				.map(|y| tlv(&[0x8E], &list(mags[d[1]], *y, &rulesets[d[0]])))
				.collect();
			pack_words(r, &items)
		},
	);
	let q = Seqs { k: 12, lo: 0, hi: e.pick(3, 4) };
	e.family(
		"rule sequences",
		"every sequence over 12 rules up to the bound, with zero and non-zero amounts (when the amounts are shown, and the order and numbers of the rules)",
		q.count().div_ceil(64),
		|r, chunk| {
			let rules: [[u8; 2]; 12] = [
				[0x42, 0x01],
				[0x02, 0x06],
				[0x5E, 0x03],
				[0x1F, 0x00],
				[0x44, 0x09],
				[0x00, 0x05],
				[0x3F, 0x0A],
				[0x80, 0x80],
				[0x41, 0x07],
				[0x6A, 0x08],
				[0x20, 0x04],
				[0xC3, 0x02],
			];
			let mut items = Vec::new();
			for i in chunk * 64..((chunk + 1) * 64).min(q.count()) {
				let rs: Vec<u8> = q.get(i).iter().flat_map(|x| rules[*x]).collect();
				items.push(tlv(&[0x8E], &list(0, 0, &rs)));
				items.push(tlv(&[0x8E], &list(0, 12, &rs)));
			}
			pack_words(r, &items)
		},
	);
	// which rule refers to an amount, in lists of any length
	let lengths: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 119, 120, 121, 126, 127, 128, 129, 200]).collect();
	e.family(
		"the one rule that refers to an amount",
		"lists of 1..40 rules and of 12 greater sizes up to 200 x the place of one rule with condition 5..10 among others that refer to no amount x amounts 0 and 1, 1 and 0, 0 and 0",
		lengths.len() as u64 * 6,
		|r, i| {
			let d = digits(i, &[lengths.len() as u64, 6]);
			let n = lengths[d[0]];
			let mut items = Vec::new();
			for at in 0..n {
				let mut rules = Vec::new();
				for k in 0..n {
					if k == at {
						rules.extend([0x41 + (k % 5) as u8, 5 + d[1] as u8]);
					} else {
						rules.extend([[0x02u8, 0x1F, 0x44, 0x5E][k % 4], [0u8, 3, 1, 2, 4][k % 5]]);
					}
				}
				for (x, y) in [(0, 1), (1, 0), (0, 0)] {
					items.push(tlv(&[0x8E], &list(x, y, &rules)));
				}
			}
			pack_words(r, &items)
		},
	);
	let lengths: Vec<usize> = (0..=40).chain([64, 100, 128, 200, 256]).collect();
	e.family(
		"no rule that refers to an amount",
		"lists of 0..40 rules and 5 greater sizes, none of which refers to an amount, x 4 pairs of amounts",
		lengths.len() as u64,
		|r, i| {
			let rules: Vec<u8> = (0..lengths[i as usize])
				.flat_map(|k| [[0x02u8, 0x1F, 0x44, 0x5E][k % 4], [0u8, 3, 1, 2, 4, 5, 0x0A][k % 7]])
				.collect();
			let items: Vec<Vec<u8>> = [(0, 0), (0, 1), (1, 0), (0xFFFF_FFFF, 10)]
				.iter()
				.map(|(x, y)| tlv(&[0x8E], &list(*x, *y, &rules)))
				.collect();
			pack_words(r, &items)
		},
	);
	e.family(
		"every valid CVM Results value",
		"256 x 256 x 3 values, in blocks",
		256 * 3,
		|r, i| {
			let d = digits(i, &[256, 3]);
			let items: Vec<Vec<u8>> = (0..=255u8)
				.map(|c| tlv(&[0x9F, 0x34], &[d[0] as u8, c, d[1] as u8]))
				.collect();
			pack_words(r, &items)
		},
	);
	e.family(
		"every unassigned result",
		"253 unassigned results x 12 methods and conditions, both routes",
		253 * 12 * 2,
		|r, i| {
			let d = digits(i, &[253, 12, 2]);
			let m = [0x00, 0x01, 0x1E, 0x1F, 0x3F, 0x42, 0x5F, 0x20, 0x7F, 0xFF, 0x80, 0x41][d[1]];
			let v = [m, (d[0] * 7) as u8 % 11, d[0] as u8 + 3];
			if d[2] == 0 {
				single_words(r, Op::CvmResults, &hex(&v))
			} else {
				single_words(r, Op::Ber, &hex(&tlv(&[0x9F, 0x34], &v)))
			}
		},
	);
	e.family(
		"values by their options",
		"every method byte, every condition byte, and their small products, as CVM Results and as one-rule lists",
		(256 * 12 + 256 * 12) * 2,
		|r, i| {
			let d = digits(i, &[2, 2, 256, 12]);
			let few = [0x00u8, 0x01, 0x02, 0x03, 0x06, 0x09, 0x0A, 0x1F, 0x3F, 0x42, 0x80, 0xFF];
			let (m, c) = if d[1] == 0 {
				(d[2] as u8, few[d[3]])
			} else {
				(few[d[3]], d[2] as u8)
			};
			if d[0] == 0 {
				single_words(r, Op::CvmResults, &hex(&[m, c, (d[2] % 3) as u8]))
			} else {
				single_words(r, Op::CvmList, &hex(&list(0, 0, &[m, c])))
			}
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

pub fn c12(e: &mut Engine) {
	let base = {
		let mut v = vec![0x0F, 0xA5, 0xC1, 0x84, 0x25, 0x36, 0x47, 0x58];
		v.extend([0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68]);
		v.push(0x0F);
		v.extend(0x71..0x80);
		v
	};
	let check = |r: &mut Runner, v: &[u8], own: bool| -> Result<(), Bad> {
		if own {
			return single_words(r, Op::Iad, if v.is_empty() { "z".to_owned() } else { hex(v) }.as_str());
		}
		let b = tlv(&[0x9F, 0x10], v);
		let exp = expect(Op::Ber, hex(&b).as_bytes(), &Settings::default());
		let c = op_case(Op::Ber, &hex(&b));
		let o = r.run(&c);
		r.item(&c.args);
		judge_block_words(&exp, &o)
			.and_then(|()| {
				// what is not compliant is shown raw
				let got = observe::block(&o.out_str())?;
				observe::compare(
					&exp.tree,
					&got,
					Proj {
						value: true,
						name: true,
						..Proj::default()
					},
					"",
				)
			})
			.map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
	};
	e.family(
		"every byte of an IAD",
		"each of 32 bytes takes all 256 values, over 3 backgrounds, both routes",
		32 * 256 * 3 * 2,
		|r, i| {
			let d = digits(i, &[32, 256, 3, 2]);
			let mut v = match d[2] {
				0 => base.clone(),
				1 => {
					let mut v = vec![0; 32];
					v[0] = 0x0F;
					v[1] = 0xA6;
					v[16] = 0x0F;
					v
				}
				_ => {
					let mut v = vec![0xFF; 32];
					v[0] = 0x0F;
					v[1] = 0xA5;
					v[16] = 0x0F;
					v
				}
			};
			v[d[0]] = d[1] as u8;
			check(r, &v, d[3] == 0)
		},
	);
	e.family(
		"lengths",
		"0..64 bytes: cut from or extending a valid IAD, uniform fillings with 0x0F in both places, both routes",
		65 * 3 * 2,
		|r, i| {
			let d = digits(i, &[65, 3, 2]);
			let mut v: Vec<u8> = match d[1] {
				0 => base.iter().copied().chain(0x80..0xA0).take(d[0]).collect(),
				1 => vec![0x0F; d[0]],
				_ => vec![0xA5; d[0]],
			};
			if d[1] > 0 {
				for (at, x) in [(0usize, 0x0Fu8), (1, 0xA5), (16, 0x0F)] {
					if let Some(b) = v.get_mut(at) {
						*b = x;
					}
				}
			}
			check(r, &v, d[2] == 0)
		},
	);
	e.family(
		"the compliance decision",
		"both length bytes x the identifier byte: 9 x 9 x 256 combinations",
		9 * 9 * 256,
		|r, i| {
			let d = digits(i, &[9, 9, 256]);
			let l = [0x00, 0x0E, 0x0F, 0x10, 0x1F, 0x8F, 0xF0, 0xFF, 0x20];
			let mut v = base.clone();
			v[0] = l[d[0]];
			v[16] = l[d[1]];
			v[1] = d[2] as u8;
			check(r, &v, false)
		},
	);
	e.family(
		"pairs of bytes",
		"every pair of the 32 bytes takes each of 4 x 4 values, by its option",
		32 * 31 / 2 * 16,
		|r, i| {
			let d = digits(i, &[32 * 31 / 2, 4, 4]);
			let (mut a, mut b, mut k) = (0, 1, d[0]);
			while k > 0 {
				b += 1;
				if b == 32 {
					a += 1;
					b = a + 1;
				}
				k -= 1;
			}
			let mut v = base.clone();
			v[a] = [0x00, 0x0F, 0xA6, 0xFF][d[1]];
			v[b] = [0x00, 0x0F, 0xA5, 0x31][d[2]];
			check(r, &v, true)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

pub fn c13(e: &mut Engine) {
	let s = Settings::default();
	let own = |r: &mut Runner, text: &str| -> Result<(), Bad> {
		let exp = expect(Op::ServiceCode, text.as_bytes(), &s);
		let c = op_case(Op::ServiceCode, text);
		let o = r.run(&c);
		if exp.ambiguous {
			return Ok(());
		}
		r.item(&c.args);
		r.sample(|| format!("{} -> {}", c.shell("pemv"), o.out_str()));
		let res = match &exp.result {
			Ok(_) if o.out != exp.stdout().as_bytes() || !o.err.is_empty() => Err("wrong breakdown".to_owned()),
			Err(_) if !o.out.is_empty() || !one_line(&o.err) => Err("must be diagnosed".to_owned()),
			_ => Ok(()),
		};
		res.map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
	};
	e.family(
		"every service code",
		"0..999 with 0..3 (and 10) leading zeros or blanks around: 8 spellings",
		1000 * 8,
		|r, i| {
			let (n, k) = (i / 8, i % 8);
			let t = match k {
				0 => format!("{n}"),
				1 => format!("{n:03}"),
				2 => format!("{n:04}"),
				3 => format!("{n:06}"),
				4 => format!(" {n:03}"),
				5 => format!("{n:03}\t"),
				6 => format!("\n  {n} "),
				_ => format!("{n:013}"),
			};
			own(r, &t)
		},
	);
	e.family(
		"numbers beyond",
		"every number 1,000..66,000, and numbers at powers of two and ten",
		65000 + 200,
		|r, i| {
			let t = if i < 65000 {
				format!("{}", i + 1000)
			} else if i < 65100 {
				format!("{}", (1u128 << (i - 65000)) + 201)
			} else {
				format!("{}{}", 1 + i % 9, "0".repeat((i - 65100) as usize % 60))
			};
			own(r, &t)
		},
	);
	explore_objects(
		e,
		"every packed value",
		"all 65,536 two-byte values of tag 5F30 (those that are no service code are diagnosed, one by one)",
		65536,
		&Settings {
			masks: vec!['\u{1}'],
			sort: true,
		},
		Proj {
			parsed: true,
			value: true,
			name: true,
			..Proj::default()
		},
		Refused::Run,
		|i| tlv(&[0x5F, 0x30], &(i as u16).to_be_bytes()),
	);
	let alphabet = ['0', '1', '2', '9', ' ', 'a', '.', '-', 'F', '\u{a0}', '२'];
	let q = Seqs { k: 11, lo: 1, hi: e.pick(4, 5) };
	e.family(
		"texts",
		"every text over 11 characters up to the bound",
		q.count(),
		|r, i| {
			let t: String = q.get(i).iter().map(|x| alphabet[*x]).collect();
			if t.starts_with('-') {
				return Ok(());
			}
			own(r, &t)
		},
	);
	// anything put into a number
	let odd: Vec<char> = (1u8..128)
		.map(|c| c as char)
		.chain([
			'\u{85}', '\u{a0}', '\u{ad}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2009}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{202f}',
			'\u{205f}', '\u{2060}', '\u{3000}', '\u{feff}', '٢', '२', '２', '²', '₂', '①', '½', '−', '–', '＋', '＿', '’', '٬', 'é', 'Ⅱ', '𝟐', '\u{301}',
		])
		.collect();
	let no = odd.len() as u64;
	let bases = ["201", "7", "99", "0201", " 201 ", "1000", "0000000000000201"];
	e.family(
		"anything in a number",
		"7 numbers x every ASCII character and 33 others put in at each place or instead of each character, and each pair of them around the number",
		bases.len() as u64 * no,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, no]);
			let (b, c) = (bases[d[0]], odd[d[1]]);
			let run = |r: &mut Runner, t: String| {
				if t.starts_with('-') || t.contains('\0') {
					return Ok(());
				}
				own(r, &t)
			};
			for at in 0..=b.len() {
				run(r, format!("{}{c}{}", &b[..at], &b[at..]))?;
				run(r, format!("{}{c}{c}{}", &b[..at], &b[at..]))?;
				if at < b.len() {
					run(r, format!("{}{c}{}", &b[..at], &b[at + 1..]))?;
				}
			}
			if d[0] < 2 {
				for x in &odd {
					run(r, format!("{c}{b}{x}"))?;
					run(r, format!("{x}{c}{b}"))?;
					run(r, format!("{b}{c}{x}"))?;
				}
			}
			Ok(())
		},
	);
	let many: Vec<usize> = (0..200).chain([255, 256, 257, 1000, 4096, 10_000, 65_536, 100_000]).collect();
	let blanks = ["0", " ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}"];
	e.family(
		"long numbers",
		"9 numbers behind 0..199 and up to 100,000 zeros, and among as many blanks of 6 kinds, in front, behind and around",
		many.len() as u64 * blanks.len() as u64 * 9,
		|r, i| {
			let d = digits(i, &[many.len() as u64, blanks.len() as u64, 9]);
			let n = ["0", "1", "7", "99", "201", "000", "999", "1000", "x"][d[2]];
			let f = blanks[d[1]].repeat(many[d[0]]);
			if f.len() * 2 > 130_000 && d[1] > 0 || f.len() > 130_000 {
				return Ok(());
			}
			own(r, &format!("{f}{n}"))?;
			if d[1] > 0 {
				own(r, &format!("{n}{f}"))?;
				own(r, &format!("{f}{n}{f}"))?;
				own(r, &format!("{f}000{n}{f}"))?;
			} else if d[2] < 3 {
				own(r, &format!("{n}{f}"))?;
			}
			Ok(())
		},
	);
	// in a block, a code is two bytes of packed digits and nothing else
	let mut forms: Vec<Vec<u8>> = Vec::new();
	for n in 0..1000u32 {
		for t in [
			format!("{n:03}"),
			format!("{n}"),
			format!("{n:04}"),
			format!("{n:03}F"),
			format!(" {n:03}"),
			format!("{n:03} "),
			format!("{n:02X}"),
		] {
			forms.push(t.into_bytes());
		}
		let d = [(n / 100) as u8, (n / 10 % 10) as u8, (n % 10) as u8];
		forms.push(d.to_vec());
		forms.push(vec![0, d[0], d[1], d[2]]);
		forms.push(vec![d[0] | 0xF0, d[1] | 0xF0, d[2] | 0xF0]);
		forms.push(vec![0, d[0], d[1] << 4 | d[2]]);
		forms.push(vec![d[0], d[1] << 4 | d[2], 0]);
		forms.push(vec![d[0], d[1] << 4 | d[2], 0xFF]);
		forms.push(vec![d[0] << 4 | d[1], d[2] << 4 | 0xF]);
		forms.push(vec![d[0] << 4 | d[1], d[2] << 4]);
		forms.push(vec![d[0] << 4 | d[1], d[2]]);
		forms.push(vec![d[1] << 4 | d[2], d[0]]);
		forms.push((n as u16).to_be_bytes().to_vec());
		forms.push((n as u16).to_le_bytes().to_vec());
		forms.push(n.to_be_bytes().to_vec());
	}
	forms.sort();
	forms.dedup();
	let radix = [forms.len() as u64, 3];
	e.family(
		"codes written otherwise in blocks",
		"0..999 as text, as one digit a byte, with zeros, blanks or padding, shifted, swapped and in binary, as the value of tag 5F30 in BER-TLV and both ways in Ingenico-TLV",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let v = &forms[d[0]];
			let (op, t) = match d[1] {
				0 => (Op::Ber, hex(&tlv(&[0x5F, 0x30], v))),
				1 => (Op::Ingenico, ingenico(&[0x5F, 0x30], v)),
				_ if v.iter().all(|b| (0x20..0x7F).contains(b)) => (
					Op::Ingenico,
					format!("T5F30:{:02X}:a{}", v.len(), String::from_utf8_lossy(v)),
				),
				_ => return Ok(()),
			};
			single_tlv(
				r,
				op,
				&t,
				&s,
				Proj {
					parsed: true,
					value: true,
					name: true,
					..Proj::default()
				},
			)
		},
	);
	e.family(
		"packed codes in Ingenico blocks",
		"0..999 as hex data, and four-digit values with every leading digit",
		2000,
		|r, i| {
			let n = if i < 1000 { i } else { (i - 1000) * 10 + 201 };
			single_tlv(
				r,
				Op::Ingenico,
				&format!("T5F30:02:h{n:04}"),
				&s,
				Proj {
					parsed: true,
					value: true,
					name: true,
					..Proj::default()
				},
			)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

/// The diagnostic for a wrong size must name the bound, the expected and the found count.
fn judge_size(d: &model::Diag, err: &str) -> Result<(), String> {
	match d {
		model::Diag::Size(b, want, found) => {
			let bound = match b {
				model::Bound::Exactly => "exactly",
				model::Bound::AtLeast => "greater than or equal to",
			};
			let (Some(e), Some(f)) = (err.find("Expected: "), err.find("Found: ")) else {
				return Err("the diagnostic does not state the expected and found byte counts".into());
			};
			let number = |t: &str| -> Option<usize> {
				let d: String = t
					.chars()
					.skip_while(|c| !c.is_ascii_digit())
					.take_while(char::is_ascii_digit)
					.collect();
				d.parse().ok()
			};
			let part = &err[e..f.max(e)];
			if !part.contains(bound) || number(part) != Some(*want) || number(&err[f..]) != Some(*found) {
				return Err(format!(
					"the diagnostic should say: expected {bound} {want}, found {found}"
				));
			}
			Ok(())
		}
		model::Diag::NotDivisible => {
			if err.contains("divisible") {
				Ok(())
			} else {
				Err("the diagnostic should say that the bytes don't divide into rules".into())
			}
		}
		_ => Ok(()),
	}
}

pub fn c14(e: &mut Engine) {
	let run = |r: &mut Runner, op: Op, text: &str| -> Result<(), Bad> {
		let exp = expect(op, text.as_bytes(), &Settings::default());
		let c = op_case(op, text);
		let o = r.run(&c);
		r.item(&c.args);
		r.sample(|| format!("{} -> {}", c.shell("pemv"), o.err_str()));
		let res = match &exp.result {
			Ok(_) if !o.err.is_empty() || o.out.is_empty() => Err("a value of the right size is refused".to_owned()),
			Err(d) if !o.out.is_empty() || !one_line(&o.err) => Err(format!("must be diagnosed: {d:?}")),
			Err(d) => judge_size(d, &o.err_str()),
			_ => Ok(()),
		};
		res.map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
	};
	let max = e.pick(64u64, 600);
	let ops = [Op::Tvr, Op::Cvr, Op::Tsi, Op::CvmResults, Op::CvmList, Op::Identify, Op::Iad];
	let fills = [0x00u8, 0x01, 0x42, 0xFF];
	let radix = [ops.len() as u64, max + 1, fills.len() as u64, 2];
	e.family(
		"sizes by option",
		"7 operations x sizes 0..bound x 4 fillings x with or without a spare digit",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut t = hex(&vec![fills[d[2]]; d[1]]);
			if d[3] == 1 {
				t.push('7');
			}
			if t.is_empty() {
				t.push('z');
			}
			run(r, ops[d[0]], &t)
		},
	);
	let tags: [&[u8]; 14] = [
		&[0x95],
		&[0x9B],
		&[0x9C],
		&[0x8A],
		&[0x8E],
		&[0x5F, 0x30],
		&[0x9F, 0x0D],
		&[0x9F, 0x0E],
		&[0x9F, 0x0F],
		&[0x9F, 0x33],
		&[0x9F, 0x34],
		&[0x9F, 0x35],
		&[0x9F, 0x39],
		&[0x9F, 0x40],
	];
	let radix = [tags.len() as u64, max + 1, 3, 4];
	e.family(
		"sizes inside blocks",
		"14 tags x sizes 0..bound x 3 fillings x BER, nested in BER, behind a neighbour, Ingenico",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let v = vec![[0x01u8, 0x22, 0x09][d[2]]; d[1]];
			let obj = tlv(tags[d[0]], &v);
			match d[3] {
				0 => run(r, Op::Ber, &hex(&obj)),
				1 => run(r, Op::Ber, &hex(&tlv(&[0xE1], &obj))),
				2 => run(r, Op::Ber, &hex(&[tlv(&[0x5A], &[1]), obj].concat())),
				_ => run(r, Op::Ingenico, &ingenico(tags[d[0]], &v)),
			}
		},
	);
	// wrong sizes that look like something: a right value with something around it, or written otherwise
	let wholes: Vec<(Vec<u8>, Option<Op>, Vec<Vec<u8>>)> = {
		let tvrs = vec![vec![0u8; 5], vec![0xFF; 5], vec![0x80, 0x00, 0x00, 0x80, 0x00], vec![0x95, 0x05, 0x00, 0x00, 0x00], b"12345".to_vec()];
		let list = vec![vec![0; 8], hex_bytes("00000000000000004203"), hex_bytes("000003E8000007D042061E031F00"), hex_bytes("00000000000000001F02")];
		vec![
			(vec![0x95], Some(Op::Tvr), tvrs.clone()),
			(vec![0x9B], Some(Op::Tsi), vec![vec![0xE8, 0], vec![0, 0], vec![0xFF, 0xFF], b"68".to_vec()]),
			(vec![0x9F, 0x34], Some(Op::CvmResults), vec![vec![0x42, 3, 2], vec![0x1F, 0, 0], vec![0x3F, 0xFF, 1]]),
			(vec![0x8E], Some(Op::CvmList), list),
			(vec![0x9F, 0x52], Some(Op::Cvr), vec![vec![0xA2, 0x30, 0x30, 0x10, 0], vec![0; 5], vec![0xFF; 5]]),
			(
				vec![0x9F, 0x10],
				Some(Op::Iad),
				vec![hex_bytes("0FA501A23030100000000000000000000F01000000000000000000000000000000"), hex_bytes("0FA6FF0000000000FFFFFFFFFFFFFFFF0FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF")],
			),
			(vec![0x9F, 0x0D], None, tvrs.clone()),
			(vec![0x9F, 0x0E], None, tvrs.clone()),
			(vec![0x9F, 0x0F], None, tvrs),
			(vec![0x9F, 0x33], None, vec![vec![0xE0, 0xF8, 0xC8], vec![0; 3], vec![0xFF; 3]]),
			(vec![0x9F, 0x40], None, vec![vec![0x60, 0, 0xF0, 0xA0, 1], vec![0; 5], vec![0xFF; 5]]),
			(vec![0x9F, 0x35], None, vec![vec![0x22], vec![0x11]]),
			(vec![0x9F, 0x39], None, vec![vec![5], vec![0], vec![0x91]]),
			(vec![0x9C], None, vec![vec![0], vec![0x20]]),
			(vec![0x8A], None, vec![b"00".to_vec(), b"05".to_vec()]),
			(vec![0x5F, 0x30], None, vec![vec![2, 1], vec![0, 0], vec![9, 0x99]]),
		]
	};
	let mut shaped: Vec<(usize, Vec<u8>)> = Vec::new();
	for (k, (tag, _, values)) in wholes.iter().enumerate() {
		for v in values {
			// written with its tag and length, or only one of them, once, twice or within another
			let object = tlv(tag, v);
			shaped.extend([
				(k, object.clone()),
				(k, [object.clone(), object.clone()].concat()),
				(k, tlv(&[0x70], &object)),
				(k, tlv(&[0x77], &object)),
				(k, [&tag[..], v].concat()),
				(k, [&[v.len() as u8][..], v].concat()),
				(k, [&[0, v.len() as u8][..], v].concat()),
				(k, [&[0x81, v.len() as u8][..], v].concat()),
				(k, [&tag[..], &[0x81, v.len() as u8], v].concat()),
				(k, [&tag[..], &[0x82, 0, v.len() as u8], v].concat()),
				(k, [&v[..], v].concat()),
				(k, [&v[..], v, v].concat()),
				(k, [&object[..], &[0x90, 0]].concat()),
				(k, [&v[..], &[0x90, 0]].concat()),
				(k, [b"0x", &v[..]].concat()),
				(k, hex(v).into_bytes()),
				(k, hex(v).to_lowercase().into_bytes()),
				(k, [b"0x", hex(v).as_bytes()].concat()),
				(k, [hex(v).as_bytes(), b"\n"].concat()),
				(k, [&[0x22], &v[..], &[0x22]].concat()),
			]);
			// as text in other ways
			let number = v.iter().fold(0u128, |n, b| n << 8 | u128::from(*b));
			let spaced: Vec<String> = v.iter().map(|b| format!("{b:02X}")).collect();
			let bits: Vec<String> = v.iter().map(|b| format!("{b:08b}")).collect();
			for t in [
				number.to_string(),
				format!("{number:X}"),
				format!("{number:03X}"),
				hex(v).trim_start_matches('0').to_owned(),
				spaced.join(" "),
				spaced.join(":"),
				bits.concat(),
				bits.join(" "),
				format!("{}h", hex(v)),
				format!("[{}]", hex(v)),
				format!("\\x{}", spaced.join("\\x")),
			] {
				shaped.push((k, t.into_bytes()));
			}
			// every part of it
			for a in 0..=v.len() {
				for b in a..=v.len() {
					shaped.push((k, v[a..b].to_vec()));
				}
			}
			// filled up on either side with every byte
			for b in 0..=255u8 {
				for n in [1, 2, 3, 4, 8] {
					let more = vec![b; n];
					shaped.push((k, [&more[..], v].concat()));
					shaped.push((k, [&v[..], &more].concat()));
				}
				shaped.push((k, [&[b], &v[..], &[b]].concat()));
			}
			// a check byte behind it
			let x = v.iter().fold(0, |a, b| a ^ b);
			let sum = v.iter().fold(0u8, |a, b| a.wrapping_add(*b));
			for c in [x, !x, sum, sum.wrapping_neg()] {
				shaped.push((k, [&v[..], &[c]].concat()));
			}
		}
	}
	// digits and letters of every size
	for k in 0..wholes.len() {
		for n in 1..=24usize {
			for first in 0..12u8 {
				let digit = |j: u8| b"0123456789AF"[j as usize % 12];
				shaped.push((k, vec![digit(first); n]));
				shaped.push((k, (0..n).map(|j| digit(first + j as u8 % 10)).collect()));
			}
		}
	}
	shaped.sort();
	shaped.dedup();
	let radix = [shaped.len() as u64, 4];
	e.family(
		"wrong sizes that look like something",
		"right values of 16 kinds in parts, with tag and length, doubled, written as text in 17 ways, with a status, a check byte or 1..8 of any byte before, behind or around, and digits of every size x own option, BER, Ingenico, Ingenico text",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (k, v) = &shaped[d[0]];
			let (tag, op, _) = &wholes[*k];
			match d[1] {
				0 => {
					let Some(op) = op else { return Ok(()) };
					if v.is_empty() {
						return Ok(());
					}
					run(r, *op, &hex(v))
				}
				1 => run(r, Op::Ber, &hex(&tlv(tag, v))),
				2 => run(r, Op::Ingenico, &ingenico(tag, v)),
				_ if v.is_ascii() && !v.contains(&0) => {
					let t = String::from_utf8(v.clone()).expect("ASCII");
					run(r, Op::Ingenico, &format!("T{}:{:04X}:a{t}", hex(tag), v.len()))
				}
				_ => Ok(()),
			}
		},
	);
	e.family(
		"large sizes",
		"sizes around 255, 256, 65,535 and 65,000 for each tag and operation",
		(tags.len() + ops.len()) as u64 * 6,
		|r, i| {
			let d = digits(i, &[(tags.len() + ops.len()) as u64, 6]);
			let n = [254usize, 255, 256, 257, 32768, 65000][d[1]];
			if d[0] < tags.len() {
				run(r, Op::Ber, &hex(&tlv(tags[d[0]], &vec![0x41; n])))
			} else {
				run(r, ops[d[0] - tags.len()], &hex(&vec![0x41; n]))
			}
		},
	);
	e.family(
		"large Ingenico sizes",
		"sizes around 65,536 of each tag, as text",
		tags.len() as u64 * 3,
		|r, i| {
			let d = digits(i, &[tags.len() as u64, 3]);
			let n = [65535usize, 65536, 65541][d[1]];
			run(
				r,
				Op::Ingenico,
				&format!("T{}:{n:06X}:a{}", hex(tags[d[0]]), "0".repeat(n)),
			)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

pub fn c15(e: &mut Engine) {
	let ident = |r: &mut Runner, tag: &[u8]| -> Result<(), Bad> {
		let t = hex(tag);
		let exp = expect(Op::Identify, t.as_bytes(), &Settings::default());
		let c = op_case(Op::Identify, &t);
		let o = r.run(&c);
		r.item(&c.args);
		r.sample(|| format!("{} -> {}", c.shell("pemv"), o.out_str()));
		if o.out != exp.stdout().as_bytes() || !o.err.is_empty() {
			return Err(Bad::new(&c, &o, exp.stdout(), "wrong identification"));
		}
		Ok(())
	};
	let all = Seqs { k: 256, lo: 1, hi: 2 };
	e.family(
		"every short tag",
		"all 65,792 one- and two-byte strings to identify",
		all.count(),
		|r, i| {
			let t: Vec<u8> = all.get(i).iter().map(|x| *x as u8).collect();
			ident(r, &t)
		},
	);
	let firsts: Vec<u8> = if e.thorough() {
		(0..=255).filter(|b| b & 0x1F == 0x1F).collect()
	} else {
		vec![0x9F, 0xDF, 0x5F, 0xBF]
	};
	let step = e.pick(5u64, 1);
	let last: Vec<u8> = (0..=255u8).step_by(step as usize).collect();
	e.family(
		"three-byte tags",
		"first bytes with the continuation pattern x second byte 0x80.. x third byte to identify",
		firsts.len() as u64 * 128 / step * last.len() as u64,
		|r, i| {
			let n = 128 / step;
			let d = digits(i, &[firsts.len() as u64, n, last.len() as u64]);
			ident(r, &[firsts[d[0]], 0x80 + (d[1] as u64 * step) as u8, last[d[2]]])
		},
	);
	e.family(
		"longer tags",
		"every known tag with bytes added in front, behind and between, and lengths 3..40 of uniform bytes",
		spec::TAG_NAMES.len() as u64 * 8 + 38 * 8,
		|r, i| {
			let n = spec::TAG_NAMES.len() as u64 * 8;
			if i >= n {
				let d = digits(i - n, &[38, 8]);
				return ident(r, &vec![[0x00, 0x1F, 0x3F, 0x7F, 0x9F, 0xBF, 0xFF, 0x5A][d[1]]; d[0] + 3]);
			}
			let t = spec::TAG_NAMES[i as usize / 8].0;
			let v: Vec<u8> = match i % 8 {
				0 => [t, &[0x00]].concat(),
				1 => [&[0x00], t].concat(),
				2 => [t, t].concat(),
				3 => t[1..].to_vec(),
				4 => [&t[..1], &[0x81], &t[1..]].concat(),
				5 => t.iter().rev().copied().collect(),
				6 => t.iter().map(|b| b ^ 0x20).collect(),
				_ => [t, &[0xFF, 0xFF]].concat(),
			};
			if v.is_empty() {
				return Ok(());
			}
			ident(r, &v)
		},
	);
	// known tags with more bytes in front or behind, and with any one byte changed
	let more: [&[u8]; 12] = [
		&[0x00], &[0x01], &[0x7F], &[0x80], &[0xFF], &[0x00, 0x00], &[0x81, 0x01], &[0x90, 0x00], &[0x9F], &[0x5A], &[0x00, 0x00, 0x00, 0x00],
		&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
	];
	e.family(
		"known tags with more bytes",
		"every known tag x 12 strings of 1..10 bytes in front, behind, or both; every known tag with each byte set to each of 256 values; every known tag cut short",
		spec::TAG_NAMES.len() as u64,
		|r, i| {
			let t = spec::TAG_NAMES[i as usize].0;
			for m in more {
				ident(r, &[t, m].concat())?;
				ident(r, &[m, t].concat())?;
				ident(r, &[m, t, m].concat())?;
			}
			for at in 0..t.len() {
				for x in (0..=255u8).step_by(if t.len() > 1 { 3 } else { 1 }) {
					let mut v = t.to_vec();
					v[at] = x;
					ident(r, &v)?;
				}
				if at > 0 {
					ident(r, &t[..at])?;
				}
			}
			Ok(())
		},
	);
	let naming = Proj {
		name: true,
		kids: true,
		..Proj::default()
	};
	let tags = [one_byte_tags(), two_byte_tags(), longer_tags()].concat();
	let s = Settings::default();
	let value = |t: &[u8], k: usize| -> Vec<u8> {
		let want = [7usize, 2, 0, 1][k];
		valid_value(t, want)
			.or_else(|| (0..40).find_map(|n| valid_value(t, n)))
			.expect("a valid value")
	};
	explore_objects(
		e,
		"every tag in a block",
		"every one- and two-byte tag and 576 longer ones x 4 values (one masked), at depths 0 and 1",
		tags.len() as u64 * 5 * 2,
		&s,
		naming,
		Refused::Skip,
		|i| {
			let d = digits(i, &[tags.len() as u64, 5, 2]);
			let t = &tags[d[0]];
			let v = if d[1] == 4 { b"****".to_vec() } else { value(t, d[1]) };
			let b = tlv(t, &v);
			if d[2] == 1 {
				tlv(&[0xE1], &b)
			} else {
				b
			}
		},
	);
	let radix = [8u64, 128, 128];
	explore_objects(
		e,
		"every three-byte tag in a block",
		"all 131,072 three-byte tags",
		product(&radix),
		&s,
		naming,
		Refused::Skip,
		|i| {
			let d = digits(i, &radix);
			tlv(&[(d[0] << 5) as u8 | 0x1F, 0x80 | d[1] as u8, d[2] as u8], &[1])
		},
	);
	e.family(
		"every tag in an Ingenico block",
		"every one- and two-byte string as a tag (leading zeros are stripped), 128 to a block",
		all.count().div_ceil(128),
		|r, chunk| {
			let items: Vec<Vec<u8>> = (chunk * 128..((chunk + 1) * 128).min(all.count()))
				.map(|i| all.get(i).iter().map(|x| *x as u8).collect())
				.collect();
			for i in &items {
				r.item(&("ingenico", i));
			}
			let mk = |v: &[Vec<u8>]| {
				let f: Vec<String> = v
					.iter()
					.map(|t| {
						let strip = t.iter().position(|b| *b != 0).unwrap_or(t.len() - 1);
						ingenico(t, &value(&t[strip..], 1))
					})
					.collect();
				op_case(Op::Ingenico, &f.join(" "))
			};
			r.pack(&items, &mk, &|v, o| {
				let exp = expect(Op::Ingenico, &mk(v).args[1], &s);
				judge_tlv(Op::Ingenico, &exp, o, naming)
			})
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::BerUnsorted, Form::Ingenico, Form::AutoBer, Form::AutoIngenico],
		&|r, op, t, s| single_tlv(r, op, t, s, naming),
	);
	// the variants of names
	e.family(
		"name variants",
		"Issuer Application Data of 0..40 bytes, every transaction type, every printable response code first character",
		41 + 256 + 96,
		|r, i| {
			let b = if i < 41 {
				tlv(&[0x9F, 0x10], &vec![0x0F; i as usize])
			} else if i < 297 {
				tlv(&[0x9C], &[(i - 41) as u8])
			} else {
				tlv(&[0x8A], &[(i - 297) as u8 + 0x20, b'1'])
			};
			single_tlv(r, Op::Ber, &hex(&b), &s, naming)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

pub fn c16(e: &mut Engine) {
	let bases: Vec<(Op, Vec<u8>)> = vec![
		(Op::Tvr, vec![0x84, 0x08, 0xAB, 0xCD, 0x10]),
		(Op::Iad, iad_with_cvr(&[0xA4, 0x20, 0xBC, 0xDE, 0xF0])),
		(Op::Cvr, vec![0xA4, 0x2B, 0x0C, 0x5D, 0x00]),
		(Op::Tsi, vec![0xE8, 0x0F]),
		(Op::CvmResults, vec![0x5E, 0x0A, 0x02]),
		(Op::CvmList, vec![0, 0, 0, 0x0A, 0, 0, 0, 9, 0x5E, 0x03, 0x1F, 0x06]),
		(Op::Identify, vec![0x9F, 0x4B]),
		(Op::Auto, vec![0x5A, 0x02, 0xBC, 0x12, 0xC1, 0x01, 0xEF]),
		(Op::Ber, vec![0x6F, 0x06, 0xA5, 0x04, 0x50, 0x02, 0x4A, 0x4B, 0x9F, 0x26, 0x01, 0xDE]),
		// refused ones, too: the diagnostic must not change either
		(Op::Tvr, vec![0x84, 0x08, 0xAB]),
		(Op::Ber, vec![0x5A, 0x05, 0xBC]),
		(Op::Identify, vec![0xFE]),
		(Op::CvmList, vec![1, 2, 3, 4, 5, 6, 7]),
	];
	let seps: Vec<String> = [
		" ", "  ", ":", "-", ",", ".", ";", "/", "_", "\t", "\n", "\r\n", "g", "G", "x", "0x", "z", "h", "é", "Ａ", "💳", "İ", "\u{7f}",
		"\u{1}", "١", "T", "'", "\"", "\\", "*", "@", "`", "{", "\u{feff}", "\u{202e}", "ß", "ſ", "K",
	]
	.iter()
	.map(|s| s.to_string())
	.filter(|s| s != "0x") // contains a digit
	.collect();
	let plain: Vec<Outcome> = {
		let slot = std::sync::Mutex::new(vec![None; bases.len()]);
		e.family("plain spellings", "each base value in upper case", bases.len() as u64, |r, i| {
			let (op, v) = &bases[i as usize];
			let c = op_case(*op, &hex(v));
			let o = r.run(&c);
			r.item(&c.args);
			let exp = expect(*op, hex(v).as_bytes(), &Settings::default());
			if exp.result.is_ok() && (o.out.is_empty() || !o.err.is_empty()) {
				return Err(Bad::new(&c, &o, exp.stdout(), "a valid value is not decoded"));
			}
			slot.lock().unwrap()[i as usize] = Some(o);
			Ok(())
		});
		slot.into_inner().unwrap().into_iter().flatten().collect()
	};
	if plain.len() < bases.len() {
		return;
	}
	let same = |r: &mut Runner, b: usize, text: &str| -> Result<(), Bad> {
		let c = op_case(bases[b].0, text);
		if text.starts_with('-') {
			return Ok(());
		}
		let o = r.run(&c);
		r.item(&c.args);
		r.sample(|| c.shell("pemv"));
		model::step();
		if o.out != plain[b].out || o.err != plain[b].err || o.status != plain[b].status {
			return Err(Bad::new(
				&c,
				&o,
				plain[b].out_str() + &plain[b].err_str(),
				"another spelling of the same digits gives another result",
			));
		}
		Ok(())
	};
	let ns = seps.len() as u64;
	e.family(
		"one separator anywhere",
		"13 operations and values x every separator x every place (also inside a byte, in front and behind) x upper, lower, mixed case",
		bases.len() as u64 * ns,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, ns]);
			let h = hex(&bases[d[0]].1);
			for at in 0..=h.len() {
				for case in 0..3 {
					let t = match case {
						0 => h.clone(),
						1 => h.to_lowercase(),
						_ => h
							.chars()
							.enumerate()
							.map(|(k, c)| if k % 2 == 0 { c.to_ascii_lowercase() } else { c })
							.collect(),
					};
					same(r, d[0], &format!("{}{}{}", &t[..at], seps[d[1]], &t[at..]))?;
				}
			}
			Ok(())
		},
	);
	let few: Vec<&String> = seps.iter().step_by(e.pick(5, 2)).collect();
	let nf = few.len() as u64;
	e.family(
		"two separators",
		"every pair of places x pairs of separators, for the short values",
		bases.len() as u64 * nf * nf,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, nf, nf]);
			let h = hex(&bases[d[0]].1);
			if h.len() > 12 && !r.ctx.thorough || h.len() > 24 {
				return Ok(());
			}
			for a in 0..=h.len() {
				for b in a..=h.len() {
					same(
						r,
						d[0],
						&format!("{}{}{}{}{}", &h[..a], few[d[1]], &h[a..b], few[d[2]], &h[b..]),
					)?;
				}
			}
			Ok(())
		},
	);
	e.family(
		"a separator everywhere",
		"one separator between all digits, and between all bytes, with runs of 1..3",
		bases.len() as u64 * ns * 6,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, ns, 3, 2]);
			let h = hex(&bases[d[0]].1);
			let sep = seps[d[1]].repeat(d[2] + 1);
			let step = d[3] + 1;
			let parts: Vec<&str> = (0..h.len()).step_by(step).map(|k| &h[k..(k + step).min(h.len())]).collect();
			same(r, d[0], &parts.join(&sep))
		},
	);
	e.family(
		"a spare digit",
		"each of 22 hex digits appended, alone or behind a separator",
		bases.len() as u64 * 22 * 3,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, 22, 3]);
			let c = "0123456789abcdefABCDEF".as_bytes()[d[1]] as char;
			let t = format!("{}{}{c}{}", hex(&bases[d[0]].1), ["", " ", ""][d[2]], ["", "", "z"][d[2]]);
			same(r, d[0], &t)
		},
	);
	// every text over digits and separators that are easily taken for more than that
	let symbols = ["0", "x", "8", "a", "F", " ", "X", ":", "h", "\\", "%", "é"];
	let q = Seqs {
		k: e.pick(9, 12),
		lo: 1,
		hi: 5,
	};
	e.family(
		"every text over digits and separators",
		"every text of up to 5 symbols over 9 (12) digits, blanks, letters and prefixes, between the digits of a tag to identify",
		q.count(),
		|r, i| {
			let t: String = q.get(i).iter().map(|x| symbols[*x]).collect();
			let t = format!("D{t}9F");
			let digits: Vec<u8> = t.chars().filter(char::is_ascii_hexdigit).map(|c| c.to_digit(16).unwrap() as u8).collect();
			let want: String = digits[..digits.len() / 2 * 2].iter().map(|d| format!("{d:X}")).collect();
			let c = op_case(Op::Identify, &t);
			let o = r.run(&c);
			r.item(&c.args);
			r.sample(|| c.shell("pemv"));
			model::step();
			if !o.out_str().contains(&format!("0x{want}\n")) {
				return Err(Bad::new(&c, &o, format!("0x{want}"), "the digits are not read as given"));
			}
			Ok(())
		},
	);
	// every byte value, each digit on its own
	e.family(
		"every byte in every case",
		"all 256 byte values in 4 case combinations, in one block and to identify",
		256,
		|r, i| {
			let (u, l) = (format!("{i:02X}"), format!("{i:02x}"));
			for t in [
				u.clone(),
				l.clone(),
				format!("{}{}", &u[..1], &l[1..]),
				format!("{}{}", &l[..1], &u[1..]),
				format!("{}-{}", &u[..1], &l[1..]),
			] {
				for (op, text) in [(Op::Ber, format!("c101{t}5a0100")), (Op::Identify, t.clone())] {
					if text.starts_with('-') {
						continue;
					}
					let exp = expect(op, text.as_bytes(), &Settings::default());
					let c = op_case(op, &text);
					let o = r.run(&c);
					r.item(&c.args);
					// only the bytes are this property's business
					let want = hex(&[i as u8]);
					let ok = if op == Op::Identify {
						o.out_str().contains(&format!("0x{want}\n"))
					} else {
						observe::block(&o.out_str())
							.ok()
							.and_then(|b| b.into_iter().find(|n| n.tag == "C1"))
							.and_then(|n| n.bytes())
							== Some(vec![i as u8])
					};
					if !ok {
						return Err(Bad::new(&c, &o, exp.stdout(), "a digit is not read as its own value"));
					}
				}
			}
			Ok(())
		},
	);
	// every character as a separator
	let usable = |c: &char| *c != '\0' && !c.is_ascii_hexdigit();
	let per = e.pick(16_384u32, 512);
	e.family(
		"every character as a separator",
		"every Unicode character that is no hex digit, 16,384 (512) to a text, going round the gaps between the digits of a valid block",
		u64::from(0x11_0000 / per),
		|r, i| {
			let chars: Vec<char> = (i as u32 * per..(i as u32 + 1) * per)
				.filter_map(char::from_u32)
				.filter(usable)
				.collect();
			if chars.is_empty() {
				return Ok(());
			}
			let b = 8; // the longest valid one
			let h = hex(&bases[b].1);
			let mut t = String::new();
			for (k, d) in h.chars().enumerate() {
				t.push(d);
				for c in chars.iter().skip(k % h.len()).step_by(h.len()) {
					t.push(*c);
				}
			}
			same(r, b, &t)
		},
	);
	// every pair of ASCII separators: between bytes, inside one, around one, and with one of the two between others
	let ascii: Vec<char> = (1..128u8).map(char::from).filter(usable).collect();
	let na = ascii.len() as u64;
	e.family(
		"every pair of ASCII separators",
		"every pair of the 105 ASCII characters that are no hex digits: side by side between bytes, inside a byte, around a byte, around a digit, 105 pairs to a block",
		na * 4,
		|r, i| {
			let d = digits(i, &[na, 4]);
			let a = ascii[d[0]];
			let items: Vec<(char, u8)> = ascii.iter().enumerate().map(|(k, b)| (*b, 0x10 + k as u8)).collect();
			let mk = |v: &[(char, u8)]| {
				let mut t = String::new();
				for (b, x) in v {
					let (hi, lo) = (format!("{:X}", x >> 4), format!("{:x}", x & 15));
					t += &match d[1] {
						0 => format!("C101{a}{b}{hi}{lo}"),
						1 => format!("C1 01{hi}{a}{b}{lo}"),
						2 => format!("C101{a}{hi}{lo}{b}"),
						_ => format!("C101{hi}{a}{lo}{b}"),
					};
				}
				Case::new(&["--no-sort", &format!("--ber-tlv={t}")])
			};
			for x in &items {
				r.item(&(a, x.0, d[1]));
			}
			r.pack(&items, &mk, &|v, o| {
				let got: Vec<Option<Vec<u8>>> = observe::block(&o.out_str())?.iter().map(|n| n.bytes()).collect();
				let want: Vec<Option<Vec<u8>>> = v.iter().map(|(_, x)| Some(vec![*x])).collect();
				model::step();
				if got != want {
					return Err(format!("with separators {a:?} and others the digits are not read as given: {got:?}"));
				}
				Ok(())
			})
		},
	);
	// long texts with few separators, and short ones
	let sizes = [1usize, 2, 3, 10, 25, 26, 49, 50, 51, 60, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 4096];
	let kinds: Vec<String> = seps.iter().cloned().chain(["\u{a0}", "\u{2003}", "\u{2009}", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{ad}"].map(str::to_owned)).collect();
	let radix = [sizes.len() as u64, kinds.len() as u64, 7];
	e.family(
		"separators in texts of every size",
		"blocks of 28 sizes from 1 to 4,096 bytes x 44 separators x once first, after one byte, inside the first, in the middle, inside the middle byte, before the last digit, after the last; between all bytes and between all digits",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = sizes[d[0]];
			let data: Vec<u8> = (0..n).map(|k| (k * 37 + 11) as u8).collect();
			let mut b = vec![0xC1];
			b.extend(length_bytes(n, if n < 0x80 { 0 } else if n < 0x100 { 1 } else { 2 }).unwrap());
			b.extend(&data);
			let h = hex(&b);
			let s = &kinds[d[1]];
			let at = [0, 2, 1, b.len() / 2 * 2, b.len() / 2 * 2 + 1, h.len() - 1, h.len()][d[2]];
			let step = [0, 2, 1, 0, 6, 32, 5][d[2]];
			let mut texts = vec![format!("{}{s}{}", &h[..at], &h[at..])];
			if step > 0 {
				let parts: Vec<&str> = (0..h.len()).step_by(step).map(|k| &h[k..(k + step).min(h.len())]).collect();
				texts.push(parts.join(s));
			}
			for t in texts {
				if t.len() > 120_000 {
					continue;
				}
				let c = Case::new(&[format!("--ber-tlv={t}")]);
				let o = r.run(&c);
				r.item(&c.args);
				model::step();
				let got = observe::block(&o.out_str()).ok().and_then(|b| if b.len() == 1 { b[0].bytes() } else { None });
				if got.as_ref() != Some(&data) {
					return Err(Bad::new(&c, &o, hex(&data), "the digits are not read as given"));
				}
			}
			Ok(())
		},
	);
	// very long texts of few digits
	let sizes: Vec<usize> = [1usize, 10, 100, 1000, 10_000, 100_000]
		.into_iter()
		.chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16_383, 16_384, 16_385, 20_000, 32_767, 32_768, 32_769, 50_000, 65_535, 65_536, 65_537, 80_000, 120_000, 130_000])
		.collect();
	let fills = [" ", "\n", "\t", ":", "x", "-", "\r\n", "\u{e9}"];
	let radix = [bases.len() as u64, sizes.len() as u64, fills.len() as u64];
	e.family(
		"long texts of few digits",
		"13 operations and values x 36 amounts of up to 130,000 characters x 8 kinds of character, in front, behind, between the first two bytes, inside the last byte, in equal parts between all digits",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let h = hex(&bases[d[0]].1);
			let f = fills[d[2]];
			let n = sizes[d[1]].min(130_000 / f.len());
			let fill = f.repeat(n);
			let mut places = vec![2, h.len() - 1, h.len()];
			if f != "-" {
				places.push(0);
			}
			for at in places {
				same(r, d[0], &format!("{}{fill}{}", &h[..at], &h[at..]))?;
			}
			let part = f.repeat((n / h.len()).max(1));
			let t: String = h.chars().flat_map(|c| [c.to_string(), part.clone()]).collect();
			same(r, d[0], &t)
		},
	);
	// words, names and escapes that have digits in them: the digits count, whatever they are part of
	const WORDS: [&str; 135] = [
		"FS", "GS", "RS", "US", "STX", "ETX", "SOH", "EOT", "ENQ", "ACK", "BEL", "BS", "HT", "LF", "VT", "FF", "CR", "SO", "SI", "DLE", "DC1", "DC2", "DC3", "DC4", "NAK",
		"ETB", "CAN", "EM", "SUB", "ESC", "SP", "DEL", "NUL", "EOF", "BOM", "CRLF", "tab", "space", "dec", "hex", "ascii", "bcd", "ebcdic", "base64", "data", "byte", "bytes",
		"tag", "length", "value", "len", "field", "card", "code", "decoded", "end", "header", "raw data", "apdu", "Le", "Lc", "CLA", "INS", "P1", "P2", "SW1SW2", "C-APDU",
		"0x", "0X", "0b", "0d", "&#x1c;", "&#32;", "&nbsp;", "&amp;", "&#xFEFF;", "%20", "%1C", "%0A", "%2C", "+", "\\x1c", "\\u001c", "\\u{1c}", "\\034", "\\e", "\\b", "\\f", "\\a",
		"=3D", "=20", "U+001C", "u0020", "1.", "1)", "(1)", "#1", "//1", "/*1*/", "-- 1", "; 1", "rem 1", "'1'", "00:", "0000:", "0000: ", "00000000: ", "0000000 ", "0x00: ", "00h", "0h", "h", "x", "1C", "FC", "FE", "FD",
		"FFFE", "EFBBBF", "e0", "1e3", "1_000", "1,000", "2026-01-01", "12:00:00", "bad", "face", "cafe", "deadbeef", "9000", "a0", "0", "00",
		"null", "false",
	];
	let wraps: [(&str, &str); 12] = [
		("", ""), ("<", ">"), ("[", "]"), ("(", ")"), ("{", "}"), ("\"", "\""), ("'", "'"), ("`", "`"), ("%", "%"), ("\n", "\n"), (" ", ": "), ("^", ""),
	];
	let radix = [WORDS.len() as u64, wraps.len() as u64, 4];
	e.family(
		"words with digits in them",
		"135 words, names of control characters, escapes, numbers, offsets and remarks as written, in upper and in lower case x 12 kinds of brackets and surroundings x a tag to identify, a BER-TLV block, the same by detection, a TVR x first, last, between bytes, inside a byte: read as the digits in them",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let word = WORDS[d[0]];
			let mut spelled = vec![word.to_owned(), word.to_uppercase(), word.to_lowercase()];
			spelled.dedup();
			for word in spelled {
				let w = format!("{}{word}{}", wraps[d[1]].0, wraps[d[1]].1);
				let count = w.chars().filter(char::is_ascii_hexdigit).count();
				// the digits beside the word, so that the whole is what the operation takes
				let rest = match d[2] {
					0 => "9F4B7A".to_owned(),
					3 if count > 10 => continue,
					3 => "84080A00D0"[..10 - count].to_owned(),
					_ => format!("12D4A6B80C{}", if count % 2 == 1 { "7" } else { "" }),
				};
				for at in [0, rest.len(), 2, 3] {
					if at > rest.len() {
						continue;
					}
					let text = format!("{}{w}{}", &rest[..at], &rest[at..]);
					let (flag, text) = match d[2] {
						0 => ("--identify", text),
						3 => ("--tvr", text),
						_ => {
							let n = text.chars().filter(char::is_ascii_hexdigit).count() / 2;
							(["--ber-tlv", "--auto-tlv"][d[2] - 1], format!("C1{n:02X}{text}"))
						}
					};
					let plain: String = text.chars().filter(char::is_ascii_hexdigit).collect();
					let want = r.run(&Case::new(&[format!("{flag}={plain}")]));
					let c = Case::new(&[format!("{flag}={text}")]);
					let o = r.run(&c);
					r.item(&c.args);
					r.sample(|| c.shell("pemv"));
					model::step();
					if o.out != want.out || o.err != want.err || o.status != want.status {
						return Err(Bad::new(&c, &o, want.out_str() + &want.err_str(), "the digits of a word are not read as digits"));
					}
				}
			}
			Ok(())
		},
	);
	// what a text begins or ends with: prefixes, quotes, marks, comments, and whole words without digits
	let marks = [
		"0x", "0X", "x", "\\x", "#", "//", "/*", "--", ";", "$", "&H", "h'", "H'", "'", "\"", "`", "<", "[", "(", "{", "\u{feff}", "\u{200e}", "\u{200b}",
		"\u{202e}", "\u{a0}", "\u{3000}", "tlv:", "hex:", "T", "T:", "no", "string ", "with", "\r\n\r\n", "\n#\n", "\n//", "%", "^", "~", "=", "?", "!", "|",
		"１", "Ａ", "ａ", "٣", "𝟘", "Ⅽ", "ⓐ", "🅰", "²",
	];
	e.family(
		"how the text begins, breaks and ends",
		"13 operations and values x 50 prefixes, quotes, comment marks, invisible characters and look-alikes of digits, in front, in the middle, behind, around, at every line, each with a blank or a line break or nothing after it",
		bases.len() as u64 * marks.len() as u64,
		|r, i| {
			let d = digits(i, &[bases.len() as u64, marks.len() as u64]);
			let h = hex(&bases[d[0]].1);
			let mut m: String = marks[d[1]].to_owned();
			// the digits of a prefix count as digits
			m.retain(|c| !c.is_ascii_hexdigit());
			let flag = bases[d[0]].0.flag();
			for gap in ["", " ", "\n", "\t\t"] {
				let w = format!("{m}{gap}");
				let mid = h.len() / 4 * 2;
				let lines: Vec<&str> = (0..h.len()).step_by(4).map(|k| &h[k..(k + 4).min(h.len())]).collect();
				for t in [
					format!("{w}{h}"),
					format!("{h}{gap}{m}"),
					format!("{w}{h}{gap}{m}"),
					format!("{}{w}{}", &h[..mid], &h[mid..]),
					format!("{}{w}{}", &h[..mid + 1], &h[mid + 1..]),
					lines.iter().map(|l| format!("{w}{l}\n")).collect::<String>(),
					lines.iter().map(|l| format!("{l}{gap}{m}\r\n")).collect::<String>(),
				] {
					let b = d[0];
					let c = Case::new(&[format!("{flag}={t}")]);
					let o = r.run(&c);
					r.item(&c.args);
					r.sample(|| c.shell("pemv"));
					model::step();
					if o.out != plain[b].out || o.err != plain[b].err || o.status != plain[b].status {
						return Err(Bad::new(
							&c,
							&o,
							plain[b].out_str() + &plain[b].err_str(),
							"another spelling of the same digits gives another result",
						));
					}
				}
			}
			Ok(())
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

/// What an option shows, and what the object shows in a block.
fn routes(r: &mut Runner, op: Op, own: &str, obj: &[u8], indent_in_block: bool) -> Result<(), Bad> {
	// a value of masking characters alone is shown as masked in a block (C06)
	if op != Op::ServiceCode && model::masked_bytes(&obj[obj.len() - own.len() / 2..], &['*']) {
		return Ok(());
	}
	let ca = op_case(op, own);
	let cb = op_case(Op::Ber, &hex(obj));
	let (oa, ob) = (r.run(&ca), r.run(&cb));
	r.item(&(&ca.args, &cb.args));
	r.sample(|| format!("{} ~ {}", ca.shell("pemv"), cb.shell("pemv")));
	model::step();
	let bad = |m: &str| Err(Bad::new(&cb, &ob, oa.out_str() + &oa.err_str(), m));
	if oa.out.is_empty() {
		if op == Op::Iad {
			// not CCD: shown raw in a block
			let ok = oa.err_str() == model::Diag::NonCcd.text() + "\n"
				&& observe::block(&ob.out_str())
					.is_ok_and(|b| b.len() == 1 && b[0].parsed.is_none() && b[0].name.contains("Not CCD"));
			return if ok { Ok(()) } else { bad("not refused in the same way by both routes") };
		}
		return if oa.err == ob.err && ob.out.is_empty() && one_line(&oa.err) {
			Ok(())
		} else {
			bad("not refused for the same reason by both routes")
		};
	}
	let _ = indent_in_block;
	let parsed = match observe::block(&ob.out_str()) {
		Ok(b) if b.len() == 1 => b[0].parsed.clone(),
		_ => None,
	};
	let own_lines: Vec<String> = oa.out_str().lines().map(str::to_owned).collect();
	if parsed.as_ref() != Some(&own_lines) {
		return bad("the two routes show different breakdowns");
	}
	Ok(())
}

pub fn c24(e: &mut Engine) {
	for (name, kind, op) in [
		("TVR", BIT_KINDS[0], Op::Tvr),
		("TSI", BIT_KINDS[1], Op::Tsi),
	] {
		let v = interesting(kind.size, kind.fields);
		e.family(
			&format!("{name}: option and block"),
			"every byte value in every position over 5 backgrounds, every pair of bits",
			v.len() as u64,
			|r, i| routes(r, op, &hex(&v[i as usize]), &tlv(kind.tag, &v[i as usize]), true),
		);
	}
	// IACs: a TVR under a heading
	let v = interesting(5, spec::TVR);
	e.family(
		"IACs and TVR",
		"the same values as each of the three IACs: the TVR's breakdown under the IAC's own heading",
		v.len() as u64 * 3,
		|r, i| {
			let x = &v[i as usize / 3];
			let k = BIT_KINDS[4 + i as usize % 3];
			if model::masked_bytes(x, &['*']) {
				return Ok(());
			}
			let ca = op_case(Op::Tvr, &hex(x));
			let cb = op_case(Op::Ber, &hex(&tlv(k.tag, x)));
			let (oa, ob) = (r.run(&ca), r.run(&cb));
			r.item(&cb.args);
			model::step();
			let mut want = vec![k.heading.unwrap().to_owned()];
			want.extend(oa.out_str().lines().map(str::to_owned));
			let got = observe::block(&ob.out_str()).ok().and_then(|mut b| b.pop()).and_then(|b| b.parsed);
			if got.as_ref() != Some(&want) {
				return Err(Bad::new(&cb, &ob, want.join("\n"), "an IAC is not shown as the TVR under its heading"));
			}
			Ok(())
		},
	);
	let n = e.pick(16u64, 256);
	e.family(
		"CVM Results: option and block",
		"every method byte x condition bytes x every assigned and some unassigned results",
		256 * n * 5,
		|r, i| {
			let d = digits(i, &[256, n, 5]);
			let c = if n == 16 { [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 0x80, 0xFE, 0xFF][d[1]] } else { d[1] as u8 };
			let v = [d[0] as u8, c, [0, 1, 2, 3, 0xFF][d[2]]];
			routes(r, Op::CvmResults, &hex(&v), &tlv(&[0x9F, 0x34], &v), true)
		},
	);
	e.family(
		"CVM List: option and block",
		"every rule byte pair in lists of 16 rules; sizes 0..40; amounts",
		4096 + 41 + 100,
		|r, i| {
			let v: Vec<u8> = if i < 4096 {
				let mut v = vec![0, 0, 0, (i % 2) as u8, 0, 0, 0, 0];
				for k in 0..16u64 {
					let x = i * 16 + k;
					v.extend([(x >> 8) as u8, x as u8]);
				}
				v
			} else if i < 4137 {
				vec![(i % 5) as u8; (i - 4096) as usize]
			} else {
				let k = i - 4137;
				let (x, y) = ((k % 10).pow(5) * 7, (k / 10).pow(5) * 65);
				[&(x as u32).to_be_bytes()[..], &(y as u32).to_be_bytes(), &[0x1F, 0x06]].concat()
			};
			let t = if v.is_empty() { "z".to_owned() } else { hex(&v) };
			routes(r, Op::CvmList, &t, &tlv(&[0x8E], &v), true)
		},
	);
	e.family(
		"Issuer Application Data: option and block",
		"each of 32 bytes takes all 256 values over two backgrounds; sizes 0..64",
		32 * 256 * 2 + 65,
		|r, i| {
			let v = if i < 32 * 256 * 2 {
				let d = digits(i, &[32, 256, 2]);
				let mut v = iad_with_cvr(&[[0x84, 0x25, 0x36, 0x47, 0x58], [0xFF; 5]][d[2]]);
				v[d[0]] = d[1] as u8;
				v
			} else {
				vec![0x0F; (i - 32 * 256 * 2) as usize]
			};
			let t = if v.is_empty() { "z".to_owned() } else { hex(&v) };
			routes(r, Op::Iad, &t, &tlv(&[0x9F, 0x10], &v), true)
		},
	);
	e.family(
		"service codes: option and block",
		"every number 0..9999 by both routes (numbers above 999 are refused by both)",
		10000,
		|r, i| {
			let bcd = [(i / 1000 % 10 * 16 + i / 100 % 10) as u8, (i / 10 % 10 * 16 + i % 10) as u8];
			if model::masked_bytes(&bcd, &['*']) {
				return Ok(());
			}
			routes(r, Op::ServiceCode, &format!("{i:04}"), &tlv(&[0x5F, 0x30], &bcd), true)
		},
	);
	let cvrs = interesting(5, spec::CVR);
	e.family(
		"CVR alone and within Issuer Application Data",
		"every byte value in every position over 5 backgrounds, every pair of bits; by both IAD routes",
		cvrs.len() as u64,
		|r, i| {
			let x = &cvrs[i as usize];
			let ca = op_case(Op::Cvr, &hex(x));
			let cb = op_case(Op::Iad, &hex(&iad_with_cvr(x)));
			let (oa, ob) = (r.run(&ca), r.run(&cb));
			r.item(&ca.args);
			model::step();
			let all: Vec<String> = ob.out_str().lines().map(str::to_owned).collect();
			let own: Vec<String> = oa.out_str().lines().map(str::to_owned).collect();
			if cvr_part(&all).as_ref() != Ok(&own) {
				return Err(Bad::new(&cb, &ob, own.join("\n"), "the CVR is shown differently within the IAD"));
			}
			Ok(())
		},
	);
	// refused sizes
	let kinds: [(Op, &[u8]); 5] = [
		(Op::Tvr, &[0x95]),
		(Op::Tsi, &[0x9B]),
		(Op::CvmResults, &[0x9F, 0x34]),
		(Op::CvmList, &[0x8E]),
		(Op::Iad, &[0x9F, 0x10]),
	];
	e.family(
		"sizes by both routes",
		"5 kinds x sizes 0..70 x 3 fillings",
		5 * 71 * 3,
		|r, i| {
			let d = digits(i, &[5, 71, 3]);
			let v = vec![[0x00u8, 0x01, 0xFF][d[2]]; d[1]];
			let t = if v.is_empty() { "z".to_owned() } else { hex(&v) };
			routes(r, kinds[d[0]].0, &t, &tlv(kinds[d[0]].1, &v), true)
		},
	);
	// the same value by its own option and at every depth of a block, in every format
	let mut all: Vec<(Op, Vec<u8>, String, Vec<u8>)> = Vec::new();
	for i in 0..5u64.pow(2) * 4 {
		let d = digits(i, &[5, 5, 4]);
		let a = [0u32, 1, 999, 1000, u32::MAX];
		let v = [&a[d[0]].to_be_bytes()[..], &a[d[1]].to_be_bytes(), [&[][..], &[0x1F, 0x00], &[0x42, 0x06], &[0x01, 0x08, 0x5E, 0x03]][d[2]]].concat();
		all.push((Op::CvmList, vec![0x8E], hex(&v), v));
	}
	for v in interesting(2, spec::TSI).into_iter().step_by(7) {
		all.push((Op::Tsi, vec![0x9B], hex(&v), v));
	}
	for v in interesting(5, spec::TVR).into_iter().step_by(17) {
		all.push((Op::Tvr, vec![0x95], hex(&v), v));
	}
	for i in 0..64u64 {
		let d = digits(i, &[4, 4, 4]);
		let v = vec![[0x01, 0x42, 0x5E, 0x1F][d[0]], [0, 3, 6, 0x80][d[1]], [0, 1, 2, 3][d[2]]];
		all.push((Op::CvmResults, vec![0x9F, 0x34], hex(&v), v));
	}
	for v in interesting(5, spec::CVR).into_iter().step_by(29) {
		let v = iad_with_cvr(&v);
		all.push((Op::Iad, vec![0x9F, 0x10], hex(&v), v));
	}
	for n in (0..1000).step_by(13) {
		let v = vec![(n / 100) as u8, (n / 10 % 10 * 16 + n % 10) as u8];
		all.push((Op::ServiceCode, vec![0x5F, 0x30], format!("{n}"), v));
	}
	all.retain(|(_, _, _, v)| !model::masked_bytes(v, &['*']));
	e.family(
		"options and every depth",
		"about 600 values of the six kinds: by their own option, and at depths 0..6 as BER, by detection and within Ingenico fields",
		all.len() as u64 * 7 * 3,
		|r, i| {
			let d = digits(i, &[all.len() as u64, 7, 3]);
			let (op, tag, own, v) = &all[d[0]];
			let mut b = tlv(tag, v);
			for k in 1..d[1] {
				b = tlv(&[[0x70u8], [0xE1], [0xA5]][k % 3], &b);
			}
			// the outermost level
			let c = match (d[2], d[1]) {
				(0, 0) => op_case(Op::Ber, &hex(&b)),
				(0, _) => op_case(Op::Ber, &hex(&tlv(&[0x77], &b))),
				(1, 0) => op_case(Op::Auto, &hex(&b)),
				(1, _) => op_case(Op::Auto, &hex(&tlv(&[0x77], &b))),
				(_, 0) => op_case(Op::Ingenico, &ingenico(tag, v)),
				_ => op_case(Op::Ingenico, &ingenico(&[0x77], &b)),
			};
			let ca = op_case(*op, own);
			let (oa, ob) = (r.run(&ca), r.run(&c));
			r.item(&c.args);
			r.sample(|| format!("{} ~ {}", ca.shell("pemv"), c.shell("pemv")));
			model::step();
			let text = ob.out_str();
			let text = if d[2] == 1 { text.split_once("\n\n").map_or("", |(_, t)| t) } else { &text };
			let mut at = observe::block(text).ok();
			for _ in 0..d[1] {
				at = at.and_then(|mut b| b.pop()).map(|o| o.kids);
			}
			let got = at.and_then(|mut b| b.pop()).and_then(|o| o.parsed);
			let lines: Vec<String> = oa.out_str().lines().map(str::to_owned).collect();
			if lines.is_empty() {
				// refused
				let fine = match op {
					Op::Iad => got.is_none() && !ob.out.is_empty(),
					// detection has the reason of the parsers, or its own
					_ => ob.out.is_empty() && (oa.err == ob.err || d[2] == 1 && one_line(&ob.err)),
				};
				return if fine { Ok(()) } else { Err(Bad::new(&c, &ob, oa.err_str(), "not refused in the same way by both routes")) };
			}
			if got.as_ref() != Some(&lines) {
				return Err(Bad::new(&c, &ob, lines.join("\n"), "the two routes show different breakdowns"));
			}
			Ok(())
		},
	);
	// a field's data as text and as hex: the same bytes, the same result
	let tags: Vec<&[u8]> = vec![
		&[0x95], &[0x9B], &[0x9F, 0x34], &[0x8E], &[0x9F, 0x10], &[0x5F, 0x30], &[0x8A], &[0x9C], &[0x9F, 0x35], &[0x9F, 0x39], &[0x9F, 0x33],
		&[0x9F, 0x40], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x50], &[0x5A], &[0x5F, 0x20], &[0xC1], &[0x70], &[0xE1],
	];
	let texts = ["0", "1", "9", "A", "f", " ", "01", "20", "0F", "1E0302", "5A01", "T5A:01:h12,", "~", "E8", "\t"];
	let radix = [tags.len() as u64, texts.len() as u64, 70, 2];
	e.family(
		"text and hex data",
		"21 tags x 15 texts repeated to sizes of 0..69: as text and as hex in an Ingenico field, alone and among others",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let v: Vec<u8> = texts[d[1]].bytes().cycle().take(d[2]).collect();
			let (t, n) = (hex(tags[d[0]]), v.len());
			let with = |f: String| if d[3] == 0 { f } else { format!("T9A:03:h240102,{f},T5F34:01:h01") };
			let ca = op_case(Op::Ingenico, &with(format!("T{t}:{n:02X}:h{}", hex(&v))));
			let cb = op_case(Op::Ingenico, &with(format!("T{t}:{n:02X}:a{}", String::from_utf8_lossy(&v))));
			let (oa, ob) = (r.run(&ca), r.run(&cb));
			r.item(&cb.args);
			r.sample(|| format!("{} ~ {}", ca.shell("pemv"), cb.shell("pemv")));
			model::step();
			if oa.out != ob.out || oa.err != ob.err || oa.status != ob.status {
				return Err(Bad::new(&cb, &ob, oa.out_str() + &oa.err_str(), "a value given as text is decoded otherwise than the same bytes in hex"));
			}
			Ok(())
		},
	);
}
