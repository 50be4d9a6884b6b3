//! C01-C07, C20 and C23: the TLV formats and how blocks are laid out.

use crate::broad::{self, Form};
use crate::common::*;
use crate::engine::{digits, product, Bad, Engine, Seqs};
use crate::model::{self, expect, hex, tlv, Op, Settings};
use crate::observe::{self, Proj, TREE};
use crate::server::{Case, Outcome};

fn every_tag() -> Vec<Vec<u8>> {
	[one_byte_tags(), two_byte_tags(), longer_tags()].concat()
}
/// Symbols that exercise every branch of the BER reader.
const SYMBOLS: [u8; 12] = [
	0x00, 0x01, 0x02, 0x03, 0x5A, 0x1F, 0x7F, 0x6F, 0x81, 0x82, 0x84, 0xFF,
];
fn symbols(v: &[usize]) -> Vec<u8> {
	v.iter().map(|i| SYMBOLS[*i]).collect()
}
fn palette_bytes(v: &[usize], pal: &[(&'static str, Vec<u8>)]) -> Vec<u8> {
	v.iter().flat_map(|i| pal[*i].1.clone()).collect()
}

// ---------------------------------------------------------------------------------------------------------

pub fn c01(e: &mut Engine) {
	let s = Settings::default();
	let tags = every_tag();

	let lens = [0usize, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257];
	let radix = [tags.len() as u64, lens.len() as u64, 5];
	explore_objects(
		e,
		"tag x length x length form",
		"every one- and two-byte tag and 576 longer ones x 18 lengths x short form and 1..4 length bytes",
		product(&radix),
		&s,
		TREE,
		Refused::Skip,
		|i| {
			let d = digits(i, &radix);
			encode(&tags[d[0]], lens[d[1]], d[2])
		},
	);

	let max = e.pick(300u64, 2500);
	let radix = [max + 1, 5, 4];
	explore_objects(
		e,
		"every length",
		"every value length up to the bound x each length form x 4 tags",
		product(&radix),
		&s,
		TREE,
		Refused::Skip,
		|i| {
			let d = digits(i, &radix);
			let tag: &[u8] = [&[0x5A][..], &[0xDF, 0x81, 0x01], &[0xC0], &[0x9F, 0x4B]][d[2]];
			encode(tag, d[0], d[1])
		},
	);

	// a constructed object whose children exactly fill it, with each length form at both levels
	let radix = [5, 5, 70];
	explore_objects(
		e,
		"nested length forms",
		"length form of the outer object x of the inner one x inner length 0..69 around the 127/128 border",
		product(&radix),
		&s,
		TREE,
		Refused::Skip,
		|i| {
			let d = digits(i, &radix);
			let n = if d[2] < 35 { d[2] } else { d[2] + 75 };
			let inner = encode(&[0xC1], n, d[1]);
			wrap(&[0xE1], &inner, d[0])
		},
	);

	let big = [4095usize, 4096, 32767, 32768, 32769, 60000, 65000];
	let radix = [big.len() as u64, 4, 2];
	e.family(
		"large values",
		"lengths up to 65,000 x length form x followed by another object or not",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut b = wrap(&[0xC2], &vec![0xA5; big[d[0]]], d[1] + 1);
			if d[2] == 1 {
				b.extend(tlv(&[0x5A], &[0x12]));
			}
			single_tlv(r, Op::Ber, &hex(&b), &s, TREE)
		},
	);

	explore_objects(
		e,
		"every two-byte value",
		"all 65,536 two-byte values of one tag",
		65536,
		&s,
		TREE,
		Refused::Skip,
		|i| tlv(&[0xC3], &(i as u16).to_be_bytes()),
	);

	let n = e.pick(2u32, 3);
	let raw = Seqs { k: 256, lo: 0, hi: n };
	explore_objects(
		e,
		"every byte string",
		"every byte string up to the bound as the contents of a constructed object",
		raw.count(),
		&s,
		TREE,
		Refused::Skip,
		|i| {
			let v: Vec<u8> = raw.get(i).iter().map(|x| *x as u8).collect();
			tlv(&[0xE1], &v)
		},
	);

	let sy = Seqs {
		k: 12,
		lo: 0,
		hi: e.pick(4, 6),
	};
	explore_objects(
		e,
		"reduced byte strings",
		"every string over 12 significant bytes as the contents of a constructed object",
		sy.count(),
		&s,
		TREE,
		Refused::Skip,
		|i| tlv(&[0xE1], &symbols(&sy.get(i))),
	);
	e.family(
		"reduced byte strings as blocks",
		"every string over 12 significant bytes, on its own",
		sy_top(e).count(),
		|r, i| {
			let t = hex(&symbols(&sy_top_of(r.ctx.thorough).get(i)));
			if t.is_empty() || expect(Op::Ber, t.as_bytes(), &Settings::default()).result.is_err() {
				return Ok(());
			}
			single_tlv(r, Op::Ber, &t, &Settings::default(), TREE)
		},
	);

	let pal = palette();
	let q = Seqs {
		k: pal.len() as u64,
		lo: 1,
		hi: e.pick(3, 4),
	};
	e.family(
		"object sequences",
		"every sequence of the 30 palette objects up to the bound",
		q.count(),
		|r, i| single_tlv(r, Op::Ber, &hex(&palette_bytes(&q.get(i), &pal)), &s, TREE),
	);

	let base = [
		vec![],
		tlv(&[0x5A], &[0x47, 0x61, 0x73, 0x00, 0x00, 0x00, 0x01, 0x19]),
		[tlv(&[0x9F, 0x36], &[0, 1]), tlv(&[0x70], &tlv(&[0xC1], &[7])), tlv(&[0x50], b"VISA CREDIT")].concat(),
	];
	let short: Vec<Vec<u8>> = [one_byte_tags(), two_byte_tags()].concat();
	let radix = [short.len() as u64, 3, base.len() as u64 * 2];
	e.family(
		"the last and the first object",
		"an object of every one- and two-byte tag with 0..2 value bytes as the last or the first of 3 blocks",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let o = tlv(&short[d[0]], &[0x90, 0x00][..d[1]]);
			let b = &base[d[2] / 2];
			let t = if d[2] % 2 == 0 { [&b[..], &o].concat() } else { [&o[..], b].concat() };
			accepted(r, Op::Ber, &hex(&t), &s, TREE)
		},
	);
	e.family(
		"many objects",
		"blocks of 1..200 and of up to 12,000 equal-sized objects with distinct values",
		206,
		|r, i| {
			let n = if i < 200 { i + 1 } else { [255, 256, 257, 1000, 4096, 12000][i as usize - 200] };
			let b: Vec<u8> = (0..n).flat_map(|k| tlv(&[0xC0], &(k as u16).to_be_bytes())).collect();
			single_tlv(r, Op::Ber, &hex(&b), &s, TREE)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::BerUnsorted, Form::Nested, Form::Nested2],
		&|r, op, t, s| accepted(r, op, t, s, TREE),
	);
}
/// Judges what the model accepts.
fn accepted(r: &mut crate::engine::Runner, op: Op, t: &str, s: &Settings, proj: Proj) -> Result<(), Bad> {
	if expect(op, t.as_bytes(), s).result.is_err() {
		return Ok(());
	}
	single_tlv(r, op, t, s, proj)
}
fn sy_top_of(thorough: bool) -> Seqs {
	Seqs {
		k: 12,
		lo: 1,
		hi: if thorough { 6 } else { 4 },
	}
}
fn sy_top(e: &Engine) -> Seqs {
	sy_top_of(e.thorough())
}
/// An object with a valid value of (about) that length; the nearest valid length if the tag admits no other.
fn encode(tag: &[u8], len: usize, form: usize) -> Vec<u8> {
	let v = valid_value(tag, len)
		.or_else(|| (0..40).find_map(|n| valid_value(tag, n)))
		.expect("a valid value");
	wrap(tag, &v, form)
}
fn wrap(tag: &[u8], v: &[u8], form: usize) -> Vec<u8> {
	let l = (form..=4)
		.chain(0..form)
		.find_map(|f| length_bytes(v.len(), f))
		.expect("a length form");
	[tag, &l, v].concat()
}

// ---------------------------------------------------------------------------------------------------------

/// C02 only asks whether the input was taken or refused, and how.
fn judge_refusal(exp: &model::Expect, o: &Outcome) -> Result<(), String> {
	if exp.ambiguous {
		return Ok(());
	}
	match &exp.result {
		Ok(l) => {
			if !o.err.is_empty() {
				return Err(format!("a valid input is diagnosed: {}", o.err_str()));
			}
			if !l.is_empty() && o.out.is_empty() {
				return Err("a valid input shows nothing".into());
			}
		}
		Err(d) => {
			if !o.out.is_empty() {
				return Err(format!("an invalid input (reason {d:?}) is partly decoded"));
			}
			if !one_line(&o.err) {
				return Err(format!(
					"an invalid input (reason {d:?}) must give one diagnostic line, got {:?}",
					o.err_str()
				));
			}
		}
	}
	Ok(())
}
fn refusal(r: &mut crate::engine::Runner, op: Op, text: &str, s: &Settings) -> Result<(), Bad> {
	if text.is_empty() {
		return Ok(());
	}
	let exp = expect(op, text.as_bytes(), s);
	let c = settings_args(op_case(op, text), s);
	let o = r.run(&c);
	r.item(&(op, text, s.sort));
	r.sample(|| format!("{} -> {:?} {}", c.shell("pemv"), o.status, o.err_str()));
	judge_refusal(&exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
}

/// (tag, a value it refuses)
fn invalid_values() -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![
		(vec![0x95], vec![1, 2, 3, 4]),
		(vec![0x95], vec![1, 2, 3, 4, 5, 6]),
		(vec![0x95], vec![]),
		(vec![0x9B], vec![1]),
		(vec![0x9C], vec![]),
		(vec![0x9C], vec![0, 0]),
		(vec![0x8A], vec![0x30]),
		(vec![0x8A], vec![0xFF, 0xFE]),
		(vec![0x8E], vec![0; 7]),
		(vec![0x8E], vec![0; 9]),
		(vec![0x5F, 0x30], vec![0x02]),
		(vec![0x5F, 0x30], vec![0x0A, 0x01]),
		(vec![0x5F, 0x30], vec![0x10, 0x00]),
		(vec![0x9F, 0x33], vec![1, 2]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00, 0x03]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00, 0xFF]),
		(vec![0x9F, 0x35], vec![0x00]),
		(vec![0x9F, 0x35], vec![0x22, 0x22]),
		(vec![0x9F, 0x39], vec![0xEE]),
		(vec![0x9F, 0x40], vec![1, 2, 3]),
	];
	for t in [0x0D, 0x0E, 0x0F] {
		v.push((vec![0x9F, t], vec![0; 4]));
	}
	v
}

pub fn c02(e: &mut Engine) {
	let s = Settings::default();
	let pal = palette();
	let k = pal.len() as u64;

	let q = Seqs { k, lo: 1, hi: e.pick(2, 3) };
	e.family(
		"every cut of a BER block",
		"every sequence of palette objects up to the bound, cut off at every byte",
		q.count(),
		|r, i| {
			let b = palette_bytes(&q.get(i), &pal);
			for n in 1..=b.len() {
				refusal(r, Op::Ber, &hex(&b[..n]), &s)?;
			}
			Ok(())
		},
	);
	e.family(
		"every cut, detected automatically",
		"every palette object followed by another, cut off at every byte, through automatic detection",
		k,
		|r, i| {
			let b = palette_bytes(&[i as usize, (i as usize * 7 + 3) % pal.len()], &pal);
			for n in 1..=b.len() {
				refusal(r, Op::Auto, &hex(&b[..n]), &s)?;
			}
			Ok(())
		},
	);
	e.family(
		"every cut inside a nested object",
		"every palette object inside 1..3 constructed objects and before a sibling, the whole cut off at every byte",
		k * 3,
		|r, i| {
			let d = digits(i, &[k, 3]);
			let mut b = pal[d[0]].1.clone();
			for _ in 0..=d[1] {
				b = tlv(&[0xE1], &b);
			}
			b.extend(tlv(&[0xC1], &[1]));
			for n in 1..=b.len() {
				refusal(r, Op::Ber, &hex(&b[..n]), &s)?;
			}
			Ok(())
		},
	);

	let q = Seqs { k, lo: 1, hi: e.pick(1, 2) };
	e.family(
		"every byte replaced",
		"every sequence of palette objects up to the bound followed by a sentinel object, each byte replaced by each of 256 values",
		q.count(),
		|r, i| {
			let mut b = palette_bytes(&q.get(i), &pal);
			b.extend(tlv(&[0x5A], &[0x12]));
			for at in 0..b.len() {
				for x in 0..=255u8 {
					let mut c = b.clone();
					c[at] = x;
					refusal(r, Op::Ber, &hex(&c), &s)?;
				}
			}
			Ok(())
		},
	);

	let q = sy_top(e);
	e.family(
		"reduced byte strings",
		"every string over 12 significant bytes as a block",
		q.count(),
		|r, i| refusal(r, Op::Ber, &hex(&symbols(&q.get(i))), &s),
	);

	let raw = Seqs { k: 256, lo: 1, hi: 2 };
	e.family(
		"every short byte string",
		"every byte string of one or two bytes as a block",
		raw.count(),
		|r, i| {
			let v: Vec<u8> = raw.get(i).iter().map(|x| *x as u8).collect();
			refusal(r, Op::Ber, &hex(&v), &s)
		},
	);

	// an invalid value among valid ones
	let bad = invalid_values();
	let radix = [bad.len() as u64, 4, 4, 5, 2, 2];
	e.family(
		"an invalid value anywhere",
		"24 invalid values x 0..3 valid objects before x 0..3 after x depth 0..4 x sorted or not x BER or Ingenico",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (t, v) = &bad[d[0]];
			let mut b = tlv(t, v);
			for level in 0..d[3] {
				b = tlv(
					&[0xE1],
					&[
						if level == 0 { tlv(&[0x95], &[0; 5]) } else { vec![] },
						b,
						if level == 1 { tlv(&[0xC1], &[1]) } else { vec![] },
					]
					.concat(),
				);
			}
			let around = [tlv(&[0x5A], &[1]), tlv(&[0x95], &[8, 0, 0, 0, 0]), tlv(&[0xFF, 0x01], &[])];
			let set = Settings {
				sort: d[4] == 0,
				..Settings::default()
			};
			let mut objs: Vec<Vec<u8>> = around[..d[1]].to_vec();
			objs.push(b);
			objs.extend_from_slice(&around[..d[2]]);
			if d[5] == 0 {
				refusal(r, Op::Ber, &hex(&objs.concat()), &set)
			} else {
				let t: Vec<String> = objs
					.iter()
					.map(|o| {
						let n = model::parse_ber(o, &[], 0, &mut false).unwrap();
						match &n[0].val {
							model::Val::Data(d) => ingenico(&n[0].tag, d),
							model::Val::Masked => unreachable!(),
						}
					})
					.collect();
				refusal(r, Op::Ingenico, &t.join(","), &set)
			}
		},
	);
	e.family(
		"an invalid value, detected automatically",
		"24 invalid values, alone and between valid ones, in both formats, through automatic detection",
		bad.len() as u64 * 4,
		|r, i| {
			let d = digits(i, &[bad.len() as u64, 4]);
			let (t, v) = &bad[d[0]];
			let text = match d[1] {
				0 => hex(&tlv(t, v)),
				1 => hex(&[tlv(&[0x5A], &[1]), tlv(t, v), tlv(&[0x50], b"V")].concat()),
				2 => ingenico(t, v),
				_ => format!("{} {} T50:01:aV", ingenico(&[0x5A], &[1]), ingenico(t, v)),
			};
			refusal(r, Op::Auto, &text, &s)
		},
	);

	// Ingenico texts cut off
	e.family(
		"every cut of an Ingenico block",
		"every pair of palette objects in the Ingenico format, cut off at every character, explicit and automatic",
		e.pick(k, k * k) * 2,
		|r, i| {
			let d = digits(i, &[e_k(r.ctx.thorough, k), k, 2]);
			let a = split_tlv(&pal[d[0] % pal.len()].1);
			let b = split_tlv(&pal[d[1]].1);
			let t = format!("{} {}", ingenico(&b.0, &b.1), ingenico(&a.0, &a.1));
			for n in 1..=t.len() {
				refusal(r, [Op::Ingenico, Op::Auto][d[2]], &t[..n], &s)?;
			}
			Ok(())
		},
	);

	// single-value operations
	let ops = [
		Op::Tvr,
		Op::Iad,
		Op::Cvr,
		Op::Tsi,
		Op::CvmResults,
		Op::CvmList,
		Op::Identify,
	];
	let fills = [0x00u8, 0x0F, 0xA5, 0x31, 0xFF];
	let radix = [ops.len() as u64, 48, fills.len() as u64];
	e.family(
		"single values of every size",
		"7 operations x sizes 0..47 x 5 fillings",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut v = vec![fills[d[2]]; d[1]];
			if d[1] == 32 && d[2] == 2 {
				v[0] = 0x0F;
				v[16] = 0x0F;
			}
			let t = if v.is_empty() { "zz".to_owned() } else { hex(&v) };
			refusal(r, ops[d[0]], &t, &s)
		},
	);
	let q = Seqs { k: 8, lo: 1, hi: e.pick(4, 6) };
	e.family(
		"service code texts",
		"every text over 8 characters up to the bound",
		q.count(),
		|r, i| {
			let t: String = q.get(i).iter().map(|x| ['0', '1', '2', '9', ' ', 'a', '-', '.'][*x]).collect();
			if t.starts_with('-') {
				return Ok(()); // read as an option
			}
			refusal(r, Op::ServiceCode, &t, &s)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::Nested, Form::Ingenico, Form::AutoBer, Form::Skipping],
		&refusal,
	);

	// what is missing, or too much, at the end of many
	let radix = [41, 5, 7, 3, 4];
	e.family(
		"the last of many cut off",
		"0..40 objects before a last one with each form of length, cut by 1..3 bytes, or its length too high by 1, 2, 128 or exact x 3 kinds of object x depth 0..3",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let data: Vec<u8> = match d[3] {
				0 => vec![0x12; 6],
				1 => tlv(&[0xC1], &[1, 2, 3, 4]),
				_ => vec![0u8; 200],
			};
			let over = [0usize, 0, 0, 1, 2, 128, 0][d[2]];
			let Some(l) = length_bytes(data.len() + over, d[1]) else { return Ok(()) };
			let mut last = vec![[0x5A, 0xE1, 0xDF][d[3]]];
			if d[3] == 2 {
				last.push(0x20);
			}
			last.extend(l);
			last.extend(&data);
			last.truncate(last.len() - [1, 2, 3, 0, 0, 0, 0][d[2]]);
			let mut b: Vec<u8> = (0..d[0]).flat_map(|k| tlv(&[0x9F, 0x26], &[k as u8, 0x41])).collect();
			b.extend(last);
			for _ in 0..d[4] {
				b = tlv(&[0xE2], &b);
			}
			refusal(r, if i % 5 == 0 { Op::Auto } else { Op::Ber }, &hex(&b), &s)
		},
	);
	// length bytes whose upper bytes are set and whose lower ones are small
	let lb = [0x00u8, 0x01, 0x02, 0x7F, 0x80, 0xFF];
	let q = Seqs { k: 6, lo: 1, hi: 4 };
	e.family(
		"every pattern of length bytes",
		"1..4 length bytes over 6 values x 0..4 data bytes x primitive, constructed, nested, followed by another object",
		q.count() * 5 * 4,
		|r, i| {
			let d = digits(i, &[5, 4, q.count()]);
			let l: Vec<u8> = q.get(d[2] as u64).iter().map(|x| lb[*x]).collect();
			let mut b = vec![[0x5A, 0xE1, 0x5A, 0x5A][d[1]], 0x80 + l.len() as u8];
			b.extend(&l);
			b.extend(&[0xC1, 0x01, 0x00, 0x41][..d[0]]);
			match d[1] {
				2 => b = tlv(&[0xE1], &tlv(&[0x9B], &[1, 2]).into_iter().chain(b).collect::<Vec<u8>>()),
				3 => b.extend(tlv(&[0xC2], &[2])),
				_ => (),
			}
			refusal(r, Op::Ber, &hex(&b), &s)
		},
	);
	// anything of two bytes around a block
	let whole: Vec<Vec<u8>> = vec![
		[tlv(&[0x5A], &[0x47, 0x61, 0x73, 0, 0, 0, 1, 0x19]), tlv(&[0x9F, 0x36], &[0, 1]), tlv(&[0x70], &tlv(&[0xC1], &[7]))].concat(),
		tlv(&[0x77], &[tlv(&[0x9F, 0x27], &[0x80]), tlv(&[0x9F, 0x26], &[1, 2, 3, 4, 5, 6, 7, 8])].concat()),
		tlv(&[0x84], &[0xA0, 0, 0]),
	];
	let every = e.pick(1u64, whole.len() as u64);
	e.family(
		"two bytes around a block",
		"each of the 65,536 pairs of bytes behind one (three) blocks, and in front of them",
		65_536 * 2 * every,
		|r, i| {
			let d = digits(i, &[2, 65_536, every]);
			let w = (d[1] as u16).to_be_bytes();
			let b = if every == 1 { &whole[d[0]] } else { &whole[d[2]] };
			let t = if d[0] == 0 { [&b[..], &w].concat() } else { [&w[..], b].concat() };
			refusal(r, Op::Ber, &hex(&t), &s)
		},
	);
	// a run of any one byte, or of some pairs, around a block
	let pairs: Vec<[u8; 2]> = vec![
		[0x90, 0x00], [0x6A, 0x82], [0x6A, 0x83], [0x69, 0x85], [0x61, 0x10], [0x6C, 0x10], [0x0D, 0x0A], [0x00, 0xFF], [0xFF, 0x00], [0xAA, 0x55], [0x20, 0x20], [0x5A, 0x00], [0x80, 0x00],
		[0x00, 0x80], [0x03, 0x00], [0x00, 0x01],
	];
	let blocks: Vec<Vec<u8>> = vec![
		tlv(&[0x9C], &[0]),
		whole[0].clone(),
		tlv(&[0x77], &[tlv(&[0x82], &[0x39, 0]), tlv(&[0x94], &[8, 1, 1, 0, 0x10, 1, 2, 1])].concat()),
		[tlv(&[0x9A], &[0x26, 1, 2]), tlv(&[0x9C], &[0]), tlv(&[0x5F, 0x2A], &[9, 0x78]), tlv(&[0x9F, 0x02], &[0; 6]), tlv(&[0x95], &[0; 5]), tlv(&[0xC1], &[])].concat(),
	];
	let longest = e.pick(24u64, 70);
	let radix = [256 + pairs.len() as u64, longest, blocks.len() as u64, 3];
	e.family(
		"runs of one byte around a block",
		"4 blocks x 1..24 (70) times each byte, and each of 16 pairs of bytes, behind, in front and around",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let run = if d[0] < 256 { vec![d[0] as u8; d[1] + 1] } else { pairs[d[0] - 256].repeat(d[1] + 1) };
			let b = &blocks[d[2]];
			let t = match d[3] {
				0 => [&b[..], &run].concat(),
				1 => [&run[..], b].concat(),
				_ => [&run[..], b, &run].concat(),
			};
			refusal(r, Op::Ber, &hex(&t), &s)
		},
	);
	// texts that are well-formed in both formats
	let both = two_faced();
	e.family(
		"texts in both formats",
		"texts that are well-formed Ingenico blocks (with valid, invalid, masked, broken values) and whose digits form a BER-TLV block, by automatic detection and by both explicit parsers",
		both.len() as u64 * 3,
		|r, i| refusal(r, [Op::Auto, Op::Ingenico, Op::Ber][i as usize % 3], &both[i as usize / 3], &s),
	);
	// lengths of more than four bytes are refused, whatever they say
	let says: [u64; 7] = [0, 1, 2, 3, 127, 200, 300];
	let radix = [123u64, 7, 4, 2];
	e.family(
		"lengths of many bytes",
		"5..127 length bytes that say 0..300 after leading zeros or say a huge number, with as many bytes of value, alone, after an object, before another, and in a template",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = d[0] + 5;
			let mut l = vec![[0u8, 0xFF][d[3]]; n];
			for (k, b) in says[d[1]].to_be_bytes()[3..].iter().enumerate() {
				if *b != 0 || d[3] == 0 {
					l[n - 5 + k] = *b;
				}
			}
			let o = [&[0x5A, 0x80 | n as u8][..], &l, &vec![0x33; says[d[1]] as usize]].concat();
			let other = tlv(&[0x9A], &[0x24, 1, 2]);
			let b = match d[2] {
				0 => o,
				1 => [other, o].concat(),
				2 => [o, other].concat(),
				_ => tlv(&[0xE1], &o),
			};
			refusal(r, if n % 5 == 0 { Op::Auto } else { Op::Ber }, &hex(&b), &Settings::default())
		},
	);
}
/// Ingenico texts whose hex digits, taken together, are a BER-TLV block: a first field opens a BER object that
/// covers all that follows.
fn two_faced() -> Vec<String> {
	let mut tails: Vec<String> = Vec::new();
	for (t, v) in invalid_values() {
		if v.is_empty() {
			continue;
		}
		tails.push(ingenico(&t, &v));
		tails.push(format!("{} {}", ingenico(&[0x5A], &[0x12]), ingenico(&t, &v)));
		tails.push(format!("{} {}", ingenico(&t, &v), ingenico(&[0x50], b"V")));
		tails.push(format!("TE1:{:02X}:h{}", tlv(&t, &v).len(), hex(&tlv(&t, &v))));
		tails.push(format!("C{}", &ingenico(&t, &v)[1..]));
	}
	for o in palette() {
		let (t, v) = split_tlv(&o.1);
		tails.push(ingenico(&t, &v));
		// cut off, and with a digit missing
		let f = ingenico(&t, &v);
		tails.push(f[..f.len() - 1].to_owned());
		tails.push(format!("{} T5A:01:h12", &f[..f.len() - 1]));
	}
	for t in ["T5A:02:h**", "T5A:02:a**", "T5A:02:h1*", "T95:05:h**********", "T95:01:h**", "T5A:00:h", "T95:00:h", "T:5A:01", "T5A:zz:h12", "T5A:01:x12"] {
		tails.push(t.to_owned());
	}
	let mut v = Vec::new();
	for t in tails {
		for extra in ["", "0"] {
			let tail = format!("{extra}{t}");
			let tail = if extra.is_empty() { tail } else { format!("{t} C5A:01:a{extra}") };
			let n = tail.bytes().filter(u8::is_ascii_hexdigit).count();
			// S5A:LL:a<LL zeros> + separator: the digits 5A LL a 0...0 and then the n digits of the tail
			for tag in ["5A", "E1", "95"] {
				let len = n + 1;
				if len < 0x80 {
					v.push(format!("S{tag}:{len:02X}:a{} {tail}", "0".repeat(len)));
				}
			}
		}
	}
	v
}
fn e_k(thorough: bool, k: u64) -> u64 {
	if thorough {
		k
	} else {
		1
	}
}

// ---------------------------------------------------------------------------------------------------------

/// Every ordered forest with exactly n objects: internal objects labelled with each of `inner`, leaves any of
/// `leaf`.
pub fn forests(n: usize, inner: &[Vec<u8>], leaf: &[Vec<u8>]) -> Vec<Vec<u8>> {
	let mut by: Vec<Vec<Vec<u8>>> = vec![vec![vec![]]];
	for k in 1..=n {
		let mut all = Vec::new();
		// the first tree has j objects, the rest of the forest k - j
		for j in 1..=k {
			let mut firsts: Vec<Vec<u8>> = Vec::new();
			if j == 1 {
				firsts.extend(leaf.iter().cloned());
			} else {
				for f in &by[j - 1] {
					for t in inner {
						firsts.push(tlv(t, f));
					}
				}
			}
			for a in &firsts {
				for b in &by[k - j] {
					all.push([a.as_slice(), b].concat());
				}
			}
		}
		by.push(all);
	}
	by.pop().unwrap()
}

fn leaf_kinds() -> Vec<Vec<u8>> {
	vec![
		vec![0xC1, 0x01, 0x00],             // primitive
		vec![0xC2, 0x03, 0xC3, 0x01, 0x07], // primitive, contents look like TLV
		vec![0xE2, 0x00],                   // constructed, empty
		vec![0xE3, 0x02, 0xC1, 0x05],       // constructed, contents cut off
		vec![0xE4, 0x04, 0xC1, 0x01, 0x00, 0xFF], // constructed, contents well-formed only at first
		vec![0xE7, 0x05, 0xC1, 0x01, 0x00, 0xC1, 0x03], // the same, cut off in a value
		vec![0xE8, 0x04, 0xE1, 0x00, 0x9F, 0x80], // the same, cut off in a tag
		vec![0xE5, 0x02, b'*', b'*'],       // constructed, masked
		vec![0x5F, 0x24, 0x02, b'*', b'*'], // primitive, masked
	]
}

pub fn c03(e: &mut Engine) {
	let s = Settings::default();
	let leaf = leaf_kinds();
	let inner = vec![vec![0xE1], vec![0x7F, 0x21], vec![0x30]];

	for n in 1..=e.pick(4usize, 5) {
		let all = forests(n, &inner, &leaf);
		explore_objects(
			e,
			&format!("forests of {n} objects"),
			"every ordered forest, 3 constructed tags, 9 kinds of leaf, inside a constructed object",
			all.len() as u64,
			&s,
			TREE,
			Refused::Run,
			|i| tlv(&[0xEF], &all[i as usize]),
		);
		if n <= 3 {
			e.family(
				&format!("forests of {n} objects at the top level"),
				"the same forests as whole blocks, read as BER and (top level re-encoded) as Ingenico",
				all.len() as u64 * 2,
				|r, i| {
					let f = &all[i as usize / 2];
					if i % 2 == 0 {
						return single_tlv(r, Op::Ber, &hex(f), &s, TREE);
					}
					let t: Vec<String> = model::parse_ber(f, &[], 0, &mut false)
						.unwrap()
						.iter()
						.map(|n| match &n.val {
							model::Val::Data(d) => ingenico(&n.tag, d),
							model::Val::Masked => unreachable!(),
						})
						.collect();
					single_tlv(r, Op::Ingenico, &t.join(" "), &s, TREE)
				},
			);
		}
	}
	// fewer labels, more objects
	let few = vec![leaf[0].clone(), leaf[3].clone()];
	for n in e.pick(5usize, 6)..=e.pick(6, 8) {
		let all = forests(n, &inner[..1], &few);
		explore_objects(
			e,
			&format!("plain forests of {n} objects"),
			"every ordered forest, one constructed tag, 2 kinds of leaf, inside a constructed object",
			all.len() as u64,
			&s,
			TREE,
			Refused::Run,
			|i| tlv(&[0xEF], &all[i as usize]),
		);
	}

	// every first byte, every kind of contents
	let contents: Vec<Vec<u8>> = vec![
		vec![],
		vec![0x00],
		vec![0xC1, 0x00],
		vec![0xC1, 0x01, 0x00],
		vec![0xC1, 0x01],
		vec![0xC1, 0x01, 0x00, 0xC1, 0x01, 0x02],
		vec![0xC1, 0x01, 0x00, 0xC1, 0x02, 0x02],
		vec![0xE1, 0x02, 0xC1, 0x00],
		vec![0xE1, 0x02, 0xC1, 0x01],
		b"**".to_vec(),
		b"***".to_vec(),
		b"*".to_vec(),
		vec![0x9F, 0x01, 0x00],
		vec![0xC1, 0x81, 0x01, 0x55],
		vec![0xC1, 0x85, 0, 0, 0, 0, 1, 0x55],
		vec![0xC1, 0x84, 0xFF, 0xFF, 0xFF, 0xFF],
	];
	let tags = every_tag();
	let radix = [tags.len() as u64, contents.len() as u64];
	explore_objects(
		e,
		"every tag x contents",
		"every one- and two-byte tag and 576 longer ones x 16 kinds of contents",
		product(&radix),
		&s,
		TREE,
		Refused::Run,
		|i| {
			let d = digits(i, &radix);
			let (t, c) = (&tags[d[0]], &contents[d[1]]);
			tlv(t, c)
		},
	);
	e.family(
		"every tag x contents, Ingenico",
		"one- and two-byte tags x 16 kinds of contents in the Ingenico format, 64 fields to a block",
		(one_byte_tags().len() + two_byte_tags().len()).div_ceil(64) as u64 * contents.len() as u64,
		|r, i| {
			let all = [one_byte_tags(), two_byte_tags()].concat();
			let d = digits(i, &[all.len().div_ceil(64) as u64, contents.len() as u64]);
			let c = &contents[d[1]];
			let fields: Vec<String> = all[d[0] * 64..((d[0] + 1) * 64).min(all.len())]
				.iter()
				.filter(|t| model::interpret(t, c).is_ok())
				.map(|t| ingenico(t, c))
				.collect();
			if fields.is_empty() {
				return Ok(());
			}
			single_tlv(r, Op::Ingenico, &fields.join(";"), &s, TREE)
		},
	);

	let inner: Vec<Vec<u8>> = vec![
		tlv(&[0x5A], &[0x12]),
		[tlv(&[0x5A], &[0x12]), tlv(&[0x57], &[0x34])].concat().repeat(3),
		[tlv(&[0x9F, 0x26], &[1, 2, 3, 4, 5, 6, 7, 8]), tlv(&[0xE3], &tlv(&[0x50], b"VISA CREDIT")), tlv(&[0x5A], b"****")].concat(),
	];
	let radix = [65_536u64, inner.len() as u64, 2, e.pick(1, 3)];
	explore_objects(
		e,
		"two bytes around the contents",
		"each of the 65,536 pairs of bytes behind, and in front of, 3 kinds of contents of a constructed object (thorough: 1 to 3 levels down)",
		product(&radix),
		&s,
		TREE,
		Refused::Run,
		|i| {
			let d = digits(i, &radix);
			let w = (d[0] as u16).to_be_bytes();
			let b = &inner[d[1]];
			let mut o = tlv(&[0xE1], &if d[2] == 0 { [&b[..], &w].concat() } else { [&w[..], b].concat() });
			for _ in 0..d[3] {
				o = tlv(&[0x70], &[o, tlv(&[0xC2], &[1])].concat());
			}
			o
		},
	);
	let longest = e.pick(20u64, 60);
	let radix = [256u64, longest, inner.len() as u64, 3];
	explore_objects(
		e,
		"runs of one byte around the contents",
		"1..20 (60) times each byte behind, in front of and around 3 kinds of contents of a constructed object",
		product(&radix),
		&s,
		TREE,
		Refused::Run,
		|i| {
			let d = digits(i, &radix);
			let run = vec![d[0] as u8; d[1] + 1];
			let b = &inner[d[2]];
			tlv(
				&[0xE1],
				&match d[3] {
					0 => [&b[..], &run].concat(),
					1 => [&run[..], b].concat(),
					_ => [&run[..], b, &run].concat(),
				},
			)
		},
	);
	// contents given as text
	let ascii: Vec<Vec<u8>> = {
		let mut v: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), b"**".to_vec(), b"***".to_vec(), b"*".to_vec()];
		for t in [0x42u8, 0x50, 0x5A, 0x57, 0x01, 0x21, 0x61, 0x6F, 0x7D] {
			v.push(vec![t, 0x01, b'Q']);
			v.push(vec![t, 0x02, b'*', b'*']);
			v.push(vec![t, 0x03, b'B', 0x01, b'R']);
			v.push(vec![t, 0x02, b'Q']);
			v.push(vec![t, 0x01, b'Q', 0x50, 0x01, b'R', 0x62, 0x03, 0x43, 0x01, b'S']);
		}
		v.push([&[0x50, 0x20][..], b"abcdefghijklmnopqrstuvwxyz,:;. T5"].concat());
		v.push([&[0x50, 0x7F][..], &[b'k'; 127]].concat());
		v.push(vec![0x5F, 0x24, 0x01, b'1', 0x7F, 0x21, 0x03, 0x41, 0x01, b'Z']);
		v
	};
	let chunk = 16u64;
	e.family(
		"every tag x contents, Ingenico text",
		"one- and two-byte tags x 53 kinds of contents given as text (with control characters), each beside the same as hex data, 32 fields to a block",
		(tags.len() as u64).div_ceil(chunk) * ascii.len() as u64,
		|r, i| {
			let d = digits(i, &[(tags.len() as u64).div_ceil(chunk), ascii.len() as u64]);
			let c = &ascii[d[1]];
			let fields: Vec<String> = tags[d[0] * chunk as usize..((d[0] + 1) * chunk as usize).min(tags.len())]
				.iter()
				.filter(|t| t.len() < 3 && model::interpret(t, c).is_ok())
				.flat_map(|t| {
					let text = String::from_utf8(c.clone()).expect("ASCII");
					[format!("T{}:{:04X}:a{text}", hex(t), c.len()), ingenico(t, c)]
				})
				.collect();
			if fields.is_empty() {
				return Ok(());
			}
			single_tlv(r, Op::Ingenico, &fields.join(","), &s, TREE)
		},
	);
	// every string of bytes as contents
	let raw = Seqs { k: 256, lo: 0, hi: 2 };
	explore_objects(
		e,
		"every short contents",
		"every byte string of up to two bytes as the contents of a constructed object, before a sibling",
		raw.count(),
		&s,
		TREE,
		Refused::Run,
		|i| {
			let v: Vec<u8> = raw.get(i).iter().map(|x| *x as u8).collect();
			tlv(&[0xE1], &[tlv(&[0xE2], &v), tlv(&[0xC1], &[9])].concat())
		},
	);
	let sy = Seqs { k: 12, lo: 0, hi: e.pick(4, 6) };
	explore_objects(
		e,
		"reduced contents",
		"every string over 12 significant bytes as the contents of a constructed object",
		sy.count(),
		&s,
		TREE,
		Refused::Run,
		|i| tlv(&[0xE1], &symbols(&sy.get(i))),
	);

	// deep nesting
	e.family(
		"chains",
		"nesting 1..100 deep; intact, or broken, empty or masked at each depth; with siblings before and after at every level",
		100 * 4 * 3,
		|r, i| {
			let d = digits(i, &[100, 4, 3]);
			let mut b = match d[1] {
				0 => vec![0xC1, 0x01, 0x00],
				1 => vec![0xC1, 0x02, 0x00],
				2 => vec![],
				_ => b"****".to_vec(),
			};
			for _ in 0..=d[0] {
				b = tlv(&[0xE1], &b);
				match d[2] {
					1 => b = [tlv(&[0xC5], &[5]), b].concat(),
					2 => b.extend(tlv(&[0xF5], &[0xC6, 0x00])),
					_ => (),
				}
			}
			single_tlv(r, Op::Ber, &hex(&b), &s, TREE)
		},
	);
	e.family(
		"a break at each depth",
		"a constructed object with broken contents beside the chain at depth i of a chain of depth n, every i <= n <= bound",
		e.pick(30u64, 90) * e.pick(30, 90),
		|r, i| {
			let m = if r.ctx.thorough { 90 } else { 30 };
			let (n, at) = ((i / m + 1) as usize, (i % m) as usize);
			if at >= n {
				return Ok(());
			}
			let mut b = vec![0xC1, 0x00];
			for level in (0..n).rev() {
				if level == at {
					b = [tlv(&[0xE7], &[0xC1, 0x7F, 0x00]), b, tlv(&[0xE8], &[0x1F])].concat();
				}
				b = tlv(&[0xE1], &b);
			}
			single_tlv(r, Op::Ber, &hex(&b), &s, TREE)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::Nested, Form::Nested2, Form::Ingenico],
		&|r, op, t, s| accepted(r, op, t, s, TREE),
	);
	// masked contents have no children, whatever the masks and however deep
	let masks: [&[char]; 6] = [&['*'], &['*', '+'], &['+', '*'], &['0', '*', 'X'], &['\u{1}', '\u{2}', '*'], &['Z', '!', '#', '*', '%']];
	let radix = [masks.len() as u64, 5, 20, 3, 4];
	e.family(
		"masked contents at every depth",
		"templates with 2, 3, 4, 16 and 200 masking characters at depths 0..19, alone, before and after other objects, under 6 lists of masking characters, 4 constructed tags",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let tag: &[u8] = [&[0x70u8][..], &[0xE1], &[0x3F, 0x01], &[0xBF, 0x0C]][d[4]];
			let o = tlv(tag, &vec![b'*'; [2, 3, 4, 16, 200][d[1]]]);
			let other = tlv(&[0x5A], &[0x11]);
			let mut b = [o.clone(), [other.clone(), o.clone()].concat(), [o, other].concat()][d[3]].clone();
			for _ in 0..d[2] {
				b = tlv(&[0xE2], &b);
			}
			let s = Settings {
				masks: masks[d[0]].to_vec(),
				sort: i % 2 == 0,
			};
			single_tlv(r, Op::Ber, &hex(&b), &s, Proj { masked: true, ..TREE })
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

const FIELDS: Proj = Proj {
	order: true,
	size: true,
	value: true,
	name: false,
	masked: false,
	parsed: false,
	kids: false,
	dump: false,
};

fn field_spellings() -> Vec<String> {
	let mut v = Vec::new();
	let data: [(&str, usize, &str); 8] = [
		("a", 0, ""),
		("h", 0, ""),
		("a", 1, "x"),
		("h", 1, "4b"),
		("a", 3, "T:h"),
		("h", 3, "aBcDeF"),
		("a", 17, "0123456789abcdef "),
		("h", 2, "0000"),
	];
	for kind in ["T", "C", "t", ":", " "] {
		for tag in ["5A", "005A", "0000005a", "9F26", "009f26", "DF8101", "00", "0000"] {
			for (f, n, d) in &data {
				for len in [
					format!("{n:02X}"),
					format!("{n:04x}"),
					format!("{n:08X}"),
					format!("{n:010X}"),
					format!("{n:018X}"),
				] {
					v.push(format!("{kind}{tag}:{len}:{f}{d}"));
				}
			}
		}
	}
	v
}

pub fn c04(e: &mut Engine) {
	let s = Settings {
		sort: false,
		..Settings::default()
	};
	let fields = field_spellings();
	e.family(
		"single fields",
		"5 field types x 8 tag spellings x 5 length spellings x 8 data, alone and followed by one stray character",
		fields.len() as u64 * 2,
		|r, i| {
			let f = &fields[i as usize / 2];
			let t = if i % 2 == 0 { f.clone() } else { format!("{f}#") };
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);

	// all pairs: one block holds a field and all its possible successors
	let seps = ['\n', ' ', ',', 'T', ':', '0', 'a'];
	let small: Vec<String> = fields
		.iter()
		.enumerate()
		.filter(|(i, _)| e.thorough() || i % 5 < 2)
		.map(|(_, f)| f.clone())
		.collect();
	let n = small.len() as u64;
	e.family(
		"field pairs",
		"every ordered pair of those fields x 7 separators (each block holds one field before each of 64 others)",
		n * n.div_ceil(64) * if e.thorough() { 7 } else { 1 },
		|r, i| {
			let chunks = n.div_ceil(64);
			let d = digits(i, &[n, chunks, if r.ctx.thorough { 7 } else { 1 }]);
			let sep = if r.ctx.thorough { seps[d[2]] } else { seps[(d[0] + d[1]) % 7] };
			let a = &small[d[0]];
			let pairs: Vec<&String> = small[d[1] * 64..((d[1] + 1) * 64).min(small.len())].iter().collect();
			let mk = |v: &[&String]| {
				let t: Vec<String> = v.iter().map(|b| format!("{a}{sep}{b}")).collect();
				settings_args(op_case(Op::Ingenico, &t.join(&sep.to_string())), &s)
			};
			for p in &pairs {
				r.item(&(sep, a, p));
			}
			r.sample(|| mk(&pairs[..1]).shell("pemv"));
			r.pack(&pairs, &mk, &|v, o| {
				let c = mk(v);
				let exp = expect(Op::Ingenico, &c.args[1], &s);
				judge_tlv(Op::Ingenico, &exp, o, FIELDS)
			})
		},
	);

	// what stands between fields
	let mut between: Vec<char> = (1u8..128).map(|c| c as char).collect();
	between.extend(['\u{a0}', '\u{feff}', '€']);
	let nb = between.len() as u64;
	e.family(
		"one or two characters between fields",
		"every pair of ASCII characters (and 3 others) between a field and the next, shown or skipped: only where the second is a type of field and a tag follows does it go on; every single one; a field of each format before",
		nb * nb,
		|r, i| {
			let d = digits(i, &[nb, nb]);
			let (a, b) = (between[d[0]], between[d[1]]);
			let first = ["T50:01:aX", "T57:02:hAb0c", "C5A:01:hFF"][(d[0] + d[1]) % 3];
			single_tlv(r, Op::Ingenico, &format!("{first}{a}{b}T5A:01:h12"), &s, FIELDS)?;
			single_tlv(r, Op::Ingenico, &format!("{first}{a}{b}5A:01:h12{a}T9F02:01:a*"), &s, FIELDS)?;
			if d[1] == 0 {
				single_tlv(r, Op::Ingenico, &format!("{first}{a}T5A:01:h12{a}C82:00:a{a}T9A:01:aq"), &s, FIELDS)?;
				single_tlv(r, Op::Ingenico, &format!("{first}{a}"), &s, FIELDS)?;
				if a != '-' {
					single_tlv(r, Op::Ingenico, &format!("{a}{first}"), &s, FIELDS)?;
				}
			}
			if d[0] == d[1] || d[0] + 3 == d[1] || d[0] == d[1] + 3 {
				if a != '-' {
					single_tlv(r, Op::Ingenico, &format!("{a}{b}{first}"), &s, FIELDS)?;
				}
				single_tlv(r, Op::Ingenico, &format!("{first}{a}{b}"), &s, FIELDS)?;
			}
			Ok(())
		},
	);
	// what a field is of
	let tags = ["5A", "9F26", "DF8101", "DF818283", "0000009F26", "DF8182838405", "00", "E1"];
	let radix = [128u64, tags.len() as u64, 6, 2];
	e.family(
		"every type of field",
		"every ASCII character as the type of a field x 8 tags x 3 places among fields that are shown, or skipped, x hex and text data",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let c = char::from(d[0] as u8);
			if c == '\0' || (c == '-' && d[2] % 3 == 0) {
				return Ok(());
			}
			let f = format!("{c}{}:{}", tags[d[1]], ["02:h1234", "03:aT5:"][d[3]]);
			let o = ["T57:01:h12", "C57:01:h12"][d[2] / 3];
			let t = match d[2] % 3 {
				0 => format!("{f} {o}"),
				1 => format!("{o} {f}"),
				_ => format!("{o} {f} T9A:01:aq"),
			};
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);
	// lengths
	let lens: Vec<u64> = (0..=e.pick(300u64, 2000)).collect();
	e.family(
		"every length",
		"every data length up to the bound, both data formats, 4 length spellings, followed by another field",
		lens.len() as u64 * 2 * 4,
		|r, i| {
			let d = digits(i, &[lens.len() as u64, 2, 4]);
			let n = lens[d[0]];
			let l = match d[2] {
				0 => format!("{n:04X}"),
				1 => format!("{n:06x}"),
				2 => format!("{n:08X}"),
				_ => format!("{n:012X}"),
			};
			let data: String = (0..n)
				.map(|k| {
					if d[1] == 0 {
						((b'!' + (k % 90) as u8) as char).to_string()
					} else {
						format!("{:02X}", (k * 7 + 1) as u8)
					}
				})
				.collect();
			let t = format!("TC1:{l}:{}{data} TC2:01:hAA", ["a", "h"][d[1]]);
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);
	let big = [
		"7FFFFFFF", "80000000", "80000001", "FFFFFFFF", "FFFFFFFE", "0100000000", "FFFFFFFFFF", "00FFFFFFFF",
		"010000000000000000", "10000", "010000", "0000000000000000000001", "7F", "80", "FF",
	];
	e.family(
		"length boundaries",
		"15 stated lengths near the type boundaries x format x 0..4 data characters x shown or skipped field",
		big.len() as u64 * 2 * 5 * 2,
		|r, i| {
			let d = digits(i, &[big.len() as u64, 2, 5, 2]);
			let t = format!("{}5A:{}:{}{}", ["T", "C"][d[3]], big[d[0]], ["a", "h"][d[1]], &"0A0B"[..d[2]]);
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);
	e.family(
		"large data",
		"65,535..131,000 data characters",
		6,
		|r, i| {
			let n = [65535usize, 65536, 65537, 70000, 100_000, 130_900][i as usize];
			let t = format!("TC1:{n:06X}:a{}", "k".repeat(n));
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);

	let zeros = e.pick(300u64, 3000);
	e.family(
		"leading zero bytes",
		"tags and lengths with every number of leading zero bytes up to the bound, one or the other or both; every pair up to 40",
		(zeros + 1) * 3 + 41 * 41,
		|r, i| {
			let (a, b) = if i < (zeros + 1) * 3 {
				let n = (i / 3) as usize;
				[(n, 0), (0, n), (n, n)][i as usize % 3]
			} else {
				let k = (i - (zeros + 1) * 3) as usize;
				(k / 41, k % 41)
			};
			let (za, zb) = ("00".repeat(a), "00".repeat(b));
			let t = format!("T{za}9F4B:{zb}02:hABCD T{za}00:{zb}00:a,C{za}5A:{zb}01:h12,T{za}C1:{zb}0003:axyz");
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);

	// edits of valid texts
	let base = [
		"T5A:02:h1234",
		"C9F26:03:aabc T005A:0001:aZ",
		"T50:00:h,T57:02:hAb0c,",
		"TDF8101:04:h00112233:T82:00000000001:a1",
		"T9F34:03:h420302XC5A:01:h00",
		"TE1:04:hC1020102 T5A:04:a****",
	];
	let chars: Vec<char> = (1u8..128).map(|c| c as char).chain(['é', '\u{80}', '€', '🂡']).collect();
	e.family(
		"every edit of a text",
		"6 valid texts: every truncation, deletion, duplication, and replacement and insertion of each of 131 characters at each place",
		base.iter().map(|b| b.len() as u64 + 1).sum(),
		|r, mut i| {
			let mut b = "";
			for x in base {
				if i <= x.len() as u64 {
					b = x;
					break;
				}
				i -= x.len() as u64 + 1;
			}
			let at = i as usize;
			let (h, t) = b.split_at(at);
			let run = |r: &mut crate::engine::Runner, t: String| -> Result<(), Bad> {
				if t.is_empty() || t.starts_with('-') {
					return Ok(());
				}
				single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
			};
			run(r, h.to_owned())?;
			run(r, t.to_owned())?;
			if !t.is_empty() {
				run(r, format!("{h}{}", &t[1..]))?;
				run(r, format!("{h}{}{t}", &t[..1]))?;
			}
			for c in &chars {
				run(r, format!("{h}{c}{t}"))?;
				if !t.is_empty() {
					run(r, format!("{h}{c}{}", &t[1..]))?;
				}
			}
			Ok(())
		},
	);

	// token strings
	let tokens = ["T", "5A", ":", "01", "00", "a", "h", "*"];
	let q = Seqs { k: 8, lo: 1, hi: e.pick(5, 6) };
	e.family(
		"token strings",
		"every sequence over the tokens T 5A : 01 00 a h *",
		q.count(),
		|r, i| {
			let t: String = q.get(i).iter().map(|x| tokens[*x]).collect();
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);
	e.family(
		"token strings after a field",
		"every sequence of up to 4 (5) tokens behind `T50:01:aX ` and behind `C50:01:aX:`",
		Seqs { k: 8, lo: 0, hi: e.pick(4, 5) }.count() * 2,
		|r, i| {
			let q = Seqs { k: 8, lo: 0, hi: if r.ctx.thorough { 5 } else { 4 } };
			let t: String = q.get(i / 2).iter().map(|x| tokens[*x]).collect();
			let t = format!("{}{t}", ["T50:01:aX ", "C50:01:aX:"][i as usize % 2]);
			single_tlv(r, Op::Ingenico, &t, &s, FIELDS)
		},
	);
	let tail = Seqs { k: 8, lo: 1, hi: e.pick(4, 6) };
	e.family(
		"token strings after a tag",
		"every sequence over 8 tokens behind `T5A:`",
		tail.count(),
		|r, i| {
			let toks = ["00", "01", "0", ":", "a", "h", "A", "T"];
			let t: String = tail.get(i).iter().map(|x| toks[*x]).collect();
			single_tlv(r, Op::Ingenico, &format!("T5A:{t}"), &s, FIELDS)
		},
	);
	// every byte value, both cases
	e.family(
		"every data byte",
		"every byte value as hex data in 4 case combinations; every ASCII character as text data",
		256,
		|r, i| {
			let b = i as u8;
			let (u, l) = (format!("{b:02X}"), format!("{b:02x}"));
			let mix = [u.clone(), l.clone(), format!("{}{}", &u[..1], &l[1..]), format!("{}{}", &l[..1], &u[1..])];
			let mut t: Vec<String> = mix.iter().map(|h| format!("TC1:01:h{h}")).collect();
			if (1..128).contains(&b) {
				t.push(format!("TC2:01:a{}", b as char));
			}
			single_tlv(r, Op::Ingenico, &t.join(" "), &s, FIELDS)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ingenico, Form::Skipping, Form::IngenicoText],
		&|r, op, t, s| {
			if op != Op::Ingenico {
				return Ok(());
			}
			accepted(r, op, t, s, FIELDS)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

/// Automatic detection against the explicit parser it must agree with.
fn detection(r: &mut crate::engine::Runner, t: &str, set: &Settings) -> Result<(), Bad> {
	let mut amb = false;
	let is_ing = model::parse_ingenico(t.as_bytes(), &set.masks, &mut amb).is_ok();
	let b = model::lenient_hex(t.as_bytes());
	let is_ber = !is_ing && model::parse_ber(&b, &set.masks, 0, &mut amb).is_ok_and(|n| !n.is_empty());
	if amb {
		return Ok(());
	}
	let ca = settings_args(op_case(Op::Auto, t), set);
	let oa = r.run(&ca);
	r.item(&(t, &set.masks, set.sort));
	let bad = |want: String, m: &str| Err(Bad::new(&ca, &oa, want, m));
	if !is_ing && !is_ber {
		return if !oa.out.is_empty() || !one_line(&oa.err) || !oa.err_str().contains("unrecognised") {
			bad(model::Diag::Unrecognised.text(), "text in neither format must be reported as unrecognised")
		} else {
			Ok(())
		};
	}
	let op = if is_ing { Op::Ingenico } else { Op::Ber };
	let oe = r.run(&settings_args(op_case(op, t), set));
	r.sample(|| ca.shell("pemv"));
	let want = if oe.out.is_empty() && !oe.err.is_empty() {
		String::new()
	} else {
		format!("TLV Format: {}\n\n{}", if is_ing { "Ingenico" } else { "BER-TLV" }, oe.out_str())
	};
	if oa.out != want.as_bytes() || oa.err != oe.err || oa.status != oe.status {
		return bad(
			format!("{want}(stderr) {}", oe.err_str()),
			"detection must show what the explicit parser shows",
		);
	}
	Ok(())
}

pub fn c05(e: &mut Engine) {
	let pal = palette();
	let k = pal.len() as u64;
	let mut texts: Vec<String> = Vec::new();
	// BER
	let q = Seqs { k, lo: 1, hi: e.pick(2, 3) };
	for i in 0..q.count() {
		texts.push(hex(&palette_bytes(&q.get(i), &pal)));
	}
	let q = Seqs { k: 12, lo: 1, hi: e.pick(3, 4) };
	for i in 0..q.count() {
		texts.push(hex(&symbols(&q.get(i))));
	}
	// Ingenico
	let q = Seqs { k, lo: 1, hi: 2 };
	for i in 0..q.count() {
		let f: Vec<String> = q
			.get(i)
			.iter()
			.map(|x| {
				let (t, v) = split_tlv(&pal[*x].1);
				ingenico(&t, &v)
			})
			.collect();
		texts.push(f.join(" "));
	}
	let tokens = ["T", "5A", ":", "01", "00", "a", "h", "*"];
	let q = Seqs { k: 8, lo: 1, hi: e.pick(4, 5) };
	for i in 0..q.count() {
		texts.push(q.get(i).iter().map(|x| tokens[*x]).collect());
	}
	// texts that could be taken for either
	for ing in ["T5A:01:h12", "C5A:01:h12", "T5A:01:a1", "T9F10:02:hAB", "T95:05:h8000008000", "T95:01:h80", "T:5A01:12", "T5A:03:h11"] {
		for ber in ["", "5A0112", "9F1002ABCD", "9501", "95058000008000", " ", "zz", "é", "0"] {
			for t in [format!("{ing}{ber}"), format!("{ber}{ing}"), format!("{ing} {ber}"), format!("{ber} {ing}")] {
				if !t.is_empty() && !t.starts_with('-') {
					texts.push(t);
				}
			}
		}
	}
	for t in ["zz", " ", "é", "0", "g", ":", "T", "TT", "00", "0000", "000000", "5A", "5A00", "5A0", "5 A 0 0"] {
		texts.push(t.to_owned());
	}
	texts.extend(two_faced());
	let settings = [
		Settings { masks: vec!['*'], sort: true },
		Settings { masks: vec!['*'], sort: false },
		Settings { masks: vec!['X'], sort: true },
		Settings { masks: vec!['X', '1', '*'], sort: false },
		Settings { masks: vec!['\u{11}', '0'], sort: true },
	];
	let ns = e.pick(2u64, settings.len() as u64);
	e.family(
		"detection against the explicit parsers",
		"palette sequences in both formats, byte strings, token strings and hybrids x settings: automatic detection against the explicit parser it must agree with",
		texts.len() as u64 * ns,
		|r, i| {
			let t = &texts[(i / ns) as usize];
			let set = &settings[if ns == 2 { [0, 3][(i % 2) as usize] } else { (i % ns) as usize }];
			detection(r, t, set)
		},
	);

	let q = Seqs { k, lo: 1, hi: e.pick(2, 3) };
	e.family(
		"either format, same breakdown",
		"every sequence of unmasked palette objects up to the bound, written as BER-TLV and as Ingenico (hex data, and text data where the value is ASCII)",
		q.count() * 2,
		|r, i| {
			let objs: Vec<(Vec<u8>, Vec<u8>)> = q.get(i / 2).iter().map(|x| split_tlv(&pal[*x].1)).collect();
			if objs.iter().any(|(_, v)| model::masked_bytes(v, &['*'])) {
				return Ok(());
			}
			let ber: Vec<u8> = objs.iter().flat_map(|(t, v)| tlv(t, v)).collect();
			let ing: Vec<String> = objs
				.iter()
				.map(|(t, v)| {
					if i % 2 == 1 && v.is_ascii() && !v.contains(&0) {
						format!("T{}:{:02X}:a{}", hex(t), v.len(), String::from_utf8_lossy(v))
					} else {
						ingenico(t, v)
					}
				})
				.collect();
			let cb = op_case(Op::Ber, &hex(&ber));
			let ci = op_case(Op::Ingenico, &ing.join(" "));
			let (ob, oi) = (r.run(&cb), r.run(&ci));
			r.item(&ci.args);
			model::step();
			if ob.out != oi.out || ob.err != oi.err {
				return Err(Bad::new(&ci, &oi, ob.out_str() + &ob.err_str(), "the two formats differ"));
			}
			Ok(())
		},
	);
	let tags: Vec<Vec<u8>> = every_tag().into_iter().filter(|t| t[0] != 0).collect();
	e.family(
		"either format, every tag",
		"every one- and two-byte tag and 576 longer ones with a valid value, in blocks of 32, in both formats",
		tags.len().div_ceil(32) as u64,
		|r, i| {
			let part = &tags[i as usize * 32..((i as usize + 1) * 32).min(tags.len())];
			let objs: Vec<(Vec<u8>, Vec<u8>)> = part.iter().map(|t| split_tlv(&encode(t, 7, 0))).collect();
			let mk = |v: &[(Vec<u8>, Vec<u8>)], ing: bool| {
				if ing {
					let f: Vec<String> = v.iter().map(|(t, v)| ingenico(t, v)).collect();
					op_case(Op::Ingenico, &f.join(","))
				} else {
					op_case(Op::Ber, &hex(&v.iter().flat_map(|(t, v)| tlv(t, v)).collect::<Vec<u8>>()))
				}
			};
			let ob = r.run(&mk(&objs, false));
			let ci = mk(&objs, true);
			let oi = r.run(&ci);
			for o in &objs {
				r.item(o);
				model::step();
			}
			if ob.out != oi.out || ob.err != oi.err {
				return Err(Bad::new(&ci, &oi, ob.out_str() + &ob.err_str(), "the two formats differ"));
			}
			Ok(())
		},
	);
	// texts of every size
	let sizes: Vec<usize> = {
		let mut v: Vec<usize> = vec![];
		for k in [8, 9, 10, 11, 12, 13, 14, 15, 16] {
			v.extend([(1usize << k) - 40, 1 << k, (1 << k) + 40]);
		}
		v.extend([1000, 10_000, 50_000, 100_000, 130_000]);
		v
	};
	let radix = [sizes.len() as u64, 12, 2];
	e.family(
		"texts of every size",
		"blocks of 216..130,000 characters, at and around every power of two, in both formats (many objects, one long one, nested, text data, skipped fields) x whole, with the last character missing, with a stray letter in the middle x sorted or not",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = sizes[d[0]];
			let t = match d[1] % 6 {
				0 => (0..n / 14).map(|k| format!("5A04{:08X}", k * 7919 % 99991)).collect::<String>(),
				1 => hex(&tlv(&[0xDF, 0x01], &vec![0x41; (n / 2).saturating_sub(6)])),
				2 => hex(&tlv(
					&[0xE1],
					&(0..n / 14).flat_map(|k| tlv(&[0xC1], &(k as u32).to_be_bytes())).collect::<Vec<u8>>(),
				)),
				3 => (0..n / 18).map(|k| format!("T5A:04:h{:08X} ", k * 7919 % 99991)).collect::<String>().trim_end().to_owned(),
				4 => format!("T5A:{:06X}:a{}", n - 12, "x".repeat(n - 12)),
				_ => (0..n / 13).map(|k| format!("{}50:02:a{}{} ", ["T", "D"][k % 2], k % 10, k / 10 % 10)).collect::<String>().trim_end().to_owned(),
			};
			let mut t = t;
			match d[1] / 6 {
				0 => (),
				_ => {
					t.pop();
				}
			}
			detection(r, &t, [&settings[0], &settings[1]][d[2]])
		},
	);
	e.family(
		"long texts with a stray character",
		"the sizes above x 4 texts x a character of no format put in at the beginning, in the middle or at the end",
		sizes.len() as u64 * 4 * 3 * 2,
		|r, i| {
			let d = digits(i, &[sizes.len() as u64, 4, 3, 2]);
			let unit = ["5A0112", "T5A:01:h12", "T5A:02:a12,", "D5A:01:h12 "][d[1]];
			let mut t = unit.repeat(sizes[d[0]] / unit.len());
			let at = [0, t.len() / 2, t.len()][d[2]];
			t.insert_str(at, ["g", "é"][d[3]]);
			detection(r, &t, &settings[0])
		},
	);
	broad::surroundings_of(e, &[Form::AutoBer, Form::AutoIngenico, Form::Skipping], true, &|r, f, objs| {
		let (_, t, s) = broad::input(f, objs);
		detection(r, &t, &s)?;
		if f != Form::AutoBer {
			return Ok(());
		}
		// the same objects in the other format
		if objs.iter().any(|o| o[0] == 0) || objs.iter().any(|o| o.ends_with(b"**")) {
			return Ok(());
		}
		let (cb, ci) = (
			op_case(Op::Ber, &hex(&objs.concat())),
			op_case(Op::Ingenico, &broad::input(Form::Ingenico, objs).1),
		);
		let (ob, oi) = (r.run(&cb), r.run(&ci));
		model::step();
		if ob.out != oi.out || ob.err != oi.err {
			return Err(Bad::new(&ci, &oi, ob.out_str() + &ob.err_str(), "the two formats differ"));
		}
		Ok(())
	});
}

// ---------------------------------------------------------------------------------------------------------

const MASKING: Proj = Proj {
	order: false,
	size: false,
	value: false,
	name: true,
	masked: true,
	parsed: false,
	kids: true,
	dump: false,
};

/// C06 sees whether each object is masked; objects that are not are shown with value and breakdown.
fn judge_masking(op: Op, exp: &model::Expect, o: &Outcome) -> Result<(), String> {
	judge_tlv(
		op,
		exp,
		o,
		Proj {
			value: true,
			..MASKING
		},
	)
}

pub fn c06(e: &mut Engine) {
	let masks: [Vec<char>; 8] = [
		vec!['*'],
		vec!['X'],
		vec!['*', 'X'],
		vec!['0'],
		vec!['A', 'F'],
		vec!['X', '*', '#'],
		vec!['*', '*'],
		vec!['a', '1'],
	];
	let symbols: [u8; 8] = [b'*', b'X', b'0', b'A', b'a', b'#', 0x11, 0x00];
	let max = e.pick(3, 5);
	let q = Seqs { k: 8, lo: 0, hi: max };
	// tags: plain, parsed on any two bytes, constructed, unrecognised kinds, unknown
	let tags: Vec<Vec<u8>> = vec![
		vec![0x5A],
		vec![0x9F, 0x10],
		vec![0xE1],
		vec![0xDF, 0x01],
		vec![0x9B],
		vec![0x8A],
		vec![0x95],
		vec![0x7F, 0x21],
	];
	let per_mask = q.count() * tags.len() as u64;
	for m in &masks {
		let set = Settings {
			masks: m.clone(),
			sort: true,
		};
		explore_objects(
			e,
			&format!("values under masks {m:?}, BER"),
			"every value up to the bound over 8 masking and other bytes x 8 kinds of tag",
			per_mask,
			&set,
			Proj { value: true, ..MASKING },
			Refused::Run,
			|i| {
				let d = digits(i, &[tags.len() as u64, q.count()]);
				let v: Vec<u8> = q.get(d[1] as u64).iter().map(|x| symbols[*x]).collect();
				tlv(&tags[d[0]], &v)
			},
		);
	}
	// nested: the same values as children
	let q2 = Seqs { k: 6, lo: 0, hi: e.pick(3, 4) };
	explore_objects(
		e,
		"nested values, BER",
		"every value up to the bound over 6 bytes, inside one and two constructed objects x 4 tags",
		q2.count() * 4 * 2,
		&Settings {
			masks: vec!['*', 'X'],
			sort: true,
		},
		Proj { value: true, ..MASKING },
		Refused::Run,
		|i| {
			let d = digits(i, &[4, 2, q2.count()]);
			let v: Vec<u8> = q2.get(d[2] as u64).iter().map(|x| symbols[*x]).collect();
			let inner = tlv(&tags[d[0]], &v);
			let mid = tlv(&[0xE2], &[inner, tlv(&[0xC1], b"**")].concat());
			if d[1] == 0 {
				mid
			} else {
				tlv(&[0xE3], &mid)
			}
		},
	);
	// long values: all masking, and one odd byte at each position
	explore_objects(
		e,
		"long values",
		"lengths 2..70 and 127..130 of one masking byte, with one odd byte (another masking one, or not) at each position or none, under several tags",
		{
			let n: u64 = (2..=70u64).chain(127..=130).map(|n| (n + 1) * 2 * 3).sum();
			n
		},
		&Settings {
			masks: vec!['*', 'X'],
			sort: true,
		},
		Proj { value: true, ..MASKING },
		Refused::Run,
		|mut i| {
			for n in (2..=70u64).chain(127..=130) {
				let c = (n + 1) * 2 * 3;
				if i >= c {
					i -= c;
					continue;
				}
				let d = digits(i, &[n + 1, 2, 3]);
				let mut v = vec![b'*'; n as usize];
				if d[0] < n as usize {
					v[d[0]] = [b'X', b'+'][d[1]];
				}
				return tlv(&tags[d[2]], &v);
			}
			unreachable!()
		},
	);
	// masking characters with any other byte before, behind, around and among them
	let longest = e.pick(24u64, 64);
	let radix = [256u64, longest, 3, 5];
	explore_objects(
		e,
		"masking characters with other bytes",
		"1..24 (64) masking characters with one to three times each byte before, behind, around, in the middle, or in turn with them, under several tags",
		product(&radix),
		&Settings {
			masks: vec!['*', 'X'],
			sort: true,
		},
		Proj { value: true, ..MASKING },
		Refused::Run,
		|i| {
			let d = digits(i, &radix);
			let other = vec![d[0] as u8; d[2] + 1];
			let run = vec![b'*'; d[1] + 1];
			let (a, z) = run.split_at(run.len() / 2);
			let v = match d[4 - 1] {
				0 => [&other[..], &run].concat(),
				1 => [&run[..], &other].concat(),
				2 => [&other[..], &run, &other].concat(),
				3 => [a, &other, z].concat(),
				_ => run.iter().flat_map(|m| [&[*m][..], &other].concat()).collect(),
			};
			tlv(&tags[(d[0] + d[1]) % 3], &v)
		},
	);
	// every tag, masked
	let all = every_tag();
	explore_objects(
		e,
		"every tag masked",
		"every one- and two-byte tag and 576 longer ones with masked values of 2, 3, 5 and 32 characters",
		all.len() as u64 * 4,
		&Settings::default(),
		Proj { value: true, ..MASKING },
		Refused::Run,
		|i| tlv(&all[i as usize / 4], &vec![b'*'; [2, 3, 5, 32][i as usize % 4]]),
	);
	// every ASCII masking character against every byte pair of the same or neighbouring value
	e.family(
		"every masking character",
		"each printable ASCII character as the mask: pairs of every byte with itself, and of the mask with every byte",
		95,
		|r, i| {
			let m = (0x20 + i as u8) as char;
			let set = Settings { masks: vec![m], sort: true };
			let mut items = Vec::new();
			for b in 0..=255u8 {
				items.push(tlv(&[0xC1], &[b, b]));
				items.push(tlv(&[0xC1], &[m as u8, b]));
				items.push(tlv(&[0xC1], &[b, m as u8]));
			}
			pack_ber(r, &items, &set, Proj { value: true, ..MASKING })
		},
	);
	// every character against every masking character, at many lengths; and values that only nearly are masked
	let top = e.pick(40usize, 130);
	e.family(
		"runs of every character under every masking character",
		"every printable ASCII character as the mask x every printable character repeated 1..40 (130) times, and the mask with one neighbour or other case of it first, in the middle and last, in both formats",
		95 * 8 * 2,
		|r, i| {
			let d = digits(i, &[95, 8, 2]);
			let m = 0x20 + d[0] as u8;
			let set = Settings { masks: vec![m as char], sort: true };
			let mut values: Vec<Vec<u8>> = Vec::new();
			for n in (1..=top).filter(|n| n % 8 == d[1]) {
				for c in 0x20..0x7Fu8 {
					values.push(vec![c; n]);
				}
				for odd in [m ^ 0x20, m.wrapping_add(1), m.wrapping_sub(1), m | 0x80, m ^ 0x10] {
					for at in [0, n / 2, n - 1] {
						let mut v = vec![m; n];
						v[at] = odd;
						values.push(v);
					}
				}
			}
			if d[2] == 0 {
				for part in values.chunks(500) {
					let items: Vec<Vec<u8>> = part.iter().map(|v| tlv(&[0xC1], v)).collect();
					pack_ber(r, &items, &set, Proj { value: true, ..MASKING })?;
				}
				return Ok(());
			}
			values.retain(|v| v.is_ascii() && v.iter().all(|b| *b >= 0x20));
			for v in &values {
				r.item(&(m, v));
			}
			for part in values.chunks(500) {
				let text = |v: &[Vec<u8>]| -> String {
					v.iter().map(|x| format!("TC1:{:02X}:a{} ", x.len(), String::from_utf8_lossy(x))).collect()
				};
				let mk = |v: &[Vec<u8>]| settings_args(op_case(Op::Ingenico, &text(v)), &set);
				let judge = |v: &[Vec<u8>], o: &crate::server::Outcome| {
					judge_masking(Op::Ingenico, &expect(Op::Ingenico, text(v).as_bytes(), &set), o)
				};
				r.pack(part, &mk, &judge)?;
			}
			Ok(())
		},
	);
	// long values in either format, and as children
	let sizes: Vec<usize> = (2..=40).chain([63, 64, 65, 100]).chain(120..=260).chain([300, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 30000]).collect();
	let radix = [sizes.len() as u64, 4, 7];
	e.family(
		"masked values of every size",
		"200 sizes up to 30,000 characters x all masking, another character first, in the middle or last x BER primitive, constructed, nested; Ingenico text, hex, behind a skipped field, detected automatically",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let n = sizes[d[0]];
			let mut v = vec![b'*'; n];
			match d[1] {
				1 => v[0] = b'+',
				2 => v[n / 2] = b'+',
				3 => v[n - 1] = b'+',
				_ => (),
			}
			let set = Settings::default();
			let text: String = v.iter().map(|b| *b as char).collect();
			let size = if n < 256 { format!("{n:02X}") } else { format!("{n:04X}") };
			let (op, t) = match d[2] {
				0 => (Op::Ber, hex(&tlv(&[0x5A], &v))),
				1 => (Op::Ber, hex(&tlv(&[0xE1], &v))),
				2 => (Op::Ber, hex(&tlv(&[0xE2], &[tlv(&[0x57], &v), tlv(&[0xC1], &[1])].concat()))),
				3 => (Op::Ingenico, format!("T5A:{size}:a{text}")),
				4 => (Op::Ingenico, format!("T57:{size}:h{}", if d[1] == 0 { "**".repeat(n) } else { hex(&v) })),
				5 => (Op::Ingenico, format!("D5A:{size}:a{text} TE1:{size}:a{text}")),
				_ => (Op::Auto, format!("T9F1F:{size}:a{text}")),
			};
			if t.len() > 120_000 {
				return Ok(());
			}
			let exp = expect(op, t.as_bytes(), &set);
			let c = settings_args(op_case(op, &t), &set);
			let o = r.run(&c);
			r.item(&(n, d[1], d[2]));
			judge_masking(op, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
		},
	);
	// Ingenico: masked on the text
	let alphabet = ['*', 'X', '0', 'A', 'a', '1'];
	let q3 = Seqs { k: 6, lo: 0, hi: e.pick(4, 6) };
	let itags = ["5A", "9F10", "E1", "DF01", "95"];
	let fmt = ["a", "h"];
	for m in &masks {
		let set = Settings {
			masks: m.clone(),
			sort: true,
		};
		e.family(
			&format!("values under masks {m:?}, Ingenico"),
			"every data text up to the bound over 6 characters x both formats x 5 tags (one block per text and format)",
			q3.count() * 2,
			|r, i| {
				let t: String = q3.get(i / 2).iter().map(|x| alphabet[*x]).collect();
				let f = fmt[i as usize % 2];
				if f == "h" && t.len() % 2 == 1 {
					return Ok(());
				}
				let n = if f == "h" { t.len() / 2 } else { t.len() };
				let good: Vec<String> = itags
					.iter()
					.map(|tag| format!("T{tag}:{n:02X}:{f}{t}"))
					.collect();
				// those that are refused go alone
				let (mut ok, mut bad) = (vec![], vec![]);
				for g in good {
					if expect(Op::Ingenico, g.as_bytes(), &set).result.is_ok() {
						ok.push(g);
					} else {
						bad.push(g);
					}
				}
				let mut all = vec![ok.join(" ")];
				if bad.len() == itags.len() {
					bad.truncate(1);
				}
				all.extend(bad);
				for x in all.into_iter().filter(|x| !x.is_empty()) {
					let exp = expect(Op::Ingenico, x.as_bytes(), &set);
					let c = settings_args(op_case(Op::Ingenico, &x), &set);
					let o = r.run(&c);
					r.item(&c.args);
					r.sample(|| c.shell("pemv"));
					judge_masking(Op::Ingenico, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))?;
				}
				Ok(())
			},
		);
	}
	// nested values in the Ingenico format
	let q4 = Seqs { k: 6, lo: 0, hi: e.pick(3, 4) };
	let orders: [Vec<char>; 5] = [vec!['*', 'X'], vec!['X', '*'], vec!['#', 'X', '*'], vec!['*'], vec!['#', '0', 'a', 'X']];
	e.family(
		"nested values, Ingenico",
		"every value up to the bound over 6 bytes, inside one and two constructed objects of a field in hex or text x 3 tags x 5 ordered sets of masks",
		q4.count() * 3 * 2 * 2 * 5,
		|r, i| {
			let d = digits(i, &[3, 2, 2, 5, q4.count()]);
			let v: Vec<u8> = q4.get(d[4] as u64).iter().map(|x| [b'*', b'X', b'0', b'#', b'a', 0x11][*x]).collect();
			let mut b = tlv(&[[0x5A], [0x50], [0x7A]][d[0]], &v);
			if d[1] == 1 {
				b = tlv(&[0x61], &[b, tlv(&[0x42], b"XX"), tlv(&[0x43], b"##")].concat());
			}
			let set = Settings {
				masks: orders[d[3]].clone(),
				sort: true,
			};
			let t = if d[2] == 0 {
				format!("TE1:{:02X}:h{}", b.len(), hex(&b))
			} else if b.contains(&0) {
				return Ok(());
			} else {
				format!("TE1:{:02X}:a{}", b.len(), b.iter().map(|x| *x as char).collect::<String>())
			};
			let exp = expect(Op::Ingenico, t.as_bytes(), &set);
			let c = settings_args(op_case(Op::Ingenico, &t), &set);
			let o = r.run(&c);
			r.item(&c.args);
			r.sample(|| c.shell("pemv"));
			judge_masking(Op::Ingenico, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
		},
	);
	// masking characters that are no ASCII characters
	let wide = [
		'\u{12A}', '\u{1042A}', '\u{158}', '\u{E9}', '\u{FF}', '\u{80}', '\u{FF0A}', '\u{3A9}', '\u{100}', '\u{1F4B3}', '\u{30}', '\u{2A2A}',
	];
	let bytes = [0x2Au8, 0x58, 0xE9, 0xFF, 0x80, 0x30, 0xC3, 0xA9, 0xEF, 0xBC, 0x8A, 0x00, 0xF0];
	let q5 = Seqs { k: bytes.len() as u64, lo: 1, hi: e.pick(3, 4) };
	for (k, m) in wide.iter().enumerate() {
		let set = Settings {
			masks: if k % 2 == 0 { vec![*m] } else { vec!['*', *m] },
			sort: true,
		};
		explore_objects(
			e,
			&format!("values under the mask U+{:04X}", *m as u32),
			"every value up to the bound over 13 bytes, among them the low byte and the UTF-8 bytes of the masking character",
			q5.count(),
			&set,
			Proj { value: true, ..MASKING },
			Refused::Run,
			|i| {
				let v: Vec<u8> = q5.get(i).iter().map(|x| bytes[*x]).collect();
				tlv(&[0x5A], &v)
			},
		);
	}
	e.family(
		"Ingenico texts under other masks",
		"every masking character above x text of 0..6 of their low bytes and `*`, alone and nested",
		wide.len() as u64 * 7 * 3 * 2,
		|r, i| {
			let d = digits(i, &[wide.len() as u64, 7, 3, 2]);
			let set = Settings {
				masks: vec![wide[d[0]]],
				sort: true,
			};
			let ch = ['*', 'X', '0'][d[2]];
			let v = ch.to_string().repeat(d[1]);
			let t = if d[3] == 0 {
				format!("T5A:{:02X}:a{v}", v.len())
			} else {
				format!("TE1:{:02X}:h{}", v.len() + 2, hex(&tlv(&[0x5A], v.as_bytes())))
			};
			let exp = expect(Op::Ingenico, t.as_bytes(), &set);
			let c = settings_args(op_case(Op::Ingenico, &t), &set);
			let o = r.run(&c);
			r.item(&c.args);
			judge_masking(Op::Ingenico, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
		},
	);
	// no masking characters at all, and many
	e.family(
		"mask sets from the environment",
		"no masking character, one, and twenty: masked-looking values of 0..6 equal characters",
		3 * 7 * 3,
		|r, i| {
			let d = digits(i, &[3, 7, 3]);
			let sets: [(&str, Vec<char>); 3] = [
				("[]", vec![]),
				("[Z]", vec!['Z']),
				("[a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,\"*\"]", "abcdefghijklmnopqrs*".chars().collect()),
			];
			let v = vec![[b'*', b'Z', b'k'][d[2]]; d[1]];
			let b = [tlv(&[0x5A], &v), tlv(&[0xE1], &tlv(&[0xC1], &v))].concat();
			let set = Settings {
				masks: sets[d[0]].1.clone(),
				sort: true,
			};
			let exp = expect(Op::Ber, hex(&b).as_bytes(), &set);
			let c = op_case(Op::Ber, &hex(&b)).env("PEMV_MASKING_CHARACTERS", sets[d[0]].0);
			let o = r.run(&c);
			r.item(&(d[0], &c.args));
			judge_masking(Op::Ber, &exp, &o).map_err(|m| Bad::new(&c, &o, exp.stdout(), m))
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::Nested, Form::Ingenico, Form::Skipping, Form::AutoIngenico],
		&|r, op, t, s| {
			accepted(
				r,
				op,
				t,
				s,
				Proj {
					value: true,
					..MASKING
				},
			)
		},
	);
	// fields whose masked data is longer or shorter than they say
	let radix = [17u64, 36, 2, 3, 3, 2];
	e.family(
		"sizes of masked fields",
		"lengths 0..16 x 0..35 masking characters as hex and as text, with two masks, last, before another field and between two, read as Ingenico and by detection",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let m = ["*", "X", "0"][d[3]];
			let o = format!("T5A:{:02X}:{}{}", d[0], ["a", "h"][d[2]], m.repeat(d[1]));
			let t = [o.clone(), format!("{o},T9A:01:h24"), format!("T9A:01:h24,{o},T9C:01:h00")][d[4]].clone();
			let s = Settings {
				masks: vec!['X', '0', '*'],
				sort: true,
			};
			let exp = expect([Op::Ingenico, Op::Auto][d[5]], t.as_bytes(), &s);
			if exp.ambiguous {
				return Ok(());
			}
			single_tlv(r, [Op::Ingenico, Op::Auto][d[5]], &t, &s, Proj { value: true, ..MASKING })
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

const ORDER: Proj = Proj {
	order: true,
	size: true,
	value: true,
	name: false,
	masked: false,
	parsed: true,
	kids: true,
	dump: false,
};

pub fn c07(e: &mut Engine) {
	let on = Settings::default();
	let off = Settings {
		sort: false,
		..Settings::default()
	};
	let both = [on.clone(), off.clone()];
	// equal tags, tags that differ in the first, second and third byte only; values tell positions apart
	let tags: [&[u8]; 7] = [
		&[0x5A],
		&[0x9F, 0x02],
		&[0x9F, 0x26],
		&[0xDF, 0x81, 0x01],
		&[0xDF, 0x81, 0x02],
		&[0x9A],
		&[0x5F, 0x34],
	];
	let make = |v: &[usize]| -> Vec<u8> {
		v.iter()
			.enumerate()
			.flat_map(|(p, x)| tlv(tags[*x], &[0xF0 - p as u8, *x as u8]))
			.collect()
	};
	let q = Seqs { k: 7, lo: 1, hi: 4 };
	e.family(
		"tag sequences at the top level",
		"every sequence of 1..4 of 7 tags (repeats included), sorted and not",
		q.count() * 2,
		|r, i| single_tlv(r, Op::Ber, &hex(&make(&q.get(i / 2))), &both[i as usize % 2], ORDER),
	);
	let q = Seqs { k: 7, lo: 1, hi: e.pick(5, 6) };
	for (n, set) in both.iter().enumerate() {
		explore_objects(
			e,
			["tag sequences nested, sorted", "tag sequences nested, unsorted"][n],
			"every sequence of 7 tags up to the bound inside a constructed object; the constructed objects themselves share one tag",
			q.count(),
			set,
			ORDER,
			Refused::Run,
			|i| tlv(&[0xE1], &make(&q.get(i))),
		);
	}
	// Ingenico tags can be prefixes of each other
	let itags: [&[u8]; 6] = [&[0x9F], &[0x9F, 0x26], &[0x9F, 0x26, 0x01], &[0x5A], &[0x00], &[0x9F, 0x00]];
	let q = Seqs { k: 6, lo: 1, hi: e.pick(4, 5) };
	e.family(
		"tag sequences, Ingenico",
		"every sequence of 6 tags that are prefixes of one another, sorted and not",
		q.count() * 2,
		|r, i| {
			let t: Vec<String> = q
				.get(i / 2)
				.iter()
				.enumerate()
				.map(|(p, x)| ingenico(itags[*x], &[0xF0 - p as u8]))
				.collect();
			single_tlv(r, Op::Ingenico, &t.join(" "), &both[i as usize % 2], ORDER)
		},
	);
	// long sequences, where sorting algorithms change their ways
	let period = Seqs { k: 2, lo: 1, hi: e.pick(6, 8) };
	let lens = [19usize, 20, 21, 22, 33, 50, 64, 65, 100, 300];
	e.family(
		"long sequences",
		"every periodic pattern of two tags up to the bound, repeated to 10 lengths from 19 to 300, top level and nested, sorted and not",
		period.count() * lens.len() as u64 * 4,
		|r, i| {
			let d = digits(i, &[period.count(), lens.len() as u64, 4]);
			let p = period.get(d[0] as u64);
			let b: Vec<u8> = (0..lens[d[1]])
				.flat_map(|k| {
					tlv(
						[&[0x9F, 0x26][..], &[0x5A]][p[k % p.len()]],
						&(0xFFFF - k as u16).to_be_bytes(),
					)
				})
				.collect();
			let b = if d[2] >= 2 { tlv(&[0xE1], &b) } else { b };
			single_tlv(r, Op::Ber, &hex(&b), &both[d[2] % 2], ORDER)
		},
	);
	e.family(
		"permutations of many tags",
		"rotations and reversals of 60 distinct tags in three strides, each tag twice, sorted and not",
		60 * 2 * 3 * 2,
		|r, i| {
			let d = digits(i, &[60, 2, 3, 2]);
			let all: Vec<Vec<u8>> = [one_byte_tags(), two_byte_tags()].concat();
			let picked: Vec<&Vec<u8>> = all
				.iter()
				.filter(|t| valid_value(t, 2).is_some() && t[0] & 0x20 == 0)
				.step_by([1, 7, 11][d[2]])
				.take(60)
				.collect();
			let mut order: Vec<usize> = (0..120).map(|k| (k + d[0]) % 60).collect();
			if d[1] == 1 {
				order.reverse();
			}
			let b: Vec<u8> = order
				.iter()
				.enumerate()
				.filter(|(_, x)| **x < picked.len())
				.flat_map(|(p, x)| {
					let v = valid_value(picked[*x], 2).unwrap();
					let v = if model::interpret(picked[*x], &v).is_ok_and(|(_, p)| p.is_none()) {
						vec![0x80, p as u8]
					} else {
						v
					};
					tlv(picked[*x], &v)
				})
				.collect();
			single_tlv(r, Op::Ber, &hex(&b), &both[d[3]], ORDER)
		},
	);
	// every pair of adjacent tags in both orders
	let tags: Vec<Vec<u8>> = [one_byte_tags(), two_byte_tags()].concat();
	let n = tags.len() as u64;
	explore_objects(
		e,
		"pairs of tags",
		"tag i with tags i+1, i+2, i+7, i+31, i+64, i+128 and i+500, in descending order, inside a constructed object",
		n * 7,
		&on,
		ORDER,
		Refused::Run,
		|i| {
			let d = digits(i, &[n, 7]);
			let a = &tags[d[0]];
			let b = &tags[(d[0] + [1, 2, 7, 31, 64, 128, 500][d[1]]) % tags.len()];
			let (a, b) = if a > b { (a, b) } else { (b, a) };
			tlv(&[0xE1], &[encode(a, 2, 0), encode(b, 2, 0)].concat())
		},
	);
	// sorting and nesting together
	let leaf = vec![tlv(&[0x9F, 0x26], &[1]), tlv(&[0x5A], &[2]), tlv(&[0x95], &[0x80, 0, 0, 0, 0])];
	let inner = vec![vec![0xE1], vec![0x7F, 0x21], vec![0x61]];
	for n in 2..=e.pick(4usize, 5) {
		let all = forests(n, &inner, &leaf);
		for (k, set) in both.iter().enumerate() {
			explore_objects(
				e,
				&format!("forests of {n} objects, {}", ["sorted", "unsorted"][k]),
				"every ordered forest, 3 constructed tags and 3 leaves, inside a constructed object",
				all.len() as u64,
				set,
				ORDER,
				Refused::Run,
				|i| tlv(&[0xEF], &all[i as usize]),
			);
			if n <= 3 {
				e.family(
					&format!("forests of {n} objects at the top level, {}", ["sorted", "unsorted"][k]),
					"the same forests as whole blocks",
					all.len() as u64,
					|r, i| single_tlv(r, Op::Ber, &hex(&all[i as usize]), set, ORDER),
				);
			}
		}
	}
	let pal = palette();
	let q = Seqs { k: pal.len() as u64, lo: 2, hi: e.pick(2, 3) };
	e.family(
		"object sequences",
		"every sequence of palette objects up to the bound, sorted and not, through each way to switch sorting",
		q.count() * 2,
		|r, i| single_tlv(r, Op::Ber, &hex(&palette_bytes(&q.get(i / 2), &pal)), &both[i as usize % 2], ORDER),
	);
	// tags of every length with different first bytes
	let mixed: Vec<Vec<u8>> = [
		"42", "5A", "9A", "C1", "D0", "DE", "82", "00", "5F24", "5F34", "9F02", "9F26", "DF01", "DF7F", "1F00", "9F7F", "DF8101", "9F8101",
		"1F8100", "5FFF7F", "DF818101", "9FFFFF00", "1F80808001", "DFFF8101", "E0", "F1", "70", "BF0C", "FF8101", "7F2181",
	]
	.iter()
	.map(|h| model::lenient_hex(h.as_bytes()))
	.filter(|t| t.len() == 1 || t[t.len() - 1] & 0x80 == 0)
	.collect();
	let q = Seqs {
		k: mixed.len() as u64,
		lo: 2,
		hi: 3,
	};
	for (n, set) in both.iter().enumerate() {
		explore_objects(
			e,
			["tags of all lengths, sorted", "tags of all lengths, unsorted"][n],
			"every pair and triple of 29 tags of 1..5 bytes inside a constructed object",
			q.count(),
			set,
			ORDER,
			Refused::Run,
			|i| {
				let b: Vec<u8> = q
					.get(i)
					.iter()
					.enumerate()
					.flat_map(|(p, x)| {
						let t = &mixed[*x];
						// valid for every tag among them, and telling the places apart
						tlv(t, &[0x80, p as u8])
					})
					.collect();
				tlv(&[0xE1], &b)
			},
		);
	}
	let q = Seqs {
		k: mixed.len() as u64,
		lo: 2,
		hi: 2,
	};
	e.family(
		"tags of all lengths at the top level",
		"every pair of 29 tags of 1..5 bytes, BER and Ingenico, sorted and not",
		q.count() * 4,
		|r, i| {
			let v = q.get(i / 4);
			let set = &both[i as usize / 2 % 2];
			if i % 2 == 0 {
				let b: Vec<u8> = v.iter().enumerate().flat_map(|(p, x)| tlv(&mixed[*x], &[0x80, p as u8])).collect();
				single_tlv(r, Op::Ber, &hex(&b), set, ORDER)
			} else {
				let t: Vec<String> = v.iter().enumerate().map(|(p, x)| ingenico(&mixed[*x], &[0x80, p as u8])).collect();
				single_tlv(r, Op::Ingenico, &t.join(" "), set, ORDER)
			}
		},
	);
	// tags that agree in all but one of their bytes, wherever it is
	let like: Vec<(usize, usize)> = (2..=9usize).flat_map(|n| (0..n).map(move |at| (n, at))).collect();
	let likes = |n: usize, at: usize| -> Vec<Vec<u8>> {
		[0x81u8, 0x82, 0xC0, 0xFE]
			.iter()
			.map(|x| {
				let mut t = vec![0x90u8; n];
				t[0] = 0xDF;
				t[n - 1] = 0x33;
				t[at] = match at {
					0 => [0x1F, 0x5F, 0x9F, 0xDF][usize::from(x >> 6 & 1) * 2 + usize::from(x & 2 != 0)],
					_ if at == n - 1 => x & 0x7F,
					_ => *x,
				};
				t
			})
			.collect()
	};
	let q = Seqs { k: 4, lo: 2, hi: e.pick(3, 4) };
	e.family(
		"tags that differ in one byte",
		"tags of 2..9 bytes that agree in all but one byte x each place of that byte x every sequence of 4 such tags up to the bound x BER-TLV, nested and Ingenico, sorted and not",
		like.len() as u64 * q.count() * 3 * 2,
		|r, i| {
			let d = digits(i, &[like.len() as u64, q.count(), 3, 2]);
			let t = likes(like[d[0]].0, like[d[0]].1);
			let seq = q.get(d[1] as u64);
			let set = &both[d[3]];
			if d[2] == 2 {
				let f: Vec<String> = seq.iter().enumerate().map(|(p, x)| ingenico(&t[*x], &[0x80, p as u8])).collect();
				return single_tlv(r, Op::Ingenico, &f.join(" "), set, ORDER);
			}
			let b: Vec<u8> = seq.iter().enumerate().flat_map(|(p, x)| tlv(&t[*x], &[0x80, p as u8])).collect();
			let b = if d[2] == 1 { tlv(&[0xE1], &b) } else { b };
			single_tlv(r, Op::Ber, &hex(&b), set, ORDER)
		},
	);
	let ilens = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64, 100];
	e.family(
		"tags that begin alike, Ingenico",
		"every ordered pair of tags of 14 lengths from 1 to 100 bytes, all of one byte (3 bytes) with the last one equal, smaller or greater, sorted and not",
		14 * 14 * 3 * 3 * 2,
		|r, i| {
			let d = digits(i, &[14, 14, 3, 3, 2]);
			let fill = [0x00u8, 0x5A, 0xFF][d[2]];
			let a = vec![fill; ilens[d[0]]];
			let mut b = vec![fill; ilens[d[1]]];
			*b.last_mut().unwrap() = [fill, fill.wrapping_sub(1), fill.wrapping_add(1)][d[3]];
			let t = format!("{} {} {}", ingenico(&a, &[0x80, 1]), ingenico(&b, &[0x80, 2]), ingenico(&a, &[0x80, 3]));
			single_tlv(r, Op::Ingenico, &t, &both[d[4]], ORDER)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::BerUnsorted, Form::Nested, Form::Nested2, Form::Ingenico, Form::IngenicoText],
		&|r, op, t, s| accepted(r, op, t, s, ORDER),
	);
	// tags of equal length that differ in two places, in opposite directions
	let places: Vec<(usize, usize, usize)> = (2..=6usize).flat_map(|n| (0..n).flat_map(move |q| (0..q).map(move |p| (n, p, q)))).collect();
	let radix = [places.len() as u64, 8, 6, 2, 2, 2];
	e.family(
		"tags that differ in two places",
		"tags of 2..6 bytes, every two places, one greater and the other smaller, 8 pairs of values, 6 first bytes, both orders, at depth 0 and 2, with and without sorting",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (n, p, q) = places[d[0]];
			let (lo, hi) = [(1u8, 2u8), (0, 1), (1, 0x7F), (0x20, 0x60), (0x0F, 0x10), (0x3F, 0x40), (2, 0x12), (0x7E, 0x7F)][d[1]];
			let first = [0x9F, 0xDF, 0x5F, 0x1F, 0xBF, 0xFF][d[2]];
			let mk = |at: usize, lower: usize| -> Vec<u8> {
				(0..n)
					.map(|k| {
						let b = if k == at { hi } else if k == lower { lo } else { 0x33 };
						match k {
							0 if k == at => 0xFF,
							0 if k == lower => 0x1F,
							0 => first,
							_ if k + 1 < n => b | 0x80,
							_ => b,
						}
					})
					.collect()
			};
			let (a, b) = (tlv(&mk(p, q), &[1]), tlv(&mk(q, p), &[2]));
			let c = tlv(&mk(n, n), &[3]);
			let t = if d[3] == 0 { [&a[..], &c, &b].concat() } else { [&b[..], &c, &a].concat() };
			single_tlv(r, Op::Ber, &hex(&nest(t, [0, 2][d[4]])), &[on.clone(), off.clone()][d[5]], ORDER)
		},
	);
}

// ---------------------------------------------------------------------------------------------------------

const DUMP: Proj = Proj {
	order: false,
	size: true,
	value: false,
	name: false,
	masked: false,
	parsed: false,
	kids: true,
	dump: true,
};

pub fn c20(e: &mut Engine) {
	let s = Settings {
		masks: vec!['\u{1}'],
		sort: true,
	};
	let max = e.pick(100u64, 1000);
	explore_objects(
		e,
		"every length",
		"value lengths 0..bound x 4 fillings x depth 0, 1, 2, 5",
		(max + 1) * 4 * 4,
		&s,
		DUMP,
		Refused::Run,
		|i| {
			let d = digits(i, &[max + 1, 4, 4]);
			let v: Vec<u8> = (0..d[0])
				.map(|k| match d[1] {
					0 => k as u8,
					1 => 0x20,
					2 => 0x41 + (k % 26) as u8,
					_ => (k * 101 + 13) as u8,
				})
				.collect();
			nest(tlv(&[0xC1], &v), [0, 1, 2, 5][d[2]])
		},
	);
	// every byte in every column of every line length
	explore_objects(
		e,
		"every byte in every column",
		"every byte value at every position of values of 1..34 bytes",
		256 * (1..=34u64).sum::<u64>(),
		&s,
		DUMP,
		Refused::Run,
		|i| {
			let d = digits(i, &[(1..=34u64).sum(), 256]);
			let (mut n, mut p) = (1usize, d[0]);
			while p >= n {
				p -= n;
				n += 1;
			}
			let mut v = vec![b'.'; n];
			v[p] = d[1] as u8;
			tlv(&[0xC1], &v)
		},
	);
	explore_objects(
		e,
		"every byte pair",
		"all 65,536 two-byte values",
		65536,
		&s,
		DUMP,
		Refused::Run,
		|i| tlv(&[0xC1], &(i as u16).to_be_bytes()),
	);
	if e.thorough() {
		explore_objects(
			e,
			"every byte triple",
			"all 2^24 three-byte values",
			1 << 24,
			&s,
			DUMP,
			Refused::Run,
			|i| tlv(&[0xC1], &(i as u32).to_be_bytes()[1..]),
		);
	}
	explore_objects(
		e,
		"every length of parsed and constructed tags",
		"lengths 0..64 of tags with a breakdown (CVM List, IAD), constructed tags and named tags, at depths 0 and 3",
		65 * 6 * 2,
		&s,
		DUMP,
		Refused::Run,
		|i| {
			let d = digits(i, &[65, 6, 2]);
			let tag: &[u8] = [&[0x8E][..], &[0x9F, 0x10], &[0xE1], &[0x50], &[0x9F, 0x4B], &[0x70]][d[1]];
			let v = valid_value(tag, d[0]).unwrap_or_else(|| vec![0; 8]);
			nest(tlv(tag, &v), [0, 3][d[2]])
		},
	);
	let deep = e.pick(40u64, 100);
	e.family(
		"deep dumps",
		"values of 0, 1, 16, 17 and 33 bytes at every depth up to the bound",
		deep * 5,
		|r, i| {
			let d = digits(i, &[deep, 5]);
			let v: Vec<u8> = (0..[0, 1, 16, 17, 33][d[1]]).map(|k| 0x70 + k as u8).collect();
			single_tlv(r, Op::Ber, &hex(&nest(tlv(&[0xC1], &v), d[0])), &s, DUMP)
		},
	);
	e.family(
		"dumps of Ingenico values",
		"every ASCII character in text data; every byte in hex data; lengths 0..64",
		128 + 256 + 65,
		|r, i| {
			let i = i as usize;
			let t = match i {
				0 => return Ok(()),
				1..=127 => format!("TC1:03:aA{}z", i as u8 as char),
				128..=383 => format!("TC1:02:h{:02X}41", i - 128),
				_ => ingenico(&[0xC1], &vec![0x7E; i - 384]),
			};
			single_tlv(r, Op::Ingenico, &t, &s, DUMP)
		},
	);
	e.family(
		"large dumps",
		"values of 255..258, 4,095..4,097, 65,000 bytes and 65,535..131,000 characters",
		12,
		|r, i| {
			let n = [255usize, 256, 257, 258, 4095, 4096, 4097, 65000, 65535, 65536, 65537, 130_900][i as usize];
			if n > 65000 {
				let t = format!("TC1:{n:06X}:a{}", "0aZ~ ".repeat(n / 5 + 1)[..n].to_owned());
				return single_tlv(r, Op::Ingenico, &t, &s, DUMP);
			}
			let v: Vec<u8> = (0..n).map(|k| (k * 31 + k / 256) as u8).collect();
			single_tlv(r, Op::Ber, &hex(&tlv(&[0xC1], &v)), &s, DUMP)
		},
	);
	broad::surroundings(
		e,
		&[Form::Ber, Form::Nested2, Form::Ingenico, Form::IngenicoText],
		&|r, op, t, s| accepted(r, op, t, s, DUMP),
	);
	// lines that repeat
	let most = e.pick(48u64, 256);
	let radix = [most, 6, 4, 4, 2];
	explore_objects(
		e,
		"lines that repeat",
		"1..48 (256) lines of 6 fillings, all equal, in turn, with one that differs in the middle, or at the end; the last line whole or not; at depth 0 and 2",
		product(&radix),
		&s,
		DUMP,
		Refused::Run,
		|i| {
			let d = digits(i, &radix);
			let n = d[0] + 1;
			let f = [0x00u8, 0x11, 0x20, 0x41, 0x7F, 0xFF][d[1]];
			let mut v = vec![f; n * 16];
			match d[2] {
				0 => (),
				1 => v.iter_mut().enumerate().for_each(|(k, b)| *b = if k / 16 % 2 == 0 { f } else { f ^ 0x55 }),
				2 => v[n / 2 * 16 + 7] ^= 1,
				_ => *v.last_mut().unwrap() ^= 1,
			}
			v.extend(vec![f; [0, 1, 8, 15][d[3]]]);
			nest(tlv(&[0xC1], &v), [0, 2][d[4]])
		},
	);
}
fn nest(mut b: Vec<u8>, depth: usize) -> Vec<u8> {
	for _ in 0..depth {
		b = tlv(&[0xE1], &b);
	}
	b
}

// ---------------------------------------------------------------------------------------------------------

fn indent_text(t: &str, tabs: usize) -> String {
	t.lines()
		.map(|l| {
			if l.is_empty() {
				"\n".to_owned()
			} else {
				format!("{}{l}\n", "\t".repeat(tabs))
			}
		})
		.collect()
}
const CHILDREN: &str = "Constructed Data Object's Child Tags:\n";

pub fn c23(e: &mut Engine) {
	let mut pal = palette();
	pal.push(("all TVR bits", tlv(&[0x95], &[0xFF; 5])));
	pal.push(("no TVR bits", tlv(&[0x95], &[0; 5])));
	pal.push(("line of dump", tlv(&[0xC1], &[0x41; 16])));
	pal.push(("three lines of dump", tlv(&[0xC1], &[0x80; 33])));
	// alone
	let alone: Vec<String> = {
		let slot = std::sync::Mutex::new(vec![String::new(); pal.len()]);
		e.family("objects alone", "each palette object by itself", pal.len() as u64, |r, i| {
			let c = Case::new(&["-b", &hex(&pal[i as usize].1), "--no-sort-parsed-tags"]);
			let o = r.run(&c);
			r.item(&c.args);
			if o.out.is_empty() || !o.err.is_empty() {
				return Err(Bad::new(&c, &o, "", "a valid object is not shown"));
			}
			slot.lock().unwrap()[i as usize] = o.out_str();
			Ok(())
		});
		slot.into_inner().unwrap()
	};
	let k = pal.len() as u64;
	let q = Seqs { k, lo: 2, hi: e.pick(3, 4) };
	e.family(
		"sequences",
		"every sequence of 2.. palette objects up to the bound against the objects alone",
		q.count(),
		|r, i| {
			let v = q.get(i);
			let b: Vec<u8> = v.iter().flat_map(|x| pal[*x].1.clone()).collect();
			let c = Case::new(&["-b", &hex(&b), "--no-sort-parsed-tags"]);
			let want: Vec<&str> = v.iter().map(|x| alone[*x].as_str()).collect();
			let want = want.join("\n");
			let o = r.run(&c);
			r.item(&c.args);
			for _ in &v {
				model::step();
			}
			r.sample(|| c.shell("pemv"));
			if o.out != want.as_bytes() || !o.err.is_empty() {
				return Err(Bad::new(&c, &o, want, "the block is not its objects' breakdowns, one blank line apart"));
			}
			Ok(())
		},
	);
	// nested: contents as a block against contents in a constructed object
	let q = Seqs { k, lo: 1, hi: e.pick(2, 3) };
	let outer: [&[u8]; 4] = [&[0xE1], &[0x6F], &[0x7F, 0x21], &[0xBF, 0x0C]];
	e.family(
		"nested sequences",
		"every sequence of palette objects up to the bound on its own and as children, 1 to 4 levels down, under 4 tags, with and without sorting",
		q.count() * 2,
		|r, i| {
			let v = q.get(i / 2);
			let b: Vec<u8> = v.iter().flat_map(|x| pal[*x].1.clone()).collect();
			let mk = |t: &[u8]| {
				let c = Case::new(&["-b", &hex(t)]);
				if i % 2 == 1 {
					c.arg("--no-sort-parsed-tags")
				} else {
					c
				}
			};
			let mut inner = r.run(&mk(&b)).out_str();
			let mut block = b;
			for depth in 0..4usize {
				let tag = outer[(i as usize + depth) % 4];
				block = tlv(tag, &block);
				let c = mk(&block);
				let o = r.run(&c);
				r.item(&(depth, &c.args));
				model::step();
				let out = o.out_str();
				let want = indent_text(&inner, 1);
				let got = out.split_once(CHILDREN).map(|(_, g)| g);
				if got != Some(want.as_str()) {
					return Err(Bad::new(&c, &o, want, "children are not shown as the same block indented by one tab"));
				}
				inner = out;
			}
			Ok(())
		},
	);
	let deep = e.pick(20u64, 95);
	e.family(
		"every depth",
		"each palette object at every depth up to the bound, and a neighbour behind each level",
		k * 2,
		|r, i| {
			let (mut b, mut inner) = (pal[i as usize / 2].1.clone(), alone[i as usize / 2].clone());
			for depth in 0..deep as usize {
				let tag = outer[depth % 4];
				b = tlv(tag, &b);
				let c = Case::new(&["-b", &hex(&b), "--no-sort-parsed-tags"]);
				let o = r.run(&c);
				r.item(&c.args);
				model::step();
				let want = indent_text(&inner, 1);
				let out = o.out_str();
				if out.split_once(CHILDREN).map(|(_, g)| g) != Some(want.as_str()) {
					return Err(Bad::new(&c, &o, want, "children are not shown as the same block indented by one tab"));
				}
				inner = out;
				if i % 2 == 1 {
					let n = (depth * 5 + i as usize) % pal.len();
					b.extend(&pal[n].1);
					inner = format!("{inner}\n{}", alone[n]);
				}
			}
			Ok(())
		},
	);
	// values: each TVR bit, each dump length, each rule, beside one another
	let singles: Vec<Vec<u8>> = {
		let mut v = Vec::new();
		for bit in 0..40 {
			let mut t = [0u8; 5];
			t[bit / 8] = 0x80 >> (bit % 8);
			v.push(tlv(&[0x95], &t));
			v.push(tlv(&[0x9F, 0x40], &t));
			v.push(tlv(&[0x9F, 0x0E], &t));
		}
		for n in 0..40 {
			v.push(tlv(&[0xC1], &vec![0x30 + n as u8; n]));
		}
		for m in 0..64u8 {
			v.push(tlv(&[0x9F, 0x34], &[m, m % 12, m % 3]));
			v.push(tlv(&[0x8E], &[0, 0, 0, m, 0, 0, 0, 0, m, m % 16]));
		}
		v
	};
	let n = singles.len() as u64;
	e.family(
		"values beside one another",
		"288 values: each alone, doubled, before and after each palette object, and nested once",
		n,
		|r, i| {
			let x = &singles[i as usize];
			let me = r.run(&Case::new(&["-b", &hex(x), "--no-sort-parsed-tags"])).out_str();
			let check = |r: &mut crate::engine::Runner, b: Vec<u8>, want: String| {
				let c = Case::new(&["-b", &hex(&b), "--no-sort-parsed-tags"]);
				let o = r.run(&c);
				r.item(&c.args);
				model::step();
				let got = o.out_str();
				if got != want {
					return Err(Bad::new(&c, &o, want, "the breakdown depends on its surroundings"));
				}
				Ok(())
			};
			check(r, [x.clone(), x.clone()].concat(), format!("{me}\n{me}"))?;
			for (j, p) in pal.iter().enumerate() {
				check(r, [x.clone(), p.1.clone()].concat(), format!("{me}\n{}", alone[j]))?;
				check(r, [p.1.clone(), x.clone()].concat(), format!("{}\n{me}", alone[j]))?;
			}
			Ok(())
		},
	);
	e.family(
		"long histories",
		"each palette object after 10, 100 and 1000 others",
		k * 3,
		|r, i| {
			let d = digits(i, &[k, 3]);
			let n = [10usize, 100, 1000][d[1]];
			let mut b = Vec::new();
			let mut want = String::new();
			for j in 0..n {
				let x = (j * 7 + d[0]) % pal.len();
				b.extend(&pal[x].1);
				want += &alone[x];
				want += "\n";
			}
			b.extend(&pal[d[0]].1);
			want += &alone[d[0]];
			let c = Case::new(&["-b", &hex(&b), "--no-sort-parsed-tags"]);
			let o = r.run(&c);
			r.item(&c.args);
			model::step();
			if o.out_str() != want {
				return Err(Bad::new(&c, &o, want, "a breakdown depends on what was shown before it"));
			}
			Ok(())
		},
	);
	// what each object shows by itself, found once
	let cache: std::sync::Mutex<std::collections::HashMap<Vec<u8>, String>> = Default::default();
	let by_itself = |r: &mut crate::engine::Runner, o: &Vec<u8>| -> String {
		if let Some(s) = cache.lock().unwrap().get(o) {
			return s.clone();
		}
		let s = r.run(&Case::new(&["-b", &hex(o), "--no-sort-parsed-tags"])).out_str();
		cache.lock().unwrap().insert(o.clone(), s.clone());
		s
	};
	let forms = [Form::BerUnsorted, Form::Nested2, Form::Skipping];
	broad::surroundings_of(e, &forms, false, &|r, f, objs| {
		let mut want = Vec::new();
		for o in objs {
			let s = by_itself(r, o);
			if s.is_empty() || f == Form::Skipping && o[0] == 0 {
				return Ok(());
			}
			want.push(s);
		}
		let want = want.join("\n");
		let (op, t, s) = broad::input(f, objs);
		let c = settings_args(op_case(op, &t), &s);
		let o = r.run(&c);
		r.item(&c.args);
		for _ in objs {
			model::step();
		}
		let out = o.out_str();
		let (want, got) = if f == Form::Nested2 {
			let inner = out.split_once(CHILDREN).and_then(|(_, g)| g.split_once(CHILDREN)).map(|(_, g)| g);
			(indent_text(&want, 2), inner.unwrap_or(""))
		} else {
			(want, out.as_str())
		};
		if got != want {
			return Err(Bad::new(&c, &o, want, "the block is not its objects' breakdowns, one blank line apart"));
		}
		Ok(())
	});
	let _ = observe::block;
}
